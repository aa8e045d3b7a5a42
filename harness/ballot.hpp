// Ballots: building plaintext ballots from JSON and reading every kind of ballot back through the getters.
#pragma once
#include "manifest.hpp"
#include <electionguard/ballot.hpp>
#include <electionguard/ballot_code.hpp>
#include <electionguard/ballot_compact.hpp>
#include <set>
unique_ptr<eg::PlaintextBallotContest> mkPlainContest(const json &c);
unique_ptr<eg::PlaintextBallot> mkPlain(const json &b);
json dumpPlain(const eg::PlaintextBallot &b);
json dumpCipherSel(eg::CiphertextBallotSelection &s);
json dumpCipherContest(const eg::CiphertextBallotContest &c);
json dumpCipher(const eg::CiphertextBallot &b);
json dumpCompactPlain(const eg::CompactPlaintextBallot &b);
json dumpCompact(const eg::CompactCiphertextBallot &b);
// an election as the ballots need it
struct Election {
    unique_ptr<eg::Manifest> manifest;
    unique_ptr<eg::InternalManifest> internal;
    unique_ptr<eg::CiphertextElectionContext> context;
    map<string, unique_ptr<eg::EncryptionDevice>> devices;
    map<string, unique_ptr<eg::EncryptionMediator>> mediators;
};
Election &theElection(Ctx &c);
eg::CiphertextBallot &anyBallot(Ctx &c, const string &n);
eg::ContestDescriptionWithPlaceholders &contestOf(Election &e, const string &id);
// spoils a serialized form as the operation asks
void garble(string &text, vector<uint8_t> &bytes, const json &a);
void leaves(const json &j, std::set<string> &keys, std::set<string> &texts);
