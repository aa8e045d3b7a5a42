// Building manifests from JSON and reading them back through the public getters.
#pragma once
#include "core.hpp"
#include <electionguard/election.hpp>
#include <electionguard/encrypt.hpp>
#include <electionguard/manifest.hpp>
unique_ptr<eg::Manifest> mkManifest(const json &m);
unique_ptr<eg::ContestDescription> mkContest(const json &c);
json dumpManifest(const eg::Manifest &m);
json dumpContest(const eg::ContestDescription &c);
json dumpInternal(const eg::InternalManifest &m);
json dumpWith(const eg::ContestDescriptionWithPlaceholders &c);
json dumpContext(const eg::CiphertextElectionContext &c);
unique_ptr<eg::CiphertextElectionContext> mkContext(const json &a);
