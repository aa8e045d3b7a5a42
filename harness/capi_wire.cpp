// Reading documents through the C interface.
#include "capi.hpp"
#include "wire.hpp"
using namespace electionguard;

static string fmtOf(const string &fmt) { return fmt == "bson" || fmt == "msgpack" ? fmt : "json"; }
#define C_READ(X) C_READ3(X, fmtOf(fmt), string(b.begin(), b.end()), b)
static void readC(const string &kind, const vector<uint8_t> &b, const string &fmt)
{
    if (kind == "mf") C_READ(eg_election_manifest);
    else if (kind == "im")
        C_READ(eg_internal_manifest);
    else if (kind == "cx") {
        if (fmt == "bson") fromBytes(eg_ciphertext_election_context_from_bson, eg_ciphertext_election_context_free, b);
        else
            fromJson(eg_ciphertext_election_context_from_json, eg_ciphertext_election_context_free, string(b.begin(), b.end()));
    } else if (kind == "dv") {
        if (fmt == "bson") EncryptionDevice::fromBson(b); // not in the C interface
        else
            fromJson(eg_encryption_device_from_json, eg_encryption_device_free, string(b.begin(), b.end()));
    } else if (kind == "p")
        C_READ(eg_plaintext_ballot);
    else if (kind == "b")
        C_READ(eg_ciphertext_ballot);
    else if (kind == "s")
        C_READ(eg_submitted_ballot);
    else { // MessagePack only
        bool kp = kind == "kp";
        if (fmt == "msgpack" && kp) fromBytes(eg_compact_plaintext_ballot_from_msgpack, eg_compact_plaintext_ballot_free, b);
        else if (fmt == "msgpack")
            fromBytes(eg_compact_ciphertext_ballot_from_msgpack, eg_compact_ciphertext_ballot_free, b);
        else if (kp)
            fmt == "bson" ? CompactPlaintextBallot::fromBson(b) : CompactPlaintextBallot::fromJson(string(b.begin(), b.end()));
        else
            fmt == "bson" ? CompactCiphertextBallot::fromBson(b) : CompactCiphertextBallot::fromJson(string(b.begin(), b.end()));
    }
}
OPC(spoil) { return spoilt(a, readC); }

#define READ_OP(T, X)                                       \
    string fmt = a.at("fmt");                               \
    auto b = encode(unflat(a.at("doc")), fmt);              \
    auto h = C_READ(X);                                     \
    auto &o = *reinterpret_cast<T *>(h.p);
OPC(mf_read)
{
    READ_OP(Manifest, eg_election_manifest)
    return {{"d", dumpManifest(o)}, {"hash", hexQ(*o.crypto_hash())}, {"valid", o.isValid()}};
}
OPC(im_read)
{
    READ_OP(InternalManifest, eg_internal_manifest)
    return {{"d", dumpInternal(o)}};
}
OPC(p_read)
{
    READ_OP(PlaintextBallot, eg_plaintext_ballot)
    return {{"d", dumpPlain(o)}};
}
OPC(b_read)
{
    READ_OP(CiphertextBallot, eg_ciphertext_ballot)
    return {{"d", dumpCipher(o)}};
}
OPC(s_read)
{
    READ_OP(SubmittedBallot, eg_submitted_ballot)
    return {{"d", dumpCipher(o)}, {"state", (int)o.getState()}};
}
