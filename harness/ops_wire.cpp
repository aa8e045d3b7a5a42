// The documents in which objects are stored: what is written, and reading documents made elsewhere.
#include "wire.hpp"
#include <cstring>
extern "C" {
#include <electionguard/group.h>
}
#include <electionguard/serialize.hpp>
using namespace electionguard;

template <class T> static json doc3(const T &x, const string &fmt)
{
    if (fmt == "bson") return flat(json::from_bson(x.toBson()));
    if (fmt == "msgpack") return flat(json::from_msgpack(x.toMsgPack()));
    return flat(json::parse(x.toJson()));
}
template <class T> static json doc2(const T &x, const string &fmt)
{
    return fmt == "bson" ? flat(json::from_bson(x.toBson())) : flat(json::parse(x.toJson()));
}
template <class T> static unique_ptr<T> read3(const json &a)
{
    auto j = unflat(a.at("doc"));
    string fmt = a.at("fmt");
    if (fmt == "bson") return T::fromBson(json::to_bson(j));
    if (fmt == "msgpack") return T::fromMsgPack(json::to_msgpack(j));
    return T::fromJson(text(j, fmt));
}
template <class T> static unique_ptr<T> read2(const json &a)
{
    auto j = unflat(a.at("doc"));
    string fmt = a.at("fmt");
    return fmt == "bson" ? T::fromBson(json::to_bson(j)) : T::fromJson(text(j, fmt));
}
OP(mf_doc) { return doc3(c.get<Manifest>(a.at("n")), a.at("fmt")); }
OP(im_doc) { return doc3(c.get<InternalManifest>(a.at("n")), a.at("fmt")); }
OP(cx_doc) { return doc2(c.get<CiphertextElectionContext>(a.at("name")), a.at("fmt")); }
OP(dv_doc) { return doc2(c.get<EncryptionDevice>(a.at("name")), a.at("fmt")); }
OP(const_doc)
{
    string fmt = a.at("fmt");
    if (fmt == "bson") return flat(json::from_bson(Serialize::Constants::toBson()));
    if (fmt == "msgpack") return flat(json::from_msgpack(Serialize::Constants::toMsgPack()));
    char *data = nullptr;
    uint64_t size = 0;
    if (eg_constant_to_json(&data, &size) != 0) throw std::runtime_error("constants");
    string text(data, strnlen(data, size));
    free(data);
    return flat(json::parse(text));
}
OP(mf_read)
{
    auto m = read3<Manifest>(a);
    return {{"d", dumpManifest(*m)}, {"hash", hexQ(*m->crypto_hash())}, {"valid", m->isValid()}};
}
OP(im_read) { return {{"d", dumpInternal(*read3<InternalManifest>(a))}}; }
OP(cx_read) { return {{"d", dumpContext(*read2<CiphertextElectionContext>(a))}}; }
OP(dv_read)
{
    auto d = read2<EncryptionDevice>(a);
    return {{"d", {{"dev", dec(d->getDeviceUuid())}, {"ses", dec(d->getSessionUuid())}, {"launch", dec(d->getLaunchCode())}, {"loc", d->getLocation()}, {"hash", hexQ(*d->getHash())}}}};
}
// ---- ballots
OP(w_cipher)
{
    auto &b = c.get<CiphertextBallot>(a.at("n"));
    bool w = a.at("nonces");
    string fmt = a.at("fmt");
    if (fmt == "bson") return flat(json::from_bson(b.toBson(w)));
    if (fmt == "msgpack") return flat(json::from_msgpack(b.toMsgPack(w)));
    return flat(json::parse(b.toJson(w)));
}
OP(w_sub) { return doc3(c.get<SubmittedBallot>(a.at("n")), a.at("fmt")); }
OP(w_plain) { return doc3(c.get<PlaintextBallot>(a.at("n")), a.at("fmt")); }
OP(w_kp) { return doc3(c.get<CompactPlaintextBallot>(a.at("n")), a.at("fmt")); }
OP(w_k) { return doc3(c.get<CompactCiphertextBallot>(a.at("n")), a.at("fmt")); }
OP(p_read) { return {{"d", dumpPlain(*read3<PlaintextBallot>(a))}}; }
OP(kp_read) { return {{"d", dumpCompactPlain(*read3<CompactPlaintextBallot>(a))}}; }
OP(k_read) { return {{"d", dumpCompact(*read3<CompactCiphertextBallot>(a))}}; }
OP(b_read) { return {{"d", dumpCipher(*read3<CiphertextBallot>(a))}}; }
OP(s_read)
{
    auto b = read3<SubmittedBallot>(a);
    return {{"d", dumpCipher(*b)}, {"state", (int)b->getState()}};
}

// ---- documents that are none: each change is made on its own, and reading must fail
template <class T> static void readBytes(const vector<uint8_t> &b, const string &fmt)
{
    if (fmt == "bson") T::fromBson(b);
    else if constexpr (!std::is_same_v<T, CiphertextElectionContext> && !std::is_same_v<T, EncryptionDevice>) {
        if (fmt == "msgpack") T::fromMsgPack(b);
        else
            T::fromJson(string(b.begin(), b.end()));
    } else
        T::fromJson(string(b.begin(), b.end()));
}
static void readAny(const string &kind, const vector<uint8_t> &b, const string &fmt)
{
    if (kind == "mf") readBytes<Manifest>(b, fmt);
    else if (kind == "im")
        readBytes<InternalManifest>(b, fmt);
    else if (kind == "cx")
        readBytes<CiphertextElectionContext>(b, fmt);
    else if (kind == "dv")
        readBytes<EncryptionDevice>(b, fmt);
    else if (kind == "p")
        readBytes<PlaintextBallot>(b, fmt);
    else if (kind == "kp")
        readBytes<CompactPlaintextBallot>(b, fmt);
    else if (kind == "k")
        readBytes<CompactCiphertextBallot>(b, fmt);
    else if (kind == "b")
        readBytes<CiphertextBallot>(b, fmt);
    else
        readBytes<SubmittedBallot>(b, fmt);
}
static json without(json root, const string &path, const string &v)
{
    json *at = &root, *parent = nullptr;
    string last;
    for (size_t i = 0; i < path.size();) {
        size_t e = path.find_first_of("/#", i + 1);
        if (e == string::npos) e = path.size();
        last = path.substr(i + 1, e - i - 1);
        parent = at;
        at = path[i] == '#' ? &at->at(std::stoul(last)) : &at->at(last);
        i = e;
    }
    if (v == "gone") parent->erase(last);
    else
        *at = unflat(json::array({json::array({string(), v})}));
    return root;
}
json spoilt(const json &a, void (*read)(const string &, const vector<uint8_t> &, const string &))
{
    string kind = a.at("kind"), fmt = a.at("fmt");
    auto doc = unflat(a.at("doc"));
    auto whole = encode(doc, fmt);
    json acc = json::array(), odd = json::array(), racc = json::array(), good = false;
    auto accepted = [&](const vector<uint8_t> &b, const string &f, json &list, size_t i) {
        try {
            read(kind, b, f);
            list.push_back(i + 1);
        } catch (std::exception &) {
        } catch (...) {
            odd.push_back(i + 1);
        }
    };
    { // as it is, it is read
        json none = json::array();
        accepted(whole, fmt, none, 0);
        good = !none.empty();
    }
    auto &what = a.at("what");
    for (size_t i = 0; i < what.size(); i++) {
        auto j = without(doc, what[i][0], what[i][1]);
        string f = fmt == "bson" && !j.is_object() ? "json" : fmt;
        vector<uint8_t> bytes;
        try {
            bytes = encode(j, f);
        } catch (std::exception &) { // BSON has no such numbers
            bytes = encode(j, f = "json");
        }
        accepted(bytes, f, acc, i);
    }
    auto &raw = a.at("raw");
    for (size_t i = 0; i < raw.size(); i++) {
        auto b = whole;
        string how = raw[i][0];
        size_t n = raw[i][1];
        if (how == "cut") b.resize(b.size() * n / 1000);
        else if (how == "tail")
            b.push_back((uint8_t)n);
        accepted(b, fmt, racc, i);
    }
    return {{"good", good}, {"acc", acc}, {"racc", racc}, {"odd", odd}};
}
OP(spoil) { return spoilt(a, readAny); }
