// Encrypting, verifying, tampering with, copying, submitting and compacting ballots.
#include "ballot.hpp"
#include <electionguard/hash.hpp>
#include <electionguard/precompute_buffers.hpp>
#include <set>
using namespace electionguard;
using std::make_unique;

unique_ptr<PlaintextBallotContest> mkPlainContest(const json &c)
{
    vector<unique_ptr<PlaintextBallotSelection>> v;
    for (auto &s : c.at("sel"))
        v.push_back(make_unique<PlaintextBallotSelection>(s.at("id").get<string>(), voteIn(s.at("vote")), s.at("ph").get<bool>(), s.at("wi").get<string>()));
    return make_unique<PlaintextBallotContest>(c.at("id").get<string>(), std::move(v));
}
unique_ptr<PlaintextBallot> mkPlain(const json &b)
{
    vector<unique_ptr<PlaintextBallotContest>> v;
    for (auto &c : b.at("contests")) v.push_back(mkPlainContest(c));
    return make_unique<PlaintextBallot>(b.at("id").get<string>(), b.at("style").get<string>(), std::move(v));
}
static json plainSel(const PlaintextBallotSelection &s)
{
    return {{"id", s.getObjectId()}, {"vote", voteOut(s.getVote())}, {"ph", s.getIsPlaceholder()}, {"wi", s.getWriteIn()}};
}
static json plainContest(const PlaintextBallotContest &c)
{
    json sel = json::array();
    for (auto &s : c.getSelections()) sel.push_back(plainSel(s.get()));
    return {{"id", c.getObjectId()}, {"sel", sel}};
}
json dumpPlain(const PlaintextBallot &b)
{
    json cs = json::array();
    for (auto &w : b.getContests()) cs.push_back(plainContest(w.get()));
    return {{"id", b.getObjectId()}, {"style", b.getStyleId()}, {"contests", cs}};
}
static json djJ(const DisjunctiveChaumPedersenProof *p)
{
    if (!p) return json::array();
    return json::array({{{"a0", hexP(*p->getProofZeroPad())}, {"b0", hexP(*p->getProofZeroData())}, {"a1", hexP(*p->getProofOnePad())},
                         {"b1", hexP(*p->getProofOneData())}, {"c0", hexQ(*p->getProofZeroChallenge())}, {"c1", hexQ(*p->getProofOneChallenge())},
                         {"c", hexQ(*p->getChallenge())}, {"v0", hexQ(*p->getProofZeroResponse())}, {"v1", hexQ(*p->getProofOneResponse())}}});
}
static json ccJ(const ConstantChaumPedersenProof *p)
{
    if (!p) return json::array();
    return json::array({{{"a", hexP(*p->getPad())}, {"b", hexP(*p->getData())}, {"c", hexQ(*p->getChallenge())}, {"v", hexQ(*p->getResponse())},
                         {"k", dec(p->getConstant())}}});
}
static json cipherJ(const ElGamalCiphertext &x) { return json::array({hexP(*x.getPad()), hexP(*x.getData())}); }
json dumpCipherSel(CiphertextBallotSelection &s)
{
    return {{"id", s.getObjectId()}, {"seq", dec(s.getSequenceOrder())}, {"dh", hexQ(*s.getDescriptionHash())}, {"c", cipherJ(*s.getCiphertext())},
            {"hash", hexQ(*s.getCryptoHash())}, {"ph", s.getIsPlaceholder()}, {"nonce", optQ(s.getNonce())}, {"proof", djJ(s.getProof())}};
}
json dumpCipherContest(const CiphertextBallotContest &c)
{
    json sel = json::array();
    for (auto &s : c.getSelections()) sel.push_back(dumpCipherSel(s.get()));
    auto h = c.getHashedElGamalCiphertext();
    json he = json::array();
    if (h) he.push_back({{"pad", hexP(*h->getPad())}, {"data", bytesHex(h->getData())}, {"mac", bytesHex(h->getMac())}});
    return {{"id", c.getObjectId()}, {"seq", dec(c.getSequenceOrder())}, {"dh", hexQ(*c.getDescriptionHash())}, {"sel", sel},
            {"acc", cipherJ(*c.getCiphertextAccumulation())}, {"hash", hexQ(*c.getCryptoHash())}, {"nonce", optQ(c.getNonce())},
            {"proof", ccJ(c.getProof())}, {"he", he}};
}
json dumpCipher(const CiphertextBallot &b)
{
    json cs = json::array();
    for (auto &w : b.getContests()) cs.push_back(dumpCipherContest(w.get()));
    return {{"id", b.getObjectId()}, {"style", b.getStyleId()}, {"mh", hexQ(*b.getManifestHash())}, {"seed", hexQ(*b.getBallotCodeSeed())},
            {"ts", dec(b.getTimestamp())}, {"code", hexQ(*b.getBallotCode())}, {"nonce", optQ(b.getNonce())}, {"hash", hexQ(*b.getCryptoHash())},
            {"contests", cs}};
}
json dumpCompactPlain(const CompactPlaintextBallot &b)
{
    json v = json::array();
    for (auto x : b.getSelections()) v.push_back(voteOut(x));
    return {{"id", b.getObjectId()}, {"style", b.getStyleId()}, {"votes", v}, {"wi", b.getWriteIns()}};
}
json dumpCompact(const CompactCiphertextBallot &b)
{
    return {{"id", b.getObjectId()}, {"plain", dumpCompactPlain(*b.getPlaintext())}, {"seed", hexQ(*b.getBallotCodeSeed())},
            {"code", hexQ(*b.getBallotCode())}, {"ts", dec(b.getTimestamp())}, {"nonce", optQ(b.getNonce())}, {"state", (int)b.getBallotBoxState()}};
}

// ---- the election of a scenario
Election &theElection(Ctx &c) { return c.get<Election>("election"); }
template <typename T> static unique_ptr<T> read3(const string &fmt, const string &text, const vector<uint8_t> &bytes)
{
    if (fmt == "bson") return T::fromBson(bytes);
    if (fmt == "msgpack") return T::fromMsgPack(bytes);
    return T::fromJson(text);
}
template <typename T> static unique_ptr<T> trip3(const T &x, const string &fmt)
{
    if (fmt == "bson") return T::fromBson(x.toBson());
    if (fmt == "msgpack") return T::fromMsgPack(x.toMsgPack());
    return T::fromJson(x.toJson());
}
OP(b_setup)
{
    auto e = make_unique<Election>();
    e->manifest = mkManifest(a.at("m"));
    string fmt = a.at("via");
    if (fmt == "direct") e->internal = make_unique<InternalManifest>(*e->manifest);
    else if (fmt == "manifest") e->internal = make_unique<InternalManifest>(*trip3(*e->manifest, "json"));
    else
        e->internal = trip3(*make_unique<InternalManifest>(*e->manifest), fmt);
    e->context = CiphertextElectionContext::make(u64(a.at("n")), u64(a.at("k")), mkP(a.at("pk"), a.value("fixed", false)), mkQ(a.at("com")),
                                                 make_unique<ElementModQ>(*e->internal->getManifestHash()));
    json r = {{"mh", hexQ(*e->internal->getManifestHash())}, {"xbase", hexQ(*e->context->getCryptoExtendedBaseHash())}};
    c.put("election", std::move(e));
    return r;
}
OP(b_med)
{
    auto &e = theElection(c);
    auto &d = a.at("dev");
    e.devices[a.at("n")] = make_unique<EncryptionDevice>(u64(d.at("dev")), u64(d.at("ses")), u64(d.at("launch")), d.at("loc").get<string>());
    e.mediators[a.at("n")] = make_unique<EncryptionMediator>(*e.internal, *e.context, *e.devices[a.at("n")]);
    return {{"hash", hexQ(*e.devices[a.at("n")]->getHash())}};
}
// buffers for the election key
OP(b_pre)
{
    auto &e = theElection(c);
    PrecomputeBufferContext::init(a.at("size").get<uint32_t>());
    PrecomputeBufferContext::populate(*e.context->getElGamalPublicKey());
    return {{"n", PrecomputeBufferContext::get_current_queue_size()}};
}
static unique_ptr<ElementModQ> optNonce(const json &o) { return o.empty() ? nullptr : mkQ(o[0]); }
OP(b_enc)
{
    auto &e = theElection(c);
    auto plain = mkPlain(a.at("ballot"));
    string path = a.at("path"), n = a.at("n");
    bool verify = a.at("verify");
    json r;
    if (path == "med") {
        auto &b = c.put(n, e.mediators.at(a.at("md"))->encrypt(*plain, verify));
        plain.reset();
        r["d"] = dumpCipher(b);
    } else if (path == "direct") {
        auto seed = mkQ(a.at("seed"));
        auto b = encryptBallot(*plain, *e.internal, *e.context, *seed, optNonce(a.at("nonce")), u64(a.at("ts")), verify);
        plain.reset();
        seed.reset();
        r["d"] = dumpCipher(c.put(n, std::move(b)));
    } else if (path == "medc") {
        r["k"] = dumpCompact(c.put(n, e.mediators.at(a.at("md"))->compactEncrypt(*plain, verify)));
    } else if (path == "compact") {
        auto seed = mkQ(a.at("seed"));
        r["k"] = dumpCompact(c.put(n, encryptCompactBallot(*plain, *e.internal, *e.context, *seed, optNonce(a.at("nonce")), u64(a.at("ts")), verify)));
    } else
        throw std::logic_error("path");
    return r;
}
// the contest of the given identifier with its placeholders
ContestDescriptionWithPlaceholders &contestOf(Election &e, const string &id)
{
    for (auto &w : e.internal->getContests())
        if (w.get().getObjectId() == id) return w.get();
    throw std::logic_error("no contest " + id);
}
OP(b_contest)
{
    auto &e = theElection(c);
    auto plain = mkPlainContest(a.at("contest"));
    auto ns = mkQ(a.at("ns"));
    auto r = encryptContest(*plain, *e.internal, contestOf(e, a.at("of")), *e.context->getElGamalPublicKey(), *e.context->getCryptoExtendedBaseHash(),
                            *ns, a.at("verify").get<bool>());
    plain.reset();
    ns.reset();
    json d = {{"d", dumpCipherContest(*r)}};
    d["v"] = r->isValidEncryption(*r->getDescriptionHash(), *e.context->getElGamalPublicKey(), *e.context->getCryptoExtendedBaseHash());
    return d;
}
OP(b_sel)
{
    auto &e = theElection(c);
    auto &x = contestOf(e, a.at("of"));
    string want = a.at("sel");
    auto &s = a.at("selection");
    auto plain = make_unique<PlaintextBallotSelection>(s.at("id").get<string>(), voteIn(s.at("vote")), s.at("ph").get<bool>(), s.at("wi").get<string>());
    auto ns = mkQ(a.at("ns"));
    auto r = encryptSelection(*plain, x.selectionFor(want).get(), *e.context->getElGamalPublicKey(), *e.context->getCryptoExtendedBaseHash(), *ns,
                              a.at("isph").get<bool>(), a.at("verify").get<bool>());
    plain.reset();
    ns.reset();
    json d = {{"d", dumpCipherSel(*r)}};
    d["v"] = r->isValidEncryption(*r->getDescriptionHash(), *e.context->getElGamalPublicKey(), *e.context->getCryptoExtendedBaseHash());
    return d;
}
// the plaintext contest's own verdict
OP(b_plainok)
{
    auto plain = mkPlainContest(a.at("contest"));
    auto v = plain->isValid(a.at("id").get<string>(), u64(a.at("ns")), u64(a.at("ne")), u64(a.at("va")), a.at("sup").get<bool>());
    json sv = json::array();
    for (auto &s : plain->getSelections()) sv.push_back(s.get().isValid(a.at("sid").get<string>()));
    return {{"v", (int)v}, {"sv", sv}};
}

// ---- verification
static json verdict(const std::function<bool()> &f)
{
    try {
        return f() ? "true" : "false";
    } catch (const std::exception &) {
        return "refused";
    }
}
static json allVerdicts(CiphertextBallot &b, const ElementModQ &mh, const ElementModP &pk, const ElementModQ &xb)
{
    json cv = json::array(), sv = json::array();
    for (auto &w : b.getContests()) {
        cv.push_back(verdict([&] { return w.get().isValidEncryption(*w.get().getDescriptionHash(), pk, xb); }));
        json s = json::array();
        for (auto &x : w.get().getSelections()) s.push_back(verdict([&] { return x.get().isValidEncryption(*x.get().getDescriptionHash(), pk, xb); }));
        sv.push_back(s);
    }
    return {{"v", verdict([&] { return b.isValidEncryption(mh, pk, xb); })}, {"cv", cv}, {"sv", sv}};
}
CiphertextBallot &anyBallot(Ctx &c, const string &n)
{
    if (c.has<SubmittedBallot>(n)) return c.get<SubmittedBallot>(n);
    return c.get<CiphertextBallot>(n);
}
// verification under given (possibly wrong) parameters; an empty list means the election's own
OP(b_valid)
{
    auto &e = theElection(c);
    auto &b = anyBallot(c, a.at("n"));
    auto mh = a.at("mh").empty() ? make_unique<ElementModQ>(*e.internal->getManifestHash()) : mkQ(a.at("mh")[0]);
    auto pk = a.at("pk").empty() ? make_unique<ElementModP>(*e.context->getElGamalPublicKey()) : mkP(a.at("pk")[0]);
    auto xb = a.at("xb").empty() ? make_unique<ElementModQ>(*e.context->getCryptoExtendedBaseHash()) : mkQ(a.at("xb")[0]);
    return allVerdicts(b, *mh, *pk, *xb);
}
// contests and selections verified against given description hashes
OP(b_validdh)
{
    auto &e = theElection(c);
    auto &b = anyBallot(c, a.at("n"));
    auto dh = mkQ(a.at("dh"));
    json cv = json::array(), sv = json::array();
    for (auto &w : b.getContests()) {
        cv.push_back(verdict([&] { return w.get().isValidEncryption(*dh, *e.context->getElGamalPublicKey(), *e.context->getCryptoExtendedBaseHash()); }));
        json s = json::array();
        for (auto &x : w.get().getSelections())
            s.push_back(verdict([&] { return x.get().isValidEncryption(*dh, *e.context->getElGamalPublicKey(), *e.context->getCryptoExtendedBaseHash()); }));
        sv.push_back(s);
    }
    return {{"cv", cv}, {"sv", sv}};
}
static string numAdd(const string &hex, int by, size_t n)
{
    auto v = hexLimbs(hex, n);
    unsigned __int128 carry = (unsigned)by;
    for (size_t i = 0; i < n && carry; i++) {
        carry += v[i];
        v[i] = (uint64_t)carry;
        carry >>= 64;
    }
    return limbsHex(v.data(), n);
}
static string negP(const string &hex)
{
    auto v = hexLimbs(hex, 64);
    vector<uint64_t> r(64);
    unsigned __int128 borrow = 0;
    for (size_t i = 0; i < 64; i++) {
        unsigned __int128 x = (unsigned __int128)P().get()[i] - v[i] - borrow;
        r[i] = (uint64_t)x;
        borrow = (x >> 64) ? 1 : 0;
    }
    return limbsHex(r.data(), 64);
}
// recompute hashes and accumulations, so that only the proofs can tell
static unique_ptr<CiphertextBallot> rehash(json j)
{
    for (auto &cj : j["contests"]) {
        auto b = CiphertextBallot::fromJson(j.dump());
        size_t i = &cj - &j["contests"][0];
        auto cs = b->getContests();
        for (auto &w : cs) {
            if (w.get().getObjectId() != cj["object_id"].get<string>()) continue;
            auto ss = w.get().getSelections();
            for (auto &sj : cj["ballot_selections"])
                for (auto &s : ss)
                    if (s.get().getObjectId() == sj["object_id"].get<string>())
                        sj["crypto_hash"] = hexQ(*s.get().crypto_hash_with(*s.get().getDescriptionHash()));
            auto acc = w.get().elgamalAccumulate();
            cj["ciphertext_accumulation"] = {{"pad", hexP(*acc->getPad())}, {"data", hexP(*acc->getData())}};
        }
        (void)i;
    }
    {
        auto b = CiphertextBallot::fromJson(j.dump());
        for (auto &cj : j["contests"])
            for (auto &w : b->getContests())
                if (w.get().getObjectId() == cj["object_id"].get<string>())
                    cj["crypto_hash"] = hexQ(*w.get().crypto_hash_with(*w.get().getDescriptionHash()));
    }
    {
        auto b = CiphertextBallot::fromJson(j.dump());
        j["crypto_hash"] = hexQ(*b->crypto_hash_with(*b->getManifestHash()));
    }
    return CiphertextBallot::fromJson(j.dump());
}
static void edit(json &j, const json &edits)
{
    for (auto &ed : edits) {
        json::json_pointer p(ed.at("p").get<string>());
        string k = ed.at("k");
        if (k == "set") j.at(p) = ed.at("v");
        else if (k == "num") j.at(p) = u64(ed.at("v"));
        else if (k == "truth") j.at(p) = u64(ed.at("v")) != 0;
        else if (k == "add") {
            string was = j.at(p).get<string>();
            j.at(p) = numAdd(was, (int)u64(ed.at("v")), was.size() > 64 ? 64 : 4);
        } else if (k == "copy")
            j.at(p) = json(j.at(json::json_pointer(ed.at("from").get<string>())));
        else if (k == "swap") {
            json t = j.at(p);
            json::json_pointer o(ed.at("from").get<string>());
            j.at(p) = json(j.at(o));
            j.at(o) = t;
        } else if (k == "neg") { // P - x or Q - x
            string was = j.at(p).get<string>();
            if (was.size() > 64) j.at(p) = negP(was);
            else
                j.at(p) = hexQ(*sub_from_q(*mkQ(was)));
        } else if (k == "dup")
            j.at(p).push_back(json(j.at(json::json_pointer(ed.at("from").get<string>()))));
        else if (k == "drop")
            j.at(p.parent_pointer()).erase(std::stoul(p.back()));
        else
            throw std::logic_error("edit " + k);
    }
}
OP(b_edit)
{
    json j = json::parse(c.get<CiphertextBallot>(a.at("n")).toJson(true));
    edit(j, a.at("edits"));
    return {{"d", dumpCipher(c.put(a.at("to"), CiphertextBallot::fromJson(j.dump())))}};
}
OP(b_tamper)
{
    auto &e = theElection(c);
    json j = json::parse(anyBallot(c, a.at("n")).toJson());
    edit(j, a.at("edits"));
    unique_ptr<CiphertextBallot> b = a.at("rehash").get<bool>() ? rehash(j) : CiphertextBallot::fromJson(j.dump());
    json r = allVerdicts(*b, *e.internal->getManifestHash(), *e.context->getElGamalPublicKey(), *e.context->getCryptoExtendedBaseHash());
    r["d"] = dumpCipher(*b);
    return r;
}
// a ballot rebuilt from the contests of another, in the given order
OP(b_make)
{
    auto &b = anyBallot(c, a.at("n"));
    auto cs = b.getContests();
    vector<unique_ptr<CiphertextBallotContest>> v;
    for (auto &i : a.at("order")) v.push_back(make_unique<CiphertextBallotContest>(cs.at(i.get<size_t>() - 1).get()));
    auto seed = optNonce(a.at("seed"));
    auto code = optNonce(a.at("code"));
    auto &x = c.put(a.at("to"), CiphertextBallot::make(b.getObjectId(), b.getStyleId(), *b.getManifestHash(), std::move(v),
                                                       b.getNonce() ? make_unique<ElementModQ>(*b.getNonce()) : nullptr, u64(a.at("ts")), std::move(seed),
                                                       std::move(code)));
    return {{"d", dumpCipher(x)}};
}
OP(b_more)
{
    auto &b = c.get<CiphertextBallot>(a.at("n"));
    json cs = json::array();
    for (auto &w : b.getContests()) cs.push_back({{"agg", hexQ(*w.get().aggregateNonce())}, {"acc", cipherJ(*w.get().elgamalAccumulate())}});
    return {{"ns", hexQ(*b.nonceSeed())}, {"nss", hexQ(*CiphertextBallot::nonceSeed(*b.getManifestHash(), b.getObjectId(), *b.getNonce()))}, {"cs", cs}};
}
OP(b_code)
{
    auto p = mkQ(a.at("prev"));
    auto h = mkQ(a.at("h"));
    return {{"v", hexQ(*BallotCode::getBallotCode(*p, u64(a.at("ts")), *h))}};
}

// ---- copies and serialized forms
OP(b_copy)
{
    auto &b = c.get<CiphertextBallot>(a.at("n"));
    auto one = make_unique<CiphertextBallot>(b);
    auto two = make_unique<CiphertextBallot>(*one);
    json r = {{"one", dumpCipher(*one)}};
    one.reset();
    r["two"] = dumpCipher(*two);
    json parts = json::array(), sels = json::array(), ap = json::array(), as = json::array();
    // assigned over something else of the same kind: the next contest or option, a bare ballot
    auto contests = two->getContests();
    for (size_t i = 0; i < contests.size(); i++) {
        auto x = make_unique<CiphertextBallotContest>(contests[i].get());
        json ss = json::array(), sa = json::array();
        auto all = x->getSelections();
        for (size_t j = 0; j < all.size(); j++) {
            auto y = make_unique<CiphertextBallotSelection>(all[j].get());
            auto z = make_unique<CiphertextBallotSelection>(*y);
            y.reset();
            ss.push_back(dumpCipherSel(*z));
            sa.push_back(dumpCipherSel(*assigned(*z, all[(j + 1) % all.size()].get())));
        }
        sels.push_back(ss);
        as.push_back(sa);
        parts.push_back(dumpCipherContest(*x));
        ap.push_back(dumpCipherContest(*assigned(*x, contests[(i + 1) % contests.size()].get())));
    }
    CiphertextBallot bare("other", "other", ONE_MOD_Q(), make_unique<ElementModQ>(TWO_MOD_Q()), {}, make_unique<ElementModQ>(TWO_MOD_Q()), 7,
                          make_unique<ElementModQ>(TWO_MOD_Q()), make_unique<ElementModQ>(TWO_MOD_Q()));
    auto three = assigned(*two, bare);
    two.reset();
    r["asg"] = json::array({dumpCipher(*three), ap, as});
    r["contests"] = parts;
    r["sels"] = sels;
    r["after"] = dumpCipher(b);
    return r;
}
static unique_ptr<CiphertextBallot> tripC(const CiphertextBallot &b, const string &fmt, bool nonces)
{
    if (fmt == "bson") return CiphertextBallot::fromBson(b.toBson(nonces));
    if (fmt == "msgpack") return CiphertextBallot::fromMsgPack(b.toMsgPack(nonces));
    return CiphertextBallot::fromJson(b.toJson(nonces));
}
OP(b_trip)
{
    auto &e = theElection(c);
    auto &b = c.get<CiphertextBallot>(a.at("n"));
    auto &t = c.put(a.at("to"), tripC(b, a.at("fmt"), a.at("nonces").get<bool>()));
    json r = {{"d", dumpCipher(t)}};
    r["v"] = t.isValidEncryption(*e.internal->getManifestHash(), *e.context->getElGamalPublicKey(), *e.context->getCryptoExtendedBaseHash());
    return r;
}
OP(b_again)
{
    return {{"d", dumpCipher(*tripC(c.get<CiphertextBallot>(a.at("n")), a.at("fmt"), true))}};
}
void leaves(const json &j, std::set<string> &keys, std::set<string> &texts)
{
    if (j.is_object())
        for (auto it = j.begin(); it != j.end(); ++it) {
            keys.insert(it.key());
            leaves(it.value(), keys, texts);
        }
    else if (j.is_array()) {
        // a list of small numbers may be a byte string
        string bytes;
        bool b = !j.empty();
        for (auto &x : j) b = b && x.is_number_unsigned() && x.get<uint64_t>() < 256;
        if (b) {
            vector<uint8_t> v;
            for (auto &x : j) v.push_back((uint8_t)x.get<uint64_t>());
            texts.insert(bytesHex(v));
        }
        for (auto &x : j) leaves(x, keys, texts);
    } else if (j.is_string()) {
        string s = j.get<string>();
        for (auto &ch : s) ch = (char)toupper((unsigned char)ch);
        texts.insert(s);
    } else if (j.is_binary())
        texts.insert(bytesHex(j.get_binary()));
    else
        texts.insert(j.dump());
}
// everything a published form shows
OP(b_publish)
{
    string fmt = a.at("fmt"), kind = a.at("kind"), n = a.at("n");
    string text;
    vector<uint8_t> bytes;
    if (kind == "submitted") {
        auto &b = c.get<SubmittedBallot>(n);
        if (fmt == "bson") bytes = b.toBson();
        else if (fmt == "msgpack") bytes = b.toMsgPack();
        else
            text = b.toJson();
    } else {
        auto &b = c.get<CiphertextBallot>(n);
        bool w = kind == "complete";
        if (kind == "default") { // as an application would call it
            if (fmt == "bson") bytes = b.toBson();
            else if (fmt == "msgpack") bytes = b.toMsgPack();
            else
                text = b.toJson();
        } else {
            if (fmt == "bson") bytes = b.toBson(w);
            else if (fmt == "msgpack") bytes = b.toMsgPack(w);
            else
                text = b.toJson(w);
        }
    }
    json j = fmt == "bson" ? json::from_bson(bytes) : fmt == "msgpack" ? json::from_msgpack(bytes) : json::parse(text);
    std::set<string> keys, texts;
    leaves(j, keys, texts);
    return {{"keys", keys}, {"texts", texts}};
}
OP(b_submit)
{
    auto &b = c.get<CiphertextBallot>(a.at("n"));
    auto st = (BallotBoxState)a.at("state").get<int>();
    string route = a.at("route");
    unique_ptr<SubmittedBallot> s;
    if (route == "from") s = SubmittedBallot::from(b, st);
    else if (route == "ctor")
        s = make_unique<SubmittedBallot>(b, st);
    else {
        vector<unique_ptr<CiphertextBallotContest>> v;
        for (auto &w : b.getContests()) v.push_back(make_unique<CiphertextBallotContest>(w.get()));
        if (route == "make")
            s = SubmittedBallot::make(b.getObjectId(), b.getStyleId(), *b.getManifestHash(), std::move(v), make_unique<ElementModQ>(*b.getNonce()),
                                      b.getTimestamp(), make_unique<ElementModQ>(*b.getBallotCodeSeed()), make_unique<ElementModQ>(*b.getBallotCode()), st);
        else
            s = make_unique<SubmittedBallot>(b.getObjectId(), b.getStyleId(), *b.getManifestHash(), make_unique<ElementModQ>(*b.getBallotCodeSeed()),
                                             std::move(v), make_unique<ElementModQ>(*b.getBallotCode()), b.getTimestamp(),
                                             make_unique<ElementModQ>(*b.getNonce()), make_unique<ElementModQ>(*b.getCryptoHash()), st);
    }
    auto &x = c.put(a.at("to"), std::move(s));
    return {{"d", dumpCipher(x)}, {"state", (int)x.getState()}, {"after", dumpCipher(b)}};
}
OP(s_trip)
{
    auto &e = theElection(c);
    auto &t = c.put(a.at("to"), trip3(c.get<SubmittedBallot>(a.at("n")), a.at("fmt")));
    json r = {{"d", dumpCipher(t)}, {"state", (int)t.getState()}};
    r["v"] = t.isValidEncryption(*e.internal->getManifestHash(), *e.context->getElGamalPublicKey(), *e.context->getCryptoExtendedBaseHash());
    return r;
}
OP(st_names)
{
    return {{"name", getBallotBoxStateString((BallotBoxState)a.at("state").get<int>())}, {"back", (int)getBallotBoxState(a.at("text").get<string>())}};
}

// ---- plaintext ballots
OP(p_new)
{
    auto &b = c.put(a.at("n"), mkPlain(a.at("ballot")));
    return {{"d", dumpPlain(b)}};
}
OP(p_trip)
{
    auto &t = c.put(a.at("to"), trip3(c.get<PlaintextBallot>(a.at("n")), a.at("fmt")));
    return {{"d", dumpPlain(t)}};
}
OP(p_copy)
{
    auto &b = c.get<PlaintextBallot>(a.at("n"));
    auto one = make_unique<PlaintextBallot>(b);
    PlaintextBallot two(*one);
    json r = {{"one", dumpPlain(*one)}};
    one.reset();
    r["two"] = dumpPlain(two);
    json cs = json::array(), cm = json::array(), ap = json::array(), as = json::array();
    auto contests = two.getContests();
    for (size_t i = 0; i < contests.size(); i++) {
        auto x = make_unique<PlaintextBallotContest>(contests[i].get());
        ap.push_back(plainContest(*assigned(*x, contests[(i + 1) % contests.size()].get())));
        json ss = json::array(), sa = json::array();
        auto all = x->getSelections();
        for (size_t j = 0; j < all.size(); j++) {
            auto y = make_unique<PlaintextBallotSelection>(all[j].get());
            auto z = y->clone();
            sa.push_back(plainSel(*assigned(*y, all[(j + 1) % all.size()].get())));
            y.reset();
            PlaintextBallotSelection m(std::move(*z));
            ss.push_back(plainSel(m));
        }
        cs.push_back(ss);
        as.push_back(sa);
        PlaintextBallotContest m(std::move(*x));
        cm.push_back(plainContest(m));
    }
    r["sels"] = cs;
    r["contests"] = cm;
    r["asg"] = json::array({dumpPlain(*assigned(two, PlaintextBallot("other", "other", {}))), ap, as});
    r["after"] = dumpPlain(b);
    return r;
}
// compact plaintext of an existing plaintext register; expansion
OP(kp_make)
{
    auto &k = c.put(a.at("to"), CompactPlaintextBallot::make(c.get<PlaintextBallot>(a.at("n"))));
    return {{"d", dumpCompactPlain(k)}};
}
OP(kp_new)
{
    auto &d = a.at("d");
    vector<uint64_t> votes;
    for (auto &x : d.at("votes")) votes.push_back(voteIn(x));
    auto &k = c.put(a.at("to"), make_unique<CompactPlaintextBallot>(d.at("id").get<string>(), d.at("style").get<string>(), votes, d.at("wi").get<vector<string>>()));
    return {{"d", dumpCompactPlain(k)}};
}
OP(kp_trip)
{
    auto &t = c.put(a.at("to"), trip3(c.get<CompactPlaintextBallot>(a.at("n")), a.at("fmt")));
    return {{"d", dumpCompactPlain(t)}};
}
OP(kp_expand)
{
    auto &e = theElection(c);
    auto &p = c.put(a.at("to"), expandCompactPlaintextBallot(c.get<CompactPlaintextBallot>(a.at("n")), *e.internal));
    return {{"d", dumpPlain(p)}};
}
// compact ciphertext
OP(k_make)
{
    auto plain = mkPlain(a.at("ballot"));
    auto &k = c.put(a.at("to"), CompactCiphertextBallot::make(*plain, c.get<CiphertextBallot>(a.at("n"))));
    return {{"k", dumpCompact(k)}};
}
OP(k_trip)
{
    auto &k = c.get<CompactCiphertextBallot>(a.at("n"));
    if (a.at("state").get<int>() != 0) k.setBallotBoxState((BallotBoxState)a.at("state").get<int>());
    auto &t = c.put(a.at("to"), trip3(k, a.at("fmt")));
    return {{"k", dumpCompact(t)}};
}
// a compact ballot made of given parts
OP(k_alter)
{
    auto &k = a.at("k");
    auto &d = k.at("plain");
    vector<uint64_t> votes;
    for (auto &x : d.at("votes")) votes.push_back(voteIn(x));
    auto &b = c.put(a.at("to"), make_unique<CompactCiphertextBallot>(
                                  make_unique<CompactPlaintextBallot>(d.at("id").get<string>(), d.at("style").get<string>(), votes, d.at("wi").get<vector<string>>()),
                                  (BallotBoxState)k.at("state").get<int>(), mkQ(k.at("seed")), mkQ(k.at("code")), u64(k.at("ts")), mkQ(k.at("nonce")[0])));
    return {{"k", dumpCompact(b)}};
}
// a compact ballot with one part replaced
OP(k_edit)
{
    auto &k = c.get<CompactCiphertextBallot>(a.at("n"));
    string part = a.at("part");
    auto plain = k.getPlaintext();
    auto votes = plain->getSelections();
    auto wis = plain->getWriteIns();
    size_t i = a.at("i").get<size_t>() - 1;
    if (part == "vote") votes.at(i) = votes.at(i) == 0 ? 1 : 0;
    if (part == "wi") wis.at(i) += "x";
    auto q = [&](const char *name, const ElementModQ &x) { return part == name ? add_mod_q(x, ONE_MOD_Q()) : x.clone(); };
    auto &b = c.put(a.at("to"), make_unique<CompactCiphertextBallot>(
                                  make_unique<CompactPlaintextBallot>(plain->getObjectId() + (part == "id" ? "x" : ""), plain->getStyleId(), votes, wis),
                                  (BallotBoxState)a.at("state").get<int>(), q("seed", *k.getBallotCodeSeed()), q("code", *k.getBallotCode()),
                                  k.getTimestamp() + (part == "ts" ? 1 : 0), q("nonce", *k.getNonce())));
    return {{"k", dumpCompact(b)}};
}
OP(k_expand)
{
    auto &e = theElection(c);
    auto &b = c.put(a.at("to"), expandCompactCiphertextBallot(c.get<CompactCiphertextBallot>(a.at("n")), *e.internal, *e.context));
    json r = {{"d", dumpCipher(b)}};
    r["v"] = b.isValidEncryption(*e.internal->getManifestHash(), *e.context->getElGamalPublicKey(), *e.context->getCryptoExtendedBaseHash());
    return r;
}

// ---- input that is not in the format
static void memberPaths(const json &j, string at, vector<string> &out)
{
    if (j.is_object())
        for (auto it = j.begin(); it != j.end(); ++it) {
            out.push_back(at + "/" + it.key());
            memberPaths(it.value(), out.back(), out);
        }
    else if (j.is_array())
        for (size_t i = 0; i < j.size(); i++) memberPaths(j[i], at + "/" + dec(i), out);
}
void garble(string &text, vector<uint8_t> &bytes, const json &a)
{
    string fmt = a.at("fmt"), how = a.at("how");
    size_t len = fmt == "json" ? text.size() : bytes.size();
    size_t at = (size_t)((double)a.at("at").get<int>() / 1000.0 * (double)len);
    if (at >= len) at = len - 1;
    if (how == "cut") {
        text.resize(std::min(text.size(), at));
        bytes.resize(std::min(bytes.size(), at));
    } else if (how == "flip") {
        if (fmt == "json") text[at] = (char)(text[at] ^ (1 << a.at("bit").get<int>()));
        else
            bytes[at] ^= (uint8_t)(1 << a.at("bit").get<int>());
    } else if (how == "lack" || how == "type") { // one member missing, or of another type
        json j = fmt == "bson" ? json::from_bson(bytes) : fmt == "msgpack" ? json::from_msgpack(bytes) : json::parse(text);
        vector<string> paths;
        memberPaths(j, "", paths);
        json::json_pointer p(paths.at((size_t)((double)a.at("at").get<int>() / 1000.0 * (double)paths.size())));
        if (how == "lack") j.at(p.parent_pointer()).erase(p.back());
        else
            j.at(p) = a.at("bit").get<int>() == 0 ? json(nullptr) : a.at("bit").get<int>() == 1 ? json(-7) : a.at("bit").get<int>() == 2 ? json("text") :
                      a.at("bit").get<int>() == 3 ? json::array() : a.at("bit").get<int>() == 4 ? json::object() : a.at("bit").get<int>() == 5 ? json(true) : json(1.5);
        if (fmt == "bson") bytes = json::to_bson(j);
        else if (fmt == "msgpack") bytes = json::to_msgpack(j);
        else
            text = j.dump();
    } else if (how == "junk") {
        text = a.at("text").get<string>();
        bytes.assign(text.begin(), text.end());
    }
}
template <typename T> static json garbled(const T &x, const json &a)
{
    string fmt = a.at("fmt");
    string text;
    vector<uint8_t> bytes;
    if (fmt == "bson") bytes = x.toBson();
    else if (fmt == "msgpack") bytes = x.toMsgPack();
    else
        text = x.toJson();
    garble(text, bytes, a);
    read3<T>(fmt, text, bytes);
    return json::object();
}
OP(g_read)
{
    string type = a.at("type"), n = a.at("n");
    auto &e = theElection(c);
    if (type == "plain") return garbled(c.get<PlaintextBallot>(n), a);
    if (type == "cipher") return garbled(c.get<CiphertextBallot>(n), a);
    if (type == "submitted") return garbled(c.get<SubmittedBallot>(n), a);
    if (type == "compact") return garbled(c.get<CompactCiphertextBallot>(n), a);
    if (type == "compactplain") return garbled(c.get<CompactPlaintextBallot>(n), a);
    if (type == "manifest") return garbled(*e.manifest, a);
    if (type == "internal") return garbled(*e.internal, a);
    throw std::logic_error("type");
}
