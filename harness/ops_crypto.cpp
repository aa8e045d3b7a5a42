// Hashing, nonces, ElGamal, proofs and hashed ElGamal (P04, P05, P09, P10, P15, P16).
#include "core.hpp"
#include <electionguard/chaum_pedersen.hpp>
#include <electionguard/elgamal.hpp>
#include <electionguard/hash.hpp>
#include <electionguard/precompute_buffers.hpp>
#include <nonces.hpp>

using namespace electionguard;
using std::reference_wrapper;

// the same value obtained in different ways
static unique_ptr<ElementModQ> waysQ(const string &v, const string &b)
{
    if (b == "hex") return ElementModQ::fromHex(v, true);
    if (b == "copy") {
        auto e = mkQ(v);
        e->toHex();
        return std::make_unique<ElementModQ>(*e);
    }
    if (b == "assign") {
        auto e = mkQ("07"), f = mkQ(v);
        e->toHex();
        *e = *f;
        return e;
    }
    if (b == "clone") return mkQ(v)->clone();
    if (b == "calc") return add_mod_q(*mkQ(v), *mkQ("00"));
    if (b == "cached") {
        auto e = mkQ(v);
        e->toHex();
        return e;
    }
    return mkQ(v);
}
static unique_ptr<ElementModP> waysP(const string &v, const string &b)
{
    if (b == "hex") return ElementModP::fromHex(v, true);
    if (b == "copy") {
        auto e = mkP(v);
        e->toHex();
        return std::make_unique<ElementModP>(*e);
    }
    if (b == "assign") {
        auto e = mkP("07"), f = mkP(v);
        e->toHex();
        *e = *f;
        return e;
    }
    if (b == "clone") return mkP(v)->clone();
    if (b == "calc") return mul_mod_p(*mkP(v), *mkP("01"));
    if (b == "cached") {
        auto e = mkP(v);
        e->toHex();
        return e;
    }
    if (b == "fixed") return mkP(v, true);
    return mkP(v);
}

struct Keep { // owns what the items point to
    vector<unique_ptr<ElementModP>> p;
    vector<unique_ptr<ElementModQ>> q;
    vector<unique_ptr<ElGamalCiphertext>> h;
};
static ElGamalCiphertext *mkH(Keep &k, const json &v)
{
    k.h.push_back(std::make_unique<ElGamalCiphertext>(mkP(v.at(0)), mkP(v.at(1))));
    return k.h.back().get();
}
static CryptoHashableType item(Keep &k, const json &it)
{
    string t = it.at("t"), w = it.value("w", "ptr"), b = it.value("b", "");
    if (t == "null") return nullptr;
    if (t == "u64") return (uint64_t)u64(it.at("v"));
    if (t == "str") return it.at("v").get<string>();
    if (t == "bytes") return hexBytes(it.at("v"));
    if (t == "p") {
        k.p.push_back(waysP(it.at("v"), b));
        ElementModP *e = k.p.back().get();
        if (w == "ref") return std::ref(*e);
        if (w == "cref") return std::cref(*e);
        return e;
    }
    if (t == "q") {
        k.q.push_back(waysQ(it.at("v"), b));
        ElementModQ *e = k.q.back().get();
        if (w == "ref") return std::ref(*e);
        if (w == "cref") return std::cref(*e);
        return e;
    }
    if (t == "h") {
        CryptoHashable *e = mkH(k, it.at("v"));
        if (w == "ref") return std::ref(*e);
        if (w == "cref") return std::cref(*static_cast<const CryptoHashable *>(e));
        return e;
    }
    if (t == "vu64") {
        vector<uint64_t> v;
        for (auto &x : it.at("v")) v.push_back(u64(x));
        return v;
    }
    if (t == "vstr") return it.at("v").get<vector<string>>();
    auto list = [&](auto make, auto *type) -> CryptoHashableType {
        typedef std::remove_pointer_t<decltype(type)> T;
        vector<T *> raw;
        for (auto &x : it.at("v")) raw.push_back(make(x));
        if (w == "ref") {
            vector<reference_wrapper<T>> v;
            for (auto *e : raw) v.push_back(*e);
            return v;
        }
        if (w == "cref") {
            vector<reference_wrapper<const T>> v;
            for (auto *e : raw) v.push_back(*e);
            return v;
        }
        return raw;
    };
    if (t == "vp")
        return list([&](const json &x) { k.p.push_back(waysP(x, b)); return k.p.back().get(); }, (ElementModP *)0);
    if (t == "vq")
        return list([&](const json &x) { k.q.push_back(waysQ(x, b)); return k.q.back().get(); }, (ElementModQ *)0);
    if (t == "vh")
        return list([&](const json &x) -> CryptoHashable * { return mkH(k, x); }, (CryptoHashable *)0);
    throw std::logic_error("unknown item " + t);
}

OP(hash)
{
    Keep k;
    vector<CryptoHashableType> v;
    for (auto &it : a.at("items")) v.push_back(item(k, it));
    json r = {{"v", hexQ(*hash_elems(v))}, {"again", hexQ(*hash_elems(v))}};
    if (v.size() == 1) r["one"] = json::array({hexQ(*hash_elems(v[0]))});
    else r["one"] = json::array();
    return r;
}

OP(n_new)
{
    auto seed = mkQ(a.at("seed"));
    json h = a.at("hdr");
    if (h.empty()) {
        c.put(a.at("n").get<string>(), std::make_unique<Nonces>(*seed));
    } else {
        string t = h.at(0).at("t");
        if (t == "str")
            c.put(a.at("n").get<string>(), std::make_unique<Nonces>(*seed, h.at(0).at("v").get<string>()));
        else if (t == "p") {
            auto e = mkP(h.at(0).at("v"));
            c.put(a.at("n").get<string>(), std::make_unique<Nonces>(*seed, e.get()));
        } else {
            auto e = mkQ(h.at(0).at("v"));
            c.put(a.at("n").get<string>(), std::make_unique<Nonces>(*seed, e.get()));
        }
    }
    return json::object();
}
OP(n_get) { return {{"v", hexQ(*c.get<Nonces>(a.at("n")).get((uint64_t)u64(a.at("i"))))}}; }
OP(n_hdr) { return {{"v", hexQ(*c.get<Nonces>(a.at("n")).get((uint64_t)u64(a.at("i")), a.at("h").get<string>()))}}; }
OP(n_next) { return {{"v", hexQ(*c.get<Nonces>(a.at("n")).next())}}; }
OP(n_list)
{
    json v = json::array();
    for (auto &e : c.get<Nonces>(a.at("n")).get((uint64_t)u64(a.at("i")), (uint64_t)u64(a.at("k")))) v.push_back(hexQ(*e));
    return {{"v", v}};
}

// ---- ElGamal
static json cj(const ElGamalCiphertext &x) { return json::array({hexP(*x.getPad()), hexP(*x.getData())}); }
static unique_ptr<ElGamalCiphertext> mkC(const json &v)
{
    return std::make_unique<ElGamalCiphertext>(mkP(v.at(0)), mkP(v.at(1)));
}
OP(keypair)
{
    auto kp = ElGamalKeyPair::fromSecret(*mkQ(a.at("s")), a.value("fixed", true));
    json r = {{"s", hexQ(*kp->getSecretKey())}, {"k", hexP(*kp->getPublicKey())}};
    ElGamalKeyPair copy(*kp);
    r["copy"] = json::array({hexQ(*copy.getSecretKey()), hexP(*copy.getPublicKey())});
    auto asg = assigned(*kp, *ElGamalKeyPair::fromSecret(TWO_MOD_Q()));
    r["asg"] = json::array({hexQ(*asg->getSecretKey()), hexP(*asg->getPublicKey())});
    r["after"] = kp->getSecretKey() && kp->getPublicKey()
                   ? json::array({hexQ(*kp->getSecretKey()), hexP(*kp->getPublicKey())}) : json::array();
    return r;
}
OP(eg_encrypt)
{
    auto x = elgamalEncrypt(u64(a.at("m")), *mkQ(a.at("n")), *mkP(a.at("k"), a.value("fixed", false)));
    return {{"c", cj(*x)}, {"h", hexQ(*x->crypto_hash())}};
}
OP(eg_pre)
{
    auto g = mkP(a.at("g")), k = mkP(a.at("kr"));
    auto x = elgamalEncrypt_with_precomputed(u64(a.at("m")), *g, *k);
    return {{"c", cj(*x)}, {"g", hexP(*g)}, {"kr", hexP(*k)}};
}
OP(eg_decrypt)
{
    uint64_t v = mkC(a.at("c"))->decrypt(*mkQ(a.at("s")));
    return {{"v", v == UINT64_MAX ? string("none") : dec(v)}};
}
OP(eg_add)
{
    vector<unique_ptr<ElGamalCiphertext>> own;
    vector<reference_wrapper<ElGamalCiphertext>> v;
    for (auto &x : a.at("cs")) own.push_back(mkC(x));
    for (auto &x : own) v.push_back(*x);
    auto sum = elgamalAdd(v);
    json after = json::array();
    for (auto &x : own) after.push_back(cj(*x));
    return {{"c", cj(*sum)}, {"after", after}};
}
OP(eg_copy) // copies, clones, comparison
{
    auto x = mkC(a.at("c")), y = mkC(a.at("d"));
    ElGamalCiphertext cp(*x);
    auto cl = x->clone();
    json r = {{"copy", cj(cp)}, {"clone", cj(*cl)}, {"eq", *x == *y}, {"ne", *x != *y}, {"eqc", *x == *cl}};
    auto mk = ElGamalCiphertext::make(*x->getPad(), *x->getData());
    r["made"] = cj(*mk);
    cp = *y;
    r["assigned"] = cj(cp);
    x.reset();
    r["later"] = cj(*cl);
    return r;
}

// ---- proofs
static json dj(const DisjunctiveChaumPedersenProof &p)
{
    return {{"a0", hexP(*p.getProofZeroPad())}, {"b0", hexP(*p.getProofZeroData())},
            {"a1", hexP(*p.getProofOnePad())}, {"b1", hexP(*p.getProofOneData())},
            {"c0", hexQ(*p.getProofZeroChallenge())}, {"c1", hexQ(*p.getProofOneChallenge())},
            {"c", hexQ(*p.getChallenge())}, {"v0", hexQ(*p.getProofZeroResponse())},
            {"v1", hexQ(*p.getProofOneResponse())}};
}
static json cc(const ConstantChaumPedersenProof &p)
{
    return {{"a", hexP(*p.getPad())}, {"b", hexP(*p.getData())}, {"c", hexQ(*p.getChallenge())},
            {"v", hexQ(*p.getResponse())}, {"k", dec(p.getConstant())}};
}
static unique_ptr<DisjunctiveChaumPedersenProof> mkDj(const json &p)
{
    return std::make_unique<DisjunctiveChaumPedersenProof>(
      mkP(p.at("a0")), mkP(p.at("b0")), mkP(p.at("a1")), mkP(p.at("b1")), mkQ(p.at("c0")), mkQ(p.at("c1")),
      mkQ(p.at("c")), mkQ(p.at("v0")), mkQ(p.at("v1")));
}
OP(dj_make)
{
    auto m = mkC(a.at("c"));
    auto r = mkQ(a.at("n")), hdr = mkQ(a.at("h"));
    auto k = mkP(a.at("k"), a.value("fixed", false));
    string mode = a.at("mode");
    uint64_t pt = u64(a.at("m"));
    auto go = [&]() {
        if (mode == "seed") return DisjunctiveChaumPedersenProof::make(*m, *r, *k, *hdr, *mkQ(a.at("seed")), pt);
        if (mode == "pre") {
            // values as the buffers make them: two triples and a quadruple under the key
            auto t1 = std::make_unique<Triple>(mkQ(a.at("n")), g_pow_p(*r), pow_mod_p(*k, *r));
            auto u = mkQ(a.at("u")), v = mkQ(a.at("v")), w = mkQ(a.at("w"));
            auto t2 = std::make_unique<Triple>(mkQ(a.at("u")), g_pow_p(*u), pow_mod_p(*k, *u));
            auto q = std::make_unique<Quadruple>(mkQ(a.at("v")), mkQ(a.at("w")), g_pow_p(*v),
                                                 mul_mod_p(*g_pow_p(*w), *pow_mod_p(*k, *v)));
            return DisjunctiveChaumPedersenProof::make_with_precomputed(
              *m, std::make_unique<TwoTriplesAndAQuadruple>(std::move(t1), std::move(t2), std::move(q)), *hdr, pt);
        }
        return DisjunctiveChaumPedersenProof::make(*m, *r, *k, *hdr, pt);
    };
    auto p = go();
    json res = {{"p", dj(*p)}, {"valid", p->isValid(*m, *k, *hdr)}};
    res["again"] = dj(*go());
    DisjunctiveChaumPedersenProof cp(*p);
    res["copy"] = dj(cp);
    DisjunctiveChaumPedersenProof zeros(make_unique<ElementModP>(ZERO_MOD_P()), make_unique<ElementModP>(ZERO_MOD_P()), make_unique<ElementModP>(ZERO_MOD_P()),
                                        make_unique<ElementModP>(ZERO_MOD_P()), make_unique<ElementModQ>(ZERO_MOD_Q()), make_unique<ElementModQ>(ZERO_MOD_Q()),
                                        make_unique<ElementModQ>(ZERO_MOD_Q()), make_unique<ElementModQ>(ZERO_MOD_Q()), make_unique<ElementModQ>(ZERO_MOD_Q()));
    res["asg"] = dj(*assigned(*p, zeros));
    res["clone"] = dj(*p->clone());
    return res;
}
OP(dj_valid) { return {{"v", mkDj(a.at("p"))->isValid(*mkC(a.at("c")), *mkP(a.at("k"), a.value("fixed", false)), *mkQ(a.at("h")))}}; }
OP(cc_make)
{
    auto m = mkC(a.at("c"));
    auto k = mkP(a.at("k"), a.value("fixed", false));
    auto hdr = mkQ(a.at("h"));
    auto go = [&]() {
        return ConstantChaumPedersenProof::make(*m, *mkQ(a.at("n")), *k, *mkQ(a.at("seed")), *hdr, u64(a.at("l")));
    };
    auto p = go();
    json res = {{"p", cc(*p)}, {"valid", p->isValid(*m, *k, *hdr)}, {"again", cc(*go())}};
    ConstantChaumPedersenProof cp(*p);
    res["copy"] = cc(cp);
    ConstantChaumPedersenProof zeros(make_unique<ElementModP>(ZERO_MOD_P()), make_unique<ElementModP>(ZERO_MOD_P()), make_unique<ElementModQ>(ZERO_MOD_Q()),
                                     make_unique<ElementModQ>(ZERO_MOD_Q()), 7);
    res["asg"] = cc(*assigned(*p, zeros));
    return res;
}
OP(cc_valid)
{
    auto &p = a.at("p");
    ConstantChaumPedersenProof x(mkP(p.at("a")), mkP(p.at("b")), mkQ(p.at("c")), mkQ(p.at("v")), u64(p.at("k")));
    return {{"v", x.isValid(*mkC(a.at("c")), *mkP(a.at("k"), a.value("fixed", false)), *mkQ(a.at("h")))}};
}

// ---- hashed ElGamal
static json hj(const HashedElGamalCiphertext &x)
{
    return {{"pad", hexP(*x.getPad())}, {"data", bytesHex(x.getData())}, {"mac", bytesHex(x.getMac())}};
}
static unique_ptr<HashedElGamalCiphertext> mkHe(const json &x)
{
    return std::make_unique<HashedElGamalCiphertext>(mkP(x.at("pad")), hexBytes(x.at("data")), hexBytes(x.at("mac")));
}
OP(he_encrypt)
{
    auto x = hashedElgamalEncrypt(hexBytes(a.at("msg")), *mkQ(a.at("n")), *mkP(a.at("k"), a.value("fixed", false)),
                                  *mkQ(a.at("seed")), (padded_data_size_t)a.at("max").get<int>(), a.at("trunc").get<bool>());
    json r = {{"x", hj(*x)}, {"h", hexQ(*x->crypto_hash())}, {"clone", hj(*x->clone())}};
    HashedElGamalCiphertext cp(*x);
    r["copy"] = hj(cp);
    r["asg"] = hj(*assigned(*x, HashedElGamalCiphertext(make_unique<ElementModP>(ONE_MOD_P()), {1, 2}, {3})));
    return r;
}
OP(he_decrypt)
{
    auto x = mkHe(a.at("x"));
    return {{"v", bytesHex(x->decrypt(*mkQ(a.at("s")), *mkQ(a.at("seed")), a.at("look").get<bool>()))}};
}
OP(he_cmp)
{
    auto x = mkHe(a.at("x")), y = mkHe(a.at("y"));
    return {{"eq", *x == *y}, {"ne", *x != *y}, {"h", hexQ(*x->crypto_hash())}};
}
