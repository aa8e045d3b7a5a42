// Elements, hashing, ElGamal, proofs, lists and buffers through the C interface (P21).
#include "capi.hpp"
using namespace electionguard;

static string R(St (*fn)(eg_element_mod_p_t **))
{
    eg_element_mod_p_t *e = nullptr;
    C(fn(&e));
    return cP(e);
}
static string R(St (*fn)(eg_element_mod_q_t **))
{
    eg_element_mod_q_t *e = nullptr;
    C(fn(&e));
    return cQ(e);
}
OPC(constants)
{
    // the published description of the constants names the same numbers
    char *d = nullptr;
    uint64_t n = 0;
    C(eg_constant_to_json(&d, &n));
    json j = json::parse(string(d));
    if (n != strlen(d) + 1) throw std::runtime_error("length of the text");
    C(eg_free_int_ptr(d));
    json r = {{"P", R(eg_element_mod_p_constant_p)}, {"Q", R(eg_element_mod_q_constant_q)}, {"G", R(eg_element_mod_p_constant_g)},
              {"R", R(eg_element_mod_p_constant_r)}, {"p0", R(eg_element_mod_p_constant_zero_mod_p)}, {"p1", R(eg_element_mod_p_constant_one_mod_p)},
              {"p2", R(eg_element_mod_p_constant_two_mod_p)}, {"q0", R(eg_element_mod_q_constant_zero_mod_q)},
              {"q1", R(eg_element_mod_q_constant_one_mod_q)}, {"q2", R(eg_element_mod_q_constant_two_mod_q)}};
    auto up = [](string s) {
        for (auto &ch : s) ch = (char)toupper((unsigned char)ch);
        return s;
    };
    std::set<string> keys, texts;
    leaves(j, keys, texts);
    for (auto k : {"P", "Q", "G", "R"})
        if (!texts.count(up(r[k].get<string>()))) throw std::runtime_error(string("constant ") + k);
    return r;
}
OPC(rand)
{
    if (a.at("d") != "q") return ops()["rand"](a, c);
    json v = json::array();
    for (int i = 0, n = a.at("n"); i < n; i++) {
        H<eg_element_mod_q_t> e(eg_element_mod_q_free);
        C(eg_element_mod_q_rand_q_new(&e));
        v.push_back(cQ(e));
    }
    return {{"v", v}};
}
static json showP(eg_element_mod_p_t *e)
{
    return {{"v", cP(e)}, {"hex", cs(eg_element_mod_p_to_hex, e)}, {"hex2", cs(eg_element_mod_p_to_hex, e)},
            {"bytes", bytesHex(reinterpret_cast<ElementModP *>(e)->toBytes())}};
}
static json showQ(eg_element_mod_q_t *e)
{
    return {{"v", cQ(e)}, {"hex", cs(eg_element_mod_q_to_hex, e)}, {"hex2", cs(eg_element_mod_q_to_hex, e)},
            {"bytes", bytesHex(reinterpret_cast<ElementModQ *>(e)->toBytes())}};
}
OPC(conv)
{
    string how = a.at("how"), d = a.at("d");
    bool un = a.at("un");
    if (how == "array" && d == "p") {
        auto v = hexLimbs(a.at("x"), 64);
        H<eg_element_mod_p_t> e(eg_element_mod_p_free);
        C(un ? eg_element_mod_p_new_unchecked(v.data(), &e) : eg_element_mod_p_new(v.data(), &e));
        v.assign(64, 0);
        return showP(e);
    }
    if (how == "array" || (how == "hex" && d == "q" && a.at("x").get<string>().find('\0') == string::npos)) {
        H<eg_element_mod_q_t> e(eg_element_mod_q_free);
        if (how == "array") {
            auto v = hexLimbs(a.at("x"), 4);
            C(un ? eg_element_mod_q_new_unchecked(v.data(), &e) : eg_element_mod_q_new(v.data(), &e));
            v.assign(4, 0);
        } else
            C(un ? eg_element_mod_q_from_hex_unchecked(Txt(a.at("x")), &e) : eg_element_mod_q_from_hex(Txt(a.at("x")), &e));
        return showQ(e);
    }
    return ops()["conv"](a, c);
}
OPC(arith)
{
    if (a.at("f") != "pow_pq") return ops()["arith"](a, c);
    auto b = mkCP(a.at("x")[0]);
    auto e = mkCQ(a.at("x")[1]);
    H<eg_element_mod_p_t> r(eg_element_mod_p_free);
    C(eg_element_mod_q_pow_mod_p(b, e, &r));
    return {{"v", cP(r)}};
}
OPC(el_new)
{
    if (a.at("d") == "p") keep<ElementModP>(c, a.at("r0"), mkCP(a.at("x")));
    else
        keep<ElementModQ>(c, a.at("r0"), mkCQ(a.at("x")));
    return json::object();
}
OPC(el_show)
{
    if (a.at("d") == "p") return showP(ash<eg_element_mod_p_t>(c.get<ElementModP>(a.at("r0"))));
    return showQ(ash<eg_element_mod_q_t>(c.get<ElementModQ>(a.at("r0"))));
}
OPC(el_pow)
{
    auto e = mkCQ(a.at("e"));
    H<eg_element_mod_p_t> r(eg_element_mod_p_free);
    C(eg_element_mod_q_pow_mod_p(ash<eg_element_mod_p_t>(c.get<ElementModP>(a.at("base"))), e, &r));
    json v = {{"v", cP(r)}};
    keep<ElementModP>(c, a.at("to"), std::move(r));
    return v;
}
// ---- hashing and ElGamal
OPC(hash)
{
    auto &items = a.at("items");
    if (items.size() != 1) return ops()["hash"](a, c);
    auto &it = items[0];
    string t = it.at("t");
    auto once = [&] {
        H<eg_element_mod_q_t> r(eg_element_mod_q_free);
        if (t == "u64") C(eg_hash_elems_int(u64(it.at("v")), &r));
        else if (t == "str")
            C(eg_hash_elems_string(Txt(it.at("v")), &r));
        else {
            Txts l(it.at("v"));
            C(eg_hash_elems_strings((const char **)(char **)l, it.at("v").size(), &r));
        }
        return cQ(r);
    };
    if (t != "u64" && t != "str" && t != "vstr") return ops()["hash"](a, c);
    return {{"v", once()}, {"again", once()}, {"one", json::array()}};
}
static json cipherJ(eg_elgamal_ciphertext_t *x)
{
    return json::array({refP(eg_elgamal_ciphertext_get_pad, x), refP(eg_elgamal_ciphertext_get_data, x)});
}
static H<eg_elgamal_ciphertext_t> cipher(const json &v)
{
    H<eg_elgamal_ciphertext_t> h(eg_elgamal_ciphertext_free); // no constructor in C
    *&h = ash<eg_elgamal_ciphertext_t>(*ElGamalCiphertext::make(*mkP(v.at(0)), *mkP(v.at(1))).release());
    return h;
}
OPC(keypair)
{
    if (!a.value("fixed", true)) return ops()["keypair"](a, c);
    H<eg_elgamal_keypair_t> k(eg_elgamal_keypair_free);
    {
        auto s = mkCQ(a.at("s"));
        C(eg_elgamal_keypair_from_secret_new(s, &k));
    }
    string s = refQ(eg_elgamal_keypair_get_secret_key, k.p), p = refP(eg_elgamal_keypair_get_public_key, k.p);
    return {{"s", s}, {"k", p}, {"copy", json::array({s, p})}, {"after", json::array({refQ(eg_elgamal_keypair_get_secret_key, k.p), refP(eg_elgamal_keypair_get_public_key, k.p)})}};
}
OPC(eg_encrypt)
{
    H<eg_elgamal_ciphertext_t> x(eg_elgamal_ciphertext_free);
    {
        auto n = mkCQ(a.at("n"));
        auto k = mkCP(a.at("k"), a.value("fixed", false));
        C(eg_elgamal_encrypt(u64(a.at("m")), n, k, &x));
    }
    return {{"c", cipherJ(x)}, {"h", newQ(eg_elgamal_ciphertext_crypto_hash, x.p)}};
}
OPC(eg_decrypt)
{
    auto x = cipher(a.at("c"));
    auto s = mkCQ(a.at("s"));
    uint64_t v = 0;
    C(eg_elgamal_ciphertext_decrypt_with_secret(x, s, &v));
    return {{"v", v == UINT64_MAX ? string("none") : dec(v)}};
}
// ---- proofs
static json djJ(eg_disjunctive_chaum_pedersen_proof_t *p)
{
#define D(f) eg_disjunctive_chaum_pedersen_proof_get_##f
    return {{"a0", refP(D(zero_pad), p)}, {"b0", refP(D(zero_data), p)}, {"a1", refP(D(one_pad), p)}, {"b1", refP(D(one_data), p)},
            {"c0", refQ(D(zero_challenge), p)}, {"c1", refQ(D(one_challenge), p)}, {"c", refQ(D(challenge), p)},
            {"v0", refQ(D(zero_response), p)}, {"v1", refQ(D(one_response), p)}};
#undef D
}
static json ccJ(eg_constant_chaum_pedersen_proof_t *p)
{
    return {{"a", refP(eg_constant_chaum_pedersen_proof_get_pad, p)}, {"b", refP(eg_constant_chaum_pedersen_proof_get_data, p)},
            {"c", refQ(eg_constant_chaum_pedersen_proof_get_challenge, p)}, {"v", refQ(eg_constant_chaum_pedersen_proof_get_response, p)},
            {"k", dec(reinterpret_cast<ConstantChaumPedersenProof *>(p)->getConstant())}};
}
typedef H<eg_disjunctive_chaum_pedersen_proof_t> DjH;
typedef H<eg_constant_chaum_pedersen_proof_t> CcH;
OPC(dj_make)
{
    string mode = a.at("mode");
    if (mode == "pre") return ops()["dj_make"](a, c);
    auto m = cipher(a.at("c"));
    auto k = mkCP(a.at("k"), a.value("fixed", false));
    auto h = mkCQ(a.at("h"));
    uint64_t pt = u64(a.at("m"));
    auto go = [&] {
        DjH p(eg_disjunctive_chaum_pedersen_proof_free);
        auto r = mkCQ(a.at("n"));
        if (mode == "seed") {
            auto s = mkCQ(a.at("seed"));
            C(eg_disjunctive_chaum_pedersen_proof_make_deterministic(m, r, k, h, s, pt, &p));
        } else
            C(eg_disjunctive_chaum_pedersen_proof_make(m, r, k, h, pt, &p));
        return p;
    };
    auto p = go();
    json d = djJ(p);
    return {{"p", d}, {"valid", V_(eg_disjunctive_chaum_pedersen_proof_is_valid(p, m, k, h))}, {"again", djJ(go())}, {"copy", d}, {"clone", d}};
}
OPC(dj_valid)
{
    auto &q = a.at("p");
    DjH p(eg_disjunctive_chaum_pedersen_proof_free);
    *&p = ash<eg_disjunctive_chaum_pedersen_proof_t>(*new DisjunctiveChaumPedersenProof(
      mkP(q.at("a0")), mkP(q.at("b0")), mkP(q.at("a1")), mkP(q.at("b1")), mkQ(q.at("c0")), mkQ(q.at("c1")), mkQ(q.at("c")), mkQ(q.at("v0")), mkQ(q.at("v1"))));
    auto m = cipher(a.at("c"));
    auto k = mkCP(a.at("k"), a.value("fixed", false));
    auto h = mkCQ(a.at("h"));
    return {{"v", V_(eg_disjunctive_chaum_pedersen_proof_is_valid(p, m, k, h))}};
}
OPC(cc_make)
{
    auto m = cipher(a.at("c"));
    auto k = mkCP(a.at("k"), a.value("fixed", false));
    auto h = mkCQ(a.at("h"));
    auto go = [&] {
        CcH p(eg_constant_chaum_pedersen_proof_free);
        auto r = mkCQ(a.at("n")), s = mkCQ(a.at("seed"));
        C(eg_constant_chaum_pedersen_proof_make(m, r, k, s, h, u64(a.at("l")), &p));
        return p;
    };
    auto p = go();
    json d = ccJ(p);
    return {{"p", d}, {"valid", V_(eg_constant_chaum_pedersen_proof_is_valid(p, m, k, h))}, {"again", ccJ(go())}, {"copy", d}};
}
OPC(cc_valid)
{
    auto &q = a.at("p");
    CcH p(eg_constant_chaum_pedersen_proof_free);
    *&p = ash<eg_constant_chaum_pedersen_proof_t>(*new ConstantChaumPedersenProof(mkP(q.at("a")), mkP(q.at("b")), mkQ(q.at("c")), mkQ(q.at("v")), u64(q.at("k"))));
    auto m = cipher(a.at("c"));
    auto k = mkCP(a.at("k"), a.value("fixed", false));
    auto h = mkCQ(a.at("h"));
    return {{"v", V_(eg_constant_chaum_pedersen_proof_is_valid(p, m, k, h))}};
}
// ---- buffers
static json sizes()
{
    int n = 0, max = 0;
    C(eg_precompute_status(&n, &max));
    return {{"n", n}, {"max", max}};
}
OPC(pre_init)
{
    C(eg_precompute_init(a.at("n").get<int>()));
    return sizes();
}
OPC(pre_populate)
{
    auto k = mkCP(a.at("k"), a.value("fixed", false));
    C(eg_precompute_populate(k));
    return sizes();
}
OPC(pre_stop)
{
    C(eg_precompute_stop());
    return sizes();
}
// ---- lists
struct CList {
    H<eg_linked_list_t> h;
};
static eg_linked_list_t *listOf(Ctx &c, const json &a) { return c.get<CList>(a.at("n").get<string>()).h; }
static json listJ(eg_linked_list_t *l)
{
    json r = json::array();
    for (uint64_t i = 0, n = V_(eg_linked_list_get_count(l)); i < n; i++) {
        char *k = nullptr, *v = nullptr, *w = nullptr;
        C(eg_linked_list_get_element_at(l, i, &k, &v));
        C(eg_linked_list_get_value_at(l, i, &w));
        if (string(v) != w) throw std::runtime_error("value");
        r.push_back({{"k", k}, {"v", v}});
    }
    return r;
}
OPC(ll_new)
{
    auto l = std::make_unique<CList>();
    l->h = H<eg_linked_list_t>(eg_linked_list_free);
    C(eg_linked_list_new(&l->h));
    return {{"l", listJ(c.put(a.at("n").get<string>(), std::move(l)).h)}};
}
OPC(ll_append)
{
    C(eg_linked_list_append(listOf(c, a), Txt(a.at("k")), Txt(a.at("v"))));
    return {{"l", listJ(listOf(c, a))}};
}
OPC(ll_pop)
{
    C(eg_linked_list_delete_last(listOf(c, a)));
    return {{"l", listJ(listOf(c, a))}};
}
OPC(ll_at)
{
    char *k = nullptr, *v = nullptr, *w = nullptr;
    uint64_t i = u64(a.at("i"));
    St s1 = V_(eg_linked_list_get_element_at(listOf(c, a), i, &k, &v));
    St s2 = V_(eg_linked_list_get_value_at(listOf(c, a), i, &w));
    json r = {{"s1", (int)s1}, {"s2", (int)s2}, {"e", json::array()}};
    if (s1 == ELECTIONGUARD_STATUS_SUCCESS) r["e"].push_back({{"k", k}, {"v", v}});
    return r;
}
OPC(ll_free)
{
    c.drop<CList>(a.at("n").get<string>());
    return json::object();
}
OPC(xd_new)
{
    H<eg_extended_data_t> x(eg_extended_data_free);
    C(eg_extended_data_new(Txt(a.at("v")), u64(a.at("len")), &x));
    return {{"v", cs(eg_extended_data_get_value, x.p)}, {"len", dec(V_(eg_extended_data_get_length(x)))}};
}
// releasing nothing is refused, not a crash
OPC(null_free)
{
    json r = json::object();
#define NF(f) r[#f] = (int)V_(f(nullptr))
    NF(eg_annotated_string_free), NF(eg_language_free), NF(eg_internationalized_text_free), NF(eg_contact_information_free);
    NF(eg_geopolitical_unit_free), NF(eg_ballot_style_free), NF(eg_party_free), NF(eg_candidate_free), NF(eg_selection_description_free);
    NF(eg_contest_description_free), NF(eg_contest_description_with_placeholders_free), NF(eg_election_manifest_free), NF(eg_internal_manifest_free);
    NF(eg_extended_data_free), NF(eg_plaintext_ballot_selection_free), NF(eg_ciphertext_ballot_selection_free), NF(eg_plaintext_ballot_contest_free);
    NF(eg_ciphertext_ballot_contest_free), NF(eg_plaintext_ballot_free), NF(eg_ciphertext_ballot_free), NF(eg_submitted_ballot_free);
    NF(eg_ciphertext_election_context_config_free), NF(eg_ciphertext_election_context_free), NF(eg_encryption_device_free), NF(eg_encryption_mediator_free);
    NF(eg_compact_plaintext_ballot_free), NF(eg_compact_ciphertext_ballot_free), NF(eg_disjunctive_chaum_pedersen_proof_free);
    NF(eg_constant_chaum_pedersen_proof_free), NF(eg_elgamal_keypair_free), NF(eg_elgamal_ciphertext_free), NF(eg_element_mod_p_free), NF(eg_element_mod_q_free);
    return {{"s", r}, {"list", (int)V_(eg_linked_list_free(nullptr))}};
}
OPC(st_text)
{
    json r = json::array();
    for (int i = 0; i < 10; i++) r.push_back(string(eg_electionguard_get_status((eg_electionguard_status_t)i)));
    return {{"t", r}};
}
