// Ballots through the C interface (P21).
#include "capi.hpp"
using namespace electionguard;

template <typename E, typename X> static H<E> own(unique_ptr<X> x, St (*fr)(E *))
{
    H<E> h(fr);
    *&h = reinterpret_cast<E *>(x.release());
    return h;
}
static H<eg_plaintext_ballot_selection_t> plainSel(const json &s)
{
    H<eg_plaintext_ballot_selection_t> h(eg_plaintext_ballot_selection_free);
    string wi = s.at("wi");
    if (wi.empty()) C(eg_plaintext_ballot_selection_new(Txt(s.at("id")), voteIn(s.at("vote")), s.at("ph").get<bool>(), &h));
    else
        C(eg_plaintext_ballot_selection_new_with_write_in(Txt(s.at("id")), voteIn(s.at("vote")), s.at("ph").get<bool>(), Txt(wi), &h));
    return h;
}
static H<eg_plaintext_ballot_contest_t> plainContest(const json &c)
{
    vector<H<eg_plaintext_ballot_selection_t>> v;
    for (auto &s : c.at("sel")) v.push_back(plainSel(s));
    H<eg_plaintext_ballot_contest_t> h(eg_plaintext_ballot_contest_free);
    C(eg_plaintext_ballot_contest_new(Txt(c.at("id")), raw(v).data(), v.size(), &h));
    return h;
}
static H<eg_plaintext_ballot_t> plainBallot(const json &b)
{
    vector<H<eg_plaintext_ballot_contest_t>> v;
    for (auto &c : b.at("contests")) v.push_back(plainContest(c));
    H<eg_plaintext_ballot_t> h(eg_plaintext_ballot_free);
    C(eg_plaintext_ballot_new(Txt(b.at("id")), Txt(b.at("style")), raw(v).data(), v.size(), &h));
    return h;
}
static json plainJ(eg_plaintext_ballot_t *b)
{
    json cs_ = json::array();
    for (uint64_t i = 0, n = V_(eg_plaintext_ballot_get_contests_size(b)); i < n; i++) {
        auto *x = ref(eg_plaintext_ballot_get_contest_at_index, b, i);
        json ss = json::array();
        for (uint64_t k = 0, m = V_(eg_plaintext_ballot_contest_get_selections_size(x)); k < m; k++) {
            auto *s = ref(eg_plaintext_ballot_contest_get_selection_at_index, x, k);
            ss.push_back({{"id", cs(eg_plaintext_ballot_selection_get_object_id, s)}, {"vote", voteOut(V_(eg_plaintext_ballot_selection_get_vote(s)))},
                          {"ph", V_(eg_plaintext_ballot_selection_get_is_placeholder(s))}, {"wi", cs(eg_plaintext_ballot_selection_get_write_in, s)}});
        }
        cs_.push_back({{"id", cs(eg_plaintext_ballot_contest_get_object_id, x)}, {"sel", ss}});
    }
    return {{"id", cs(eg_plaintext_ballot_get_object_id, b)}, {"style", cs(eg_plaintext_ballot_get_style_id, b)}, {"contests", cs_}};
}
static json cipherJ(eg_elgamal_ciphertext_t *x)
{
    return json::array({refP(eg_elgamal_ciphertext_get_pad, x), refP(eg_elgamal_ciphertext_get_data, x)});
}
static json djJ(eg_disjunctive_chaum_pedersen_proof_t *p)
{
    if (!p) return json::array();
#define D(f) eg_disjunctive_chaum_pedersen_proof_get_##f
    return json::array({{{"a0", refP(D(zero_pad), p)}, {"b0", refP(D(zero_data), p)}, {"a1", refP(D(one_pad), p)}, {"b1", refP(D(one_data), p)},
                         {"c0", refQ(D(zero_challenge), p)}, {"c1", refQ(D(one_challenge), p)}, {"c", refQ(D(challenge), p)},
                         {"v0", refQ(D(zero_response), p)}, {"v1", refQ(D(one_response), p)}}});
#undef D
}
static json ccJ(eg_constant_chaum_pedersen_proof_t *p)
{
    if (!p) return json::array();
    return json::array({{{"a", refP(eg_constant_chaum_pedersen_proof_get_pad, p)}, {"b", refP(eg_constant_chaum_pedersen_proof_get_data, p)},
                         {"c", refQ(eg_constant_chaum_pedersen_proof_get_challenge, p)}, {"v", refQ(eg_constant_chaum_pedersen_proof_get_response, p)},
                         {"k", dec(reinterpret_cast<ConstantChaumPedersenProof *>(p)->getConstant())}}});
}
#define S(f) eg_ciphertext_ballot_selection_##f
static json selJ(eg_ciphertext_ballot_selection_t *s)
{
    return {{"id", cs(S(get_object_id), s)}, {"seq", dec(V_(S(get_sequence_order)(s)))}, {"dh", refQ(S(get_description_hash), s)},
            {"c", cipherJ(ref(S(get_ciphertext), s))}, {"hash", refQ(S(get_crypto_hash), s)}, {"ph", V_(S(get_is_placeholder)(s))},
            {"nonce", optRefQ(S(get_nonce), s)}, {"proof", djJ(ref(S(get_proof), s))}};
}
#define K(f) eg_ciphertext_ballot_contest_##f
static json contestJ(eg_ciphertext_ballot_contest_t *c)
{
    json sel = json::array();
    for (uint64_t i = 0, n = V_(K(get_selections_size)(c)); i < n; i++) sel.push_back(selJ(ref(K(get_selection_at_index), c, i)));
    auto h = reinterpret_cast<CiphertextBallotContest *>(c)->getHashedElGamalCiphertext();
    json he = json::array();
    if (h) he.push_back({{"pad", hexP(*h->getPad())}, {"data", bytesHex(h->getData())}, {"mac", bytesHex(h->getMac())}});
    return {{"id", cs(K(get_object_id), c)}, {"seq", dec(V_(K(get_sequence_order)(c)))}, {"dh", refQ(K(get_description_hash), c)}, {"sel", sel},
            {"acc", cipherJ(ref(K(get_ciphertext_accumulation), c))}, {"hash", refQ(K(get_crypto_hash), c)}, {"nonce", optRefQ(K(get_nonce), c)},
            {"proof", ccJ(ref(K(get_proof), c))}, {"he", he}};
}
#define B(f) eg_ciphertext_ballot_##f
static json ballotJ(eg_ciphertext_ballot_t *b)
{
    json cs_ = json::array();
    for (uint64_t i = 0, n = V_(B(get_contests_size)(b)); i < n; i++) cs_.push_back(contestJ(ref(B(get_contest_at_index), b, i)));
    return {{"id", cs(B(get_object_id), b)}, {"style", cs(B(get_style_id), b)}, {"mh", refQ(B(get_manifest_hash), b)},
            {"seed", refQ(B(get_ballot_code_seed), b)}, {"ts", dec(V_(B(get_timestamp)(b)))}, {"code", refQ(B(get_ballot_code), b)},
            {"nonce", optRefQ(B(get_nonce), b)}, {"hash", refQ(B(get_crypto_hash), b)}, {"contests", cs_}};
}
static json compactJ(eg_compact_ciphertext_ballot_t *k)
{
    json d = dumpCompact(*reinterpret_cast<CompactCiphertextBallot *>(k));
    d["id"] = cs(eg_compact_ciphertext_ballot_get_object_id, k);
    return d;
}
// ---- the election
static eg_internal_manifest_t *im(Election &e) { return ash<eg_internal_manifest_t>(*e.internal); }
static eg_ciphertext_election_context_t *cx(Election &e) { return ash<eg_ciphertext_election_context_t>(*e.context); }
static eg_element_mod_p_t *pkOf(Election &e) { return ref(eg_ciphertext_election_context_get_elgamal_public_key, cx(e)); }
static eg_element_mod_q_t *xbOf(Election &e) { return ref(eg_ciphertext_election_context_get_crypto_extended_base_hash, cx(e)); }
static eg_element_mod_q_t *mhOf(Election &e) { return ref(eg_internal_manifest_get_manifest_hash, im(e)); }
OPC(b_setup)
{
    auto e = std::make_unique<Election>();
    auto m = cManifest(a.at("m"));
    string via = a.at("via");
    H<eg_internal_manifest_t> i(eg_internal_manifest_free);
    if (via == "manifest") {
        auto again = fromJson(eg_election_manifest_from_json, eg_election_manifest_free, toJson(eg_election_manifest_to_json, m.p));
        C(eg_internal_manifest_new(again, &i));
    } else {
        C(eg_internal_manifest_new(m, &i));
        if (via != "direct") {
            string text;
            vector<uint8_t> bytes;
            C_WRITE3(eg_internal_manifest, i.p, via, text, bytes);
            i = C_READ3(eg_internal_manifest, via, text, bytes);
        }
    }
    H<eg_ciphertext_election_context_t> x(eg_ciphertext_election_context_free);
    {
        auto pk = mkCP(a.at("pk"), a.value("fixed", false));
        auto com = mkCQ(a.at("com"));
        C(eg_ciphertext_election_context_make(u64(a.at("n")), u64(a.at("k")), pk, com, ref(eg_internal_manifest_get_manifest_hash, i.p), &x));
    }
    e->manifest.reset(reinterpret_cast<Manifest *>(m.release()));
    e->internal.reset(reinterpret_cast<InternalManifest *>(i.release()));
    e->context.reset(reinterpret_cast<CiphertextElectionContext *>(x.release()));
    json r = {{"mh", cQ(mhOf(*e))}, {"xbase", cQ(xbOf(*e))}};
    c.put("election", std::move(e));
    return r;
}
OPC(b_med)
{
    auto &e = theElection(c);
    auto &d = a.at("dev");
    H<eg_encryption_device_t> dv(eg_encryption_device_free);
    C(eg_encryption_device_new(u64(d.at("dev")), u64(d.at("ses")), u64(d.at("launch")), Txt(d.at("loc")), &dv));
    H<eg_encryption_mediator_t> m(eg_encryption_mediator_free);
    C(eg_encryption_mediator_new(im(e), cx(e), dv, &m));
    json r = {{"hash", newQ(eg_encryption_device_get_hash, dv.p)}};
    e.devices[a.at("n")].reset(reinterpret_cast<EncryptionDevice *>(dv.release()));
    e.mediators[a.at("n")].reset(reinterpret_cast<EncryptionMediator *>(m.release()));
    return r;
}
OPC(b_pre)
{
    auto &e = theElection(c);
    C(eg_precompute_init((int)u64(a.at("size"))));
    C(eg_precompute_populate(pkOf(e)));
    int n = 0, max = 0;
    C(eg_precompute_status(&n, &max));
    return {{"n", n}};
}
OPC(b_enc)
{
    auto &e = theElection(c);
    auto plain = plainBallot(a.at("ballot"));
    string path = a.at("path"), n = a.at("n");
    bool verify = a.at("verify");
    json r = {{"c", true}}; // the C functions take no timestamp
    if (path == "med" || path == "direct") {
        H<eg_ciphertext_ballot_t> b(eg_ciphertext_ballot_free);
        if (path == "med") {
            auto *m = ash<eg_encryption_mediator_t>(*e.mediators.at(a.at("md")));
            if (verify) C(eg_encryption_mediator_encrypt_ballot_verify_proofs(m, plain, &b));
            else
                C(eg_encryption_mediator_encrypt_ballot(m, plain, &b));
        } else {
            auto seed = mkCQ(a.at("seed"));
            if (a.at("nonce").empty()) C(eg_encrypt_ballot(plain, im(e), cx(e), seed, verify, &b));
            else {
                auto nonce = mkCQ(a.at("nonce")[0]);
                C(eg_encrypt_ballot_with_nonce(plain, im(e), cx(e), seed, nonce, verify, &b));
            }
        }
        plain.reset();
        r["d"] = ballotJ(b);
        keep<CiphertextBallot>(c, n, std::move(b));
    } else {
        H<eg_compact_ciphertext_ballot_t> b(eg_compact_ciphertext_ballot_free);
        if (path == "medc") {
            auto *m = ash<eg_encryption_mediator_t>(*e.mediators.at(a.at("md")));
            if (verify) C(eg_encryption_mediator_compact_encrypt_ballot_verify_proofs(m, plain, &b));
            else
                C(eg_encryption_mediator_compact_encrypt_ballot(m, plain, &b));
        } else {
            auto seed = mkCQ(a.at("seed"));
            if (a.at("nonce").empty()) C(eg_encrypt_compact_ballot(plain, im(e), cx(e), seed, verify, &b));
            else {
                auto nonce = mkCQ(a.at("nonce")[0]);
                C(eg_encrypt_compact_ballot_with_nonce(plain, im(e), cx(e), seed, nonce, verify, &b));
            }
        }
        plain.reset();
        r["k"] = compactJ(b);
        keep<CompactCiphertextBallot>(c, n, std::move(b));
    }
    return r;
}
OPC(b_contest)
{
    auto &e = theElection(c);
    auto plain = plainContest(a.at("contest"));
    auto ns = mkCQ(a.at("ns"));
    H<eg_ciphertext_ballot_contest_t> r(eg_ciphertext_ballot_contest_free);
    C(eg_encrypt_contest(plain, im(e), ash<eg_contest_description_with_placeholders_t>(contestOf(e, a.at("of"))), pkOf(e), xbOf(e), ns,
                         a.at("verify").get<bool>(), &r));
    plain.reset();
    ns.reset();
    json d = {{"d", contestJ(r)}};
    d["v"] = V_(K(is_valid_encryption)(r, ref(K(get_description_hash), r.p), pkOf(e), xbOf(e)));
    H<eg_element_mod_q_t> h(eg_element_mod_q_free);
    C(K(crypto_hash_with)(r, ref(K(get_description_hash), r.p), &h));
    if (cQ(h) != d["d"]["hash"].get<string>()) throw std::runtime_error("hash of the contest");
    return d;
}
OPC(b_sel)
{
    auto &e = theElection(c);
    eg_selection_description_t *desc = nullptr;
    C(eg_contest_description_with_placeholders_selection_for_id(ash<eg_contest_description_with_placeholders_t>(contestOf(e, a.at("of"))),
                                                                Txt(a.at("sel")), &desc));
    auto plain = plainSel(a.at("selection"));
    auto ns = mkCQ(a.at("ns"));
    H<eg_ciphertext_ballot_selection_t> r(eg_ciphertext_ballot_selection_free);
    C(eg_encrypt_selection(plain, desc, pkOf(e), xbOf(e), ns, a.at("isph").get<bool>(), a.at("verify").get<bool>(), &r));
    plain.reset();
    ns.reset();
    json d = {{"d", selJ(r)}};
    d["v"] = V_(S(is_valid_encryption)(r, ref(S(get_description_hash), r.p), pkOf(e), xbOf(e)));
    H<eg_element_mod_q_t> h(eg_element_mod_q_free);
    C(S(crypto_hash_with)(r, ref(S(get_description_hash), r.p), &h));
    if (cQ(h) != d["d"]["hash"].get<string>()) throw std::runtime_error("hash of the selection");
    return d;
}
// the C verdict is a plain yes or no
OPC(b_plainok)
{
    auto plain = plainContest(a.at("contest"));
    auto cpp = mkPlainContest(a.at("contest"));
    auto v = cpp->isValid(a.at("id").get<string>(), u64(a.at("ns")), u64(a.at("ne")), u64(a.at("va")), a.at("sup").get<bool>());
    bool vb = V_(eg_plaintext_ballot_contest_is_valid(plain, Txt(a.at("id")), u64(a.at("ns")), u64(a.at("ne")), u64(a.at("va"))));
    json sv = json::array();
    for (uint64_t k = 0, m = V_(eg_plaintext_ballot_contest_get_selections_size(plain)); k < m; k++) {
        auto *s = ref(eg_plaintext_ballot_contest_get_selection_at_index, plain.p, k);
        sv.push_back(V_(eg_plaintext_ballot_selection_is_valid(s, Txt(a.at("sid")))));
    }
    return {{"v", (int)v}, {"vb", vb}, {"sv", sv}};
}
static json yes(bool b) { return b ? "true" : "false"; }
static json verdicts(eg_ciphertext_ballot_t *b, eg_element_mod_q_t *mh, eg_element_mod_p_t *pk, eg_element_mod_q_t *xb)
{
    json cvs = json::array(), svs = json::array();
    for (uint64_t i = 0, n = V_(B(get_contests_size)(b)); i < n; i++) {
        auto *x = ref(B(get_contest_at_index), b, i);
        cvs.push_back(yes(V_(K(is_valid_encryption)(x, ref(K(get_description_hash), x), pk, xb))));
        json s = json::array();
        for (uint64_t k = 0, m = V_(K(get_selections_size)(x)); k < m; k++) {
            auto *y = ref(K(get_selection_at_index), x, k);
            s.push_back(yes(V_(S(is_valid_encryption)(y, ref(S(get_description_hash), y), pk, xb))));
        }
        svs.push_back(s);
    }
    return {{"v", yes(V_(B(is_valid_encryption)(b, mh, pk, xb)))}, {"cv", cvs}, {"sv", svs}};
}
OPC(b_valid)
{
    auto &e = theElection(c);
    auto *b = ash<eg_ciphertext_ballot_t>(anyBallot(c, a.at("n")));
    auto mh = mkCQ(a.at("mh").empty() ? cQ(mhOf(e)) : a.at("mh")[0].get<string>());
    auto pk = mkCP(a.at("pk").empty() ? cP(pkOf(e)) : a.at("pk")[0].get<string>());
    auto xb = mkCQ(a.at("xb").empty() ? cQ(xbOf(e)) : a.at("xb")[0].get<string>());
    return verdicts(b, mh, pk, xb);
}
OPC(b_validdh)
{
    auto &e = theElection(c);
    auto *b = ash<eg_ciphertext_ballot_t>(anyBallot(c, a.at("n")));
    auto dh = mkCQ(a.at("dh"));
    json cvs = json::array(), svs = json::array();
    for (uint64_t i = 0, n = V_(B(get_contests_size)(b)); i < n; i++) {
        auto *x = ref(B(get_contest_at_index), b, i);
        cvs.push_back(yes(V_(K(is_valid_encryption)(x, dh, pkOf(e), xbOf(e)))));
        json s = json::array();
        for (uint64_t k = 0, m = V_(K(get_selections_size)(x)); k < m; k++)
            s.push_back(yes(V_(S(is_valid_encryption)(ref(K(get_selection_at_index), x, k), dh, pkOf(e), xbOf(e)))));
        svs.push_back(s);
    }
    return {{"cv", cvs}, {"sv", svs}};
}
OPC(b_more)
{
    auto &cpp = c.get<CiphertextBallot>(a.at("n"));
    auto *b = ash<eg_ciphertext_ballot_t>(cpp);
    json l = json::array();
    for (uint64_t i = 0, n = V_(B(get_contests_size)(b)); i < n; i++) {
        auto *x = ref(B(get_contest_at_index), b, i);
        H<eg_element_mod_q_t> agg(eg_element_mod_q_free);
        C(K(aggregate_nonce)(x, &agg));
        H<eg_elgamal_ciphertext_t> acc(eg_elgamal_ciphertext_free);
        C(K(elgamal_accumulate)(x, &acc));
        l.push_back({{"agg", cQ(agg)}, {"acc", cipherJ(acc)}});
    }
    H<eg_element_mod_q_t> h(eg_element_mod_q_free);
    C(B(crypto_hash_with)(b, ref(B(get_manifest_hash), b), &h));
    if (cQ(h) != refQ(B(get_crypto_hash), b)) throw std::runtime_error("hash of the ballot");
    return {{"ns", hexQ(*cpp.nonceSeed())}, {"nss", hexQ(*CiphertextBallot::nonceSeed(*cpp.getManifestHash(), cpp.getObjectId(), *cpp.getNonce()))}, {"cs", l}};
}
OPC(b_code)
{
    auto p = mkCQ(a.at("prev")), h = mkCQ(a.at("h"));
    H<eg_element_mod_q_t> r(eg_element_mod_q_free);
    C(eg_ballot_code_get_ballot_code(p, u64(a.at("ts")), h, &r));
    return {{"v", cQ(r)}};
}
// ---- serialized forms
static void writeC(eg_ciphertext_ballot_t *b, const string &fmt, bool nonces, string &text, vector<uint8_t> &bytes)
{
    if (fmt == "bson") bytes = nonces ? toBytes(B(to_bson_with_nonces), b) : toBytes(B(to_bson), b);
    else if (fmt == "msgpack")
        bytes = nonces ? toBytes(B(to_msgpack_with_nonces), b) : toBytes(B(to_msgpack), b);
    else
        text = nonces ? toJson(B(to_json_with_nonces), b) : toJson(B(to_json), b);
}
OPC(b_trip)
{
    auto &e = theElection(c);
    string fmt = a.at("fmt"), text;
    vector<uint8_t> bytes;
    writeC(ash<eg_ciphertext_ballot_t>(c.get<CiphertextBallot>(a.at("n"))), fmt, a.at("nonces").get<bool>(), text, bytes);
    auto t = C_READ3(eg_ciphertext_ballot, fmt, text, bytes);
    json r = {{"d", ballotJ(t)}};
    r["v"] = V_(B(is_valid_encryption)(t, mhOf(e), pkOf(e), xbOf(e)));
    keep<CiphertextBallot>(c, a.at("to"), std::move(t));
    return r;
}
OPC(b_publish)
{
    string fmt = a.at("fmt"), kind = a.at("kind"), n = a.at("n"), text;
    vector<uint8_t> bytes;
    if (kind == "submitted") {
        auto *b = ash<eg_submitted_ballot_t>(c.get<SubmittedBallot>(n));
        C_WRITE3(eg_submitted_ballot, b, fmt, text, bytes);
    } else
        writeC(ash<eg_ciphertext_ballot_t>(c.get<CiphertextBallot>(n)), fmt, kind == "complete", text, bytes);
    json j = fmt == "bson" ? json::from_bson(bytes) : fmt == "msgpack" ? json::from_msgpack(bytes) : json::parse(text);
    std::set<string> keys, texts;
    leaves(j, keys, texts);
    return {{"keys", keys}, {"texts", texts}};
}
OPC(b_submit)
{
    if (a.at("route") != "from") return ops()["b_submit"](a, c);
    auto &b = c.get<CiphertextBallot>(a.at("n"));
    H<eg_submitted_ballot_t> s(eg_submitted_ballot_free);
    C(eg_submitted_ballot_from(ash<eg_ciphertext_ballot_t>(b), (eg_ballot_box_state_t)a.at("state").get<int>(), &s));
    json r = {{"d", dumpCipher(s.as<SubmittedBallot>())}, {"state", (int)V_(eg_submitted_ballot_get_state(s))}, {"after", ballotJ(ash<eg_ciphertext_ballot_t>(b))}};
    keep<SubmittedBallot>(c, a.at("to"), std::move(s));
    return r;
}
OPC(s_trip)
{
    auto &e = theElection(c);
    string fmt = a.at("fmt"), text;
    vector<uint8_t> bytes;
    auto *b = ash<eg_submitted_ballot_t>(c.get<SubmittedBallot>(a.at("n")));
    C_WRITE3(eg_submitted_ballot, b, fmt, text, bytes);
    auto t = C_READ3(eg_submitted_ballot, fmt, text, bytes);
    auto &x = t.as<SubmittedBallot>();
    json r = {{"d", dumpCipher(x)}, {"state", (int)V_(eg_submitted_ballot_get_state(t))}};
    r["v"] = x.isValidEncryption(*e.internal->getManifestHash(), *e.context->getElGamalPublicKey(), *e.context->getCryptoExtendedBaseHash());
    keep<SubmittedBallot>(c, a.at("to"), std::move(t));
    return r;
}
OPC(p_new)
{
    auto b = plainBallot(a.at("ballot"));
    json r = {{"d", plainJ(b)}};
    keep<PlaintextBallot>(c, a.at("n"), std::move(b));
    return r;
}
OPC(p_trip)
{
    string fmt = a.at("fmt"), text;
    vector<uint8_t> bytes;
    auto *b = ash<eg_plaintext_ballot_t>(c.get<PlaintextBallot>(a.at("n")));
    C_WRITE3(eg_plaintext_ballot, b, fmt, text, bytes);
    auto t = C_READ3(eg_plaintext_ballot, fmt, text, bytes);
    json r = {{"d", plainJ(t)}};
    keep<PlaintextBallot>(c, a.at("to"), std::move(t));
    return r;
}
OPC(kp_trip)
{
    if (a.at("fmt") != "msgpack") return ops()["kp_trip"](a, c);
    auto t = fromBytes(eg_compact_plaintext_ballot_from_msgpack, eg_compact_plaintext_ballot_free,
                       toBytes(eg_compact_plaintext_ballot_to_msgpack, ash<eg_compact_plaintext_ballot_t>(c.get<CompactPlaintextBallot>(a.at("n"))),
                               eg_compact_plaintext_ballot_msgpack_free));
    return {{"d", dumpCompactPlain(keep<CompactPlaintextBallot>(c, a.at("to"), std::move(t)))}};
}
OPC(k_trip)
{
    if (a.at("fmt") != "msgpack") return ops()["k_trip"](a, c);
    auto &k = c.get<CompactCiphertextBallot>(a.at("n"));
    if (a.at("state").get<int>() != 0) k.setBallotBoxState((BallotBoxState)a.at("state").get<int>());
    auto t = fromBytes(eg_compact_ciphertext_ballot_from_msgpack, eg_compact_ciphertext_ballot_free,
                       toBytes(eg_compact_ciphertext_ballot_to_msgpack, ash<eg_compact_ciphertext_ballot_t>(k), eg_compact_ciphertext_ballot_msgpack_free));
    json r = {{"k", compactJ(t)}};
    keep<CompactCiphertextBallot>(c, a.at("to"), std::move(t));
    return r;
}
#define GARBLED(X, h)                                \
    do {                                             \
        auto *h_ = ash<X##_t>(h);                    \
        C_WRITE3(X, h_, fmt, text, bytes);           \
        garble(text, bytes, a);                      \
        auto got = C_READ3(X, fmt, text, bytes);     \
        return json::object();                       \
    } while (0)
OPC(g_read)
{
    string type = a.at("type"), n = a.at("n"), fmt = a.at("fmt"), text;
    vector<uint8_t> bytes;
    auto &e = theElection(c);
    if (type == "plain") GARBLED(eg_plaintext_ballot, c.get<PlaintextBallot>(n));
    if (type == "cipher") GARBLED(eg_ciphertext_ballot, c.get<CiphertextBallot>(n));
    if (type == "submitted") GARBLED(eg_submitted_ballot, c.get<SubmittedBallot>(n));
    if (type == "manifest") GARBLED(eg_election_manifest, *e.manifest);
    if (type == "internal") GARBLED(eg_internal_manifest, *e.internal);
    if (fmt != "msgpack") return ops()["g_read"](a, c);
    if (type == "compact") {
        bytes = toBytes(eg_compact_ciphertext_ballot_to_msgpack, ash<eg_compact_ciphertext_ballot_t>(c.get<CompactCiphertextBallot>(n)),
                        eg_compact_ciphertext_ballot_msgpack_free);
        garble(text, bytes, a);
        fromBytes(eg_compact_ciphertext_ballot_from_msgpack, eg_compact_ciphertext_ballot_free, bytes);
    } else {
        bytes = toBytes(eg_compact_plaintext_ballot_to_msgpack, ash<eg_compact_plaintext_ballot_t>(c.get<CompactPlaintextBallot>(n)),
                        eg_compact_plaintext_ballot_msgpack_free);
        garble(text, bytes, a);
        fromBytes(eg_compact_plaintext_ballot_from_msgpack, eg_compact_plaintext_ballot_free, bytes);
    }
    return json::object();
}
