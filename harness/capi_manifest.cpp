// Manifests, contexts and devices through the C interface (P21).
#include "capi.hpp"
#include <ctime>
using namespace electionguard;

// ---- building
static H<eg_internationalized_text_t> text(const json &t)
{
    vector<H<eg_language_t>> v;
    for (auto &x : t) {
        v.emplace_back(eg_language_free);
        C(eg_language_new(Txt(x.at("v")), Txt(x.at("l")), &v.back()));
    }
    H<eg_internationalized_text_t> r(eg_internationalized_text_free);
    C(eg_internationalized_text_new(raw(v).data(), v.size(), &r));
    return r;
}
static vector<H<eg_annotated_string_t>> ann(const json &l)
{
    vector<H<eg_annotated_string_t>> v;
    for (auto &x : l) {
        v.emplace_back(eg_annotated_string_free);
        C(eg_annotated_string_new(Txt(x.at("a")), Txt(x.at("v")), &v.back()));
    }
    return v;
}
static H<eg_contact_information_t> contact(const json &x)
{
    H<eg_contact_information_t> r(eg_contact_information_free);
    if (x.at("addr").empty() && x.at("email").empty() && x.at("phone").empty()) {
        C(eg_contact_information_new(Txt(x.at("name")), &r));
        return r;
    }
    auto em = ann(x.at("email")), ph = ann(x.at("phone"));
    C(eg_contact_information_new_with_collections(Txt(x.at("name")), Txts(x.at("addr")), x.at("addr").size(), raw(em).data(), em.size(),
                                                  raw(ph).data(), ph.size(), &r));
    return r;
}
static long long epoch(const string &iso)
{
    struct tm t;
    memset(&t, 0, sizeof t);
    int y, mo, d, h, mi, s;
    if (sscanf(iso.c_str(), "%d-%d-%dT%d:%d:%dZ", &y, &mo, &d, &h, &mi, &s) != 6) throw std::logic_error("bad time " + iso);
    t.tm_year = y - 1900, t.tm_mon = mo - 1, t.tm_mday = d, t.tm_hour = h, t.tm_min = mi, t.tm_sec = s;
    return (long long)timegm(&t);
}
static string iso(uint64_t secs)
{
    time_t t = (time_t)secs;
    struct tm g;
    gmtime_r(&t, &g);
    char b[64];
    snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02dZ", g.tm_year + 1900, g.tm_mon + 1, g.tm_mday, g.tm_hour, g.tm_min, g.tm_sec);
    return b;
}
static vector<H<eg_selection_description_t>> sels(const json &l)
{
    vector<H<eg_selection_description_t>> v;
    for (auto &s : l) {
        v.emplace_back(eg_selection_description_free);
        C(eg_selection_description_new(Txt(s.at("id")), Txt(s.at("cand")), u64(s.at("seq")), &v.back()));
    }
    return v;
}
template <typename E, typename X> static H<E> own(unique_ptr<X> x, St (*fr)(E *))
{
    H<E> h(fr);
    *&h = reinterpret_cast<E *>(x.release());
    return h;
}
static H<eg_contest_description_t> contest(const json &c)
{
    string id = c.at("id"), dist = c.at("dist"), name = c.at("name");
    uint64_t seq = u64(c.at("seq")), ne = u64(c.at("ne")), va = u64(c.at("va"));
    auto vv = (eg_vote_variation_type_t)c.at("vv").get<int>();
    int ctor = c.value("ctor", 0);
    auto ss = sels(c.at("sel"));
    H<eg_contest_description_t> r(eg_contest_description_free);
    if (ctor == 1) C(eg_contest_description_new(Txt(id), Txt(dist), seq, vv, ne, Txt(name), raw(ss).data(), ss.size(), &r));
    else if (ctor == 2)
        C(eg_contest_description_new_with_parties(Txt(id), Txt(dist), seq, vv, ne, Txt(name), raw(ss).data(), ss.size(),
                                                  Txts(json::array({"party-1"})), 1, &r));
    else if (c.at("title").size() == 1 && c.at("sub").size() == 1) {
        auto t = text(c.at("title")[0]), s = text(c.at("sub")[0]);
        if (ctor == 3)
            C(eg_contest_description_new_with_title_and_parties(Txt(id), Txt(dist), seq, vv, ne, va, Txt(name), t, s, raw(ss).data(), ss.size(),
                                                                Txts(json::array({"party-1", "party-2"})), 2, &r));
        else
            C(eg_contest_description_new_with_title(Txt(id), Txt(dist), seq, vv, ne, va, Txt(name), t, s, raw(ss).data(), ss.size(), &r));
    } else
        return own(mkContest(c), eg_contest_description_free);
    return r;
}
H<eg_election_manifest_t> cManifest(const json &m)
{
    long long t0 = epoch(m.at("start")), t1 = epoch(m.at("end"));
    if (m.at("name").size() != m.at("contact").size() || t0 < 0 || t1 < 0) // not expressible in C
        return own(mkManifest(m), eg_election_manifest_free);
    vector<H<eg_geopolitical_unit_t>> gps;
    for (auto &g : m.at("gps")) {
        auto t = (eg_reporting_unit_type_t)g.at("type").get<int>();
        gps.emplace_back(eg_geopolitical_unit_free);
        if (g.at("contact").empty()) C(eg_geopolitical_unit_new(Txt(g.at("id")), Txt(g.at("name")), t, &gps.back()));
        else {
            auto k = contact(g.at("contact")[0]);
            C(eg_geopolitical_unit_new_with_contact_info(Txt(g.at("id")), Txt(g.at("name")), t, k, &gps.back()));
        }
    }
    vector<H<eg_party_t>> parties;
    for (auto &p : m.at("parties")) {
        string id = p.at("id"), ab = p.at("ab"), color = p.at("color"), logo = p.at("logo");
        parties.emplace_back(eg_party_free);
        switch (p.value("ctor", 0)) {
            case 1:
                C(eg_party_new(Txt(id), &parties.back()));
                break;
            case 2:
                parties.back() = own(std::make_unique<Party>(id, ab), eg_party_free);
                break;
            case 3:
                parties.back() = own(std::make_unique<Party>(id, ab, color, logo), eg_party_free);
                break;
            case 4:
                parties.back() = own(std::make_unique<Party>(id, nullptr, ab, color, logo), eg_party_free);
                break;
            default: {
                auto n = text(p.at("name"));
                C(eg_party_new_with_extras(Txt(id), n, Txt(ab), Txt(color), Txt(logo), &parties.back()));
            }
        }
    }
    vector<H<eg_candidate_t>> cands;
    for (auto &k : m.at("cands")) {
        string id = k.at("id"), party = k.at("party"), image = k.at("image");
        bool wi = k.at("wi");
        cands.emplace_back(eg_candidate_free);
        auto &to = cands.back();
        int ctor = k.value("ctor", 0);
        if (ctor == 1) C(eg_candidate_new(Txt(id), wi, &to));
        else if (ctor == 2)
            C(eg_candidate_new_with_party(Txt(id), Txt(party), wi, &to));
        else if (k.at("name").empty()) {
            if (ctor == 3) to = own(std::make_unique<Candidate>(id, unique_ptr<InternationalizedText>(), wi), eg_candidate_free);
            else if (ctor == 4)
                to = own(std::make_unique<Candidate>(id, unique_ptr<InternationalizedText>(), party, wi), eg_candidate_free);
            else
                to = own(std::make_unique<Candidate>(id, unique_ptr<InternationalizedText>(), party, image, wi), eg_candidate_free);
        } else {
            auto n = text(k.at("name")[0]);
            if (ctor == 3) party = image = "";
            if (ctor == 4) image = "";
            C(eg_candidate_new_with_extras(Txt(id), n, Txt(party), Txt(image), wi, &to));
        }
    }
    vector<H<eg_contest_description_t>> contests;
    for (auto &x : m.at("contests")) contests.push_back(contest(x));
    vector<H<eg_ballot_style_t>> styles;
    for (auto &s : m.at("styles")) {
        styles.emplace_back(eg_ballot_style_free);
        if (s.value("ctor", 0) == 1) C(eg_ballot_style_new(Txt(s.at("id")), Txts(s.at("gps")), s.at("gps").size(), &styles.back()));
        else
            C(eg_ballot_style_new_with_parties(Txt(s.at("id")), Txts(s.at("gps")), s.at("gps").size(), Txts(s.at("parties")),
                                               s.at("parties").size(), Txt(s.at("image")), &styles.back()));
    }
    H<eg_election_manifest_t> r(eg_election_manifest_free);
    auto type = (eg_election_type_t)m.at("type").get<int>();
    if (m.at("name").empty())
        C(eg_election_manifest_new(Txt(m.at("scope")), type, (uint64_t)t0 * 1000, (uint64_t)t1 * 1000, raw(gps).data(), gps.size(),
                                   raw(parties).data(), parties.size(), raw(cands).data(), cands.size(), raw(contests).data(),
                                   contests.size(), raw(styles).data(), styles.size(), &r));
    else {
        auto n = text(m.at("name")[0]);
        auto k = contact(m.at("contact")[0]);
        C(eg_election_manifest_new_with_contact(Txt(m.at("scope")), type, (uint64_t)t0 * 1000, (uint64_t)t1 * 1000, raw(gps).data(),
                                                gps.size(), raw(parties).data(), parties.size(), raw(cands).data(), cands.size(),
                                                raw(contests).data(), contests.size(), raw(styles).data(), styles.size(), n, k, &r));
    }
    return r;
}

// ---- reading
static json textJ(eg_internationalized_text_t *t)
{
    json r = json::array();
    uint64_t n = V_(eg_internationalized_text_get_text_size(t));
    for (uint64_t i = 0; i < n; i++) {
        auto *x = ref(eg_internationalized_text_get_text_at_index, t, i);
        r.push_back({{"v", cs(eg_language_get_value, x)}, {"l", cs(eg_language_get_language, x)}});
    }
    return r;
}
static json optTextJ(eg_internationalized_text_t *t) { return t ? json::array({textJ(t)}) : json::array(); }
static json annJ(eg_internationalized_text_t *h) // the header's name for the type
{
    auto *x = (eg_annotated_string_t *)h;
    return {{"a", cs(eg_annotated_string_get_annotation, x)}, {"v", cs(eg_annotated_string_get_value, x)}};
}
static json contactJ(eg_contact_information_t *c)
{
    if (!c) return json::array();
    json addr = json::array(), em = json::array(), ph = json::array();
    for (uint64_t i = 0, n = V_(eg_contact_information_get_address_line_size(c)); i < n; i++)
        addr.push_back(cs(eg_contact_information_get_address_line_at_index, c, i));
    for (uint64_t i = 0, n = V_(eg_contact_information_get_email_line_size(c)); i < n; i++)
        em.push_back(annJ(ref(eg_contact_information_get_email_line_at_index, c, i)));
    for (uint64_t i = 0, n = V_(eg_contact_information_get_phone_line_size(c)); i < n; i++)
        ph.push_back(annJ(ref(eg_contact_information_get_phone_line_at_index, c, i)));
    return json::array({{{"name", cs(eg_contact_information_get_name, c)}, {"addr", addr}, {"email", em}, {"phone", ph}}});
}
static json unitJ(eg_geopolitical_unit_t *g)
{
    auto *k = reinterpret_cast<GeopoliticalUnit *>(g)->getContactInformation(); // no getter in C
    return {{"id", cs(eg_geopolitical_unit_get_object_id, g)}, {"name", cs(eg_geopolitical_unit_get_name, g)},
            {"type", (int)V_(get_geopolitical_unit_get_type(g))}, {"contact", contactJ((eg_contact_information_t *)k)}};
}
static json candJ(eg_candidate_t *k)
{
    string id = cs(eg_candidate_get_object_id, k);
    if (cs(eg_candidate_get_candidate_id, k) != id) throw std::runtime_error("candidate id");
    return {{"id", id}, {"name", optTextJ(ref(eg_candidate_get_name, k))}, {"party", cs(eg_candidate_get_party_id, k)},
            {"image", cs(eg_candidate_get_image_uri, k)}, {"wi", V_(eg_candidate_get_is_write_in(k))}};
}
static json styleJ(eg_ballot_style_t *s)
{
    json g = json::array(), p = json::array();
    for (uint64_t i = 0, n = V_(eg_ballot_style_get_geopolitical_unit_ids_size(s)); i < n; i++)
        g.push_back(cs(eg_ballot_style_get_geopolitical_unit_id_at_index, s, i));
    for (uint64_t i = 0, n = V_(eg_ballot_style_get_party_ids_size(s)); i < n; i++)
        p.push_back(cs(eg_ballot_style_get_party_id_at_index, s, i));
    return {{"id", cs(eg_ballot_style_get_object_id, s)}, {"gps", g}, {"parties", p}, {"image", cs(eg_ballot_style_get_image_uri, s)}};
}
static json selJ(eg_selection_description_t *s)
{
    return {{"id", cs(eg_selection_description_get_object_id, s)}, {"cand", cs(eg_selection_description_get_candidate_id, s)},
            {"seq", dec(V_(eg_selection_description_get_sequence_order(s)))}};
}
static json contestJ(eg_contest_description_t *c)
{
    json s = json::array();
    for (uint64_t i = 0, n = V_(eg_contest_description_get_selections_size(c)); i < n; i++)
        s.push_back(selJ(ref(eg_contest_description_get_selection_at_index, c, i)));
    return {{"id", cs(eg_contest_description_get_object_id, c)}, {"dist", cs(eg_contest_description_get_electoral_district_id, c)},
            {"seq", dec(V_(eg_contest_description_get_sequence_order(c)))}, {"vv", (int)V_(eg_contest_description_get_vote_variation(c))},
            {"ne", V_(eg_contest_description_get_number_elected(c))}, {"va", V_(eg_contest_description_get_votes_allowed(c))},
            {"name", cs(eg_contest_description_get_name, c)}, {"title", optTextJ(ref(eg_contest_description_get_ballot_title, c))},
            {"sub", optTextJ(ref(eg_contest_description_get_ballot_subtitle, c))}, {"sel", s}};
}
static json partyJ(eg_party_t *p)
{
    auto *n = ref(eg_party_get_name, p);
    return {{"id", cs(eg_party_get_object_id, p)}, {"name", n ? textJ(n) : json::array()}, {"ab", cs(eg_party_get_abbreviation, p)},
            {"color", cs(eg_party_get_color, p)}, {"logo", cs(eg_party_get_logo_uri, p)}};
}
#define LIST(to, handle, size, at, f)                                   \
    json to = json::array();                                            \
    for (uint64_t i_ = 0, n_ = V_(size(handle)); i_ < n_; i_++) to.push_back(f(ref(at, handle, i_)))
static json manifestJ(eg_election_manifest_t *m)
{
    LIST(gps, m, eg_election_manifest_get_geopolitical_units_size, eg_election_manifest_get_geopolitical_unit_at_index, unitJ);
    LIST(parties, m, eg_election_manifest_get_parties_size, eg_election_manifest_get_party_at_index, partyJ);
    LIST(cands, m, eg_election_manifest_get_candidates_size, eg_election_manifest_get_candidate_at_index, candJ);
    LIST(contests, m, eg_election_manifest_get_contests_size, eg_election_manifest_get_contest_at_index, contestJ);
    LIST(styles, m, eg_election_manifest_get_ballot_styles_size, eg_election_manifest_get_ballot_style_at_index, styleJ);
    return {{"scope", cs(eg_election_manifest_get_election_scope_id, m)}, {"type", (int)V_(eg_election_manifest_get_type(m))},
            {"start", iso(V_(eg_election_manifest_get_start_date(m)))}, {"end", iso(V_(eg_election_manifest_get_end_date(m)))},
            {"gps", gps}, {"parties", parties}, {"cands", cands}, {"contests", contests}, {"styles", styles},
            {"name", optTextJ(ref(eg_election_manifest_get_name, m))}, {"contact", contactJ(ref(eg_election_manifest_get_contact_info, m))}};
}
static string unitH(eg_geopolitical_unit_t *x) { return newQ(eg_geopolitical_unit_crypto_hash, x); }
static string partyH(eg_party_t *x) { return newQ(eg_party_crypto_hash, x); }
static string candH(eg_candidate_t *x) { return newQ(eg_candidate_crypto_hash, x); }
static string contestH(eg_contest_description_t *x) { return newQ(eg_contest_description_crypto_hash, x); }
static string styleH(eg_ballot_style_t *x) { return newQ(eg_ballot_style_crypto_hash, x); }
static string selH(eg_selection_description_t *x) { return newQ(eg_selection_description_crypto_hash, x); }
static string langH(eg_language_t *x) { return newQ(eg_language_crypto_hash, x); }
static string annH(eg_internationalized_text_t *x) { return newQ(eg_annotated_string_crypto_hash, (eg_annotated_string_t *)x); }
static json aboutJ(eg_election_manifest_t *m)
{
    json cvalid = json::array(), sh = json::array();
    for (uint64_t i = 0, n = V_(eg_election_manifest_get_contests_size(m)); i < n; i++) {
        auto *x = ref(eg_election_manifest_get_contest_at_index, m, i);
        cvalid.push_back(reinterpret_cast<ContestDescription *>(x)->isValid());
        LIST(s, x, eg_contest_description_get_selections_size, eg_contest_description_get_selection_at_index, selH);
        sh.push_back(s);
    }
    LIST(gh, m, eg_election_manifest_get_geopolitical_units_size, eg_election_manifest_get_geopolitical_unit_at_index, unitH);
    LIST(ph, m, eg_election_manifest_get_parties_size, eg_election_manifest_get_party_at_index, partyH);
    LIST(kh, m, eg_election_manifest_get_candidates_size, eg_election_manifest_get_candidate_at_index, candH);
    LIST(ch, m, eg_election_manifest_get_contests_size, eg_election_manifest_get_contest_at_index, contestH);
    LIST(th, m, eg_election_manifest_get_ballot_styles_size, eg_election_manifest_get_ballot_style_at_index, styleH);
    // the parts of name and contact
    json x = json::array();
    auto *name = ref(eg_election_manifest_get_name, m);
    auto *k = ref(eg_election_manifest_get_contact_info, m);
    if (name && k) {
        LIST(lh, name, eg_internationalized_text_get_text_size, eg_internationalized_text_get_text_at_index, langH);
        LIST(eh, k, eg_contact_information_get_email_line_size, eg_contact_information_get_email_line_at_index, annH);
        LIST(fh, k, eg_contact_information_get_phone_line_size, eg_contact_information_get_phone_line_at_index, annH);
        H<eg_element_mod_q_t> nh(eg_element_mod_q_free);
        C(eg_intertnationalized_text_crypto_hash((eg_language_t *)name, &nh));
        x.push_back({{"name", cQ(nh)}, {"langs", lh}, {"contact", newQ(eg_contact_information_crypto_hash, k)}, {"email", eh}, {"phone", fh}});
    }
    return {{"hash", newQ(eg_election_manifest_crypto_hash, m)}, {"valid", V_(eg_election_manifest_is_valid(m))}, {"cvalid", cvalid},
            {"d", manifestJ(m)}, {"gh", gh}, {"ph", ph}, {"kh", kh}, {"ch", ch}, {"sh", sh}, {"th", th}, {"x", x}};
}
OPC(mf_new)
{
    auto h = cManifest(a.at("m"));
    json r = aboutJ(h);
    keep<Manifest>(c, a.at("n"), std::move(h));
    return r;
}
OPC(mf_lite)
{
    auto h = cManifest(a.at("m"));
    return {{"hash", newQ(eg_election_manifest_crypto_hash, h.p)}, {"valid", V_(eg_election_manifest_is_valid(h))}};
}
OPC(ct_lite)
{
    auto h = contest(a.at("c"));
    return {{"hash", newQ(eg_contest_description_crypto_hash, h.p)}, {"valid", h.as<ContestDescription>().isValid()}};
}
OPC(mf_trip)
{
    auto *m = ash<eg_election_manifest_t>(c.get<Manifest>(a.at("n")));
    string fmt = a.at("fmt"), text;
    vector<uint8_t> bytes;
    C_WRITE3(eg_election_manifest, m, fmt, text, bytes);
    auto h = C_READ3(eg_election_manifest, fmt, text, bytes);
    json r = aboutJ(h);
    keep<Manifest>(c, a.at("to"), std::move(h));
    return r;
}
// ---- internal manifests
static json withJ(eg_contest_description_with_placeholders_t *w)
{
    auto *base = (eg_contest_description_t *)w;
    auto asSel = [](eg_contest_description_with_placeholders_t *s) { return selJ((eg_selection_description_t *)s); }; // the header's name for the type
    LIST(ph, w, eg_contest_description_with_placeholders_get_placeholders_size, eg_contest_description_with_placeholders_get_placeholder_at_index, asSel);
    return {{"c", contestJ(base)}, {"ph", ph}, {"hash", contestH(base)}};
}
json cDumpInternal(eg_internal_manifest_t *m)
{
    LIST(gps, m, eg_internal_manifest_get_geopolitical_units_size, eg_internal_manifest_get_geopolitical_unit_at_index, unitJ);
    LIST(contests, m, eg_internal_manifest_get_contests_size, eg_internal_manifest_get_contest_at_index, withJ);
    LIST(styles, m, eg_internal_manifest_get_ballot_styles_size, eg_internal_manifest_get_ballot_style_at_index, styleJ);
    json cands = json::array();
    for (auto &w : reinterpret_cast<InternalManifest *>(m)->getCandidates()) cands.push_back(candJ(ash<eg_candidate_t>(w.get())));
    return {{"mh", refQ(eg_internal_manifest_get_manifest_hash, m)}, {"gps", gps}, {"cands", cands}, {"styles", styles}, {"contests", contests}};
}
OPC(im_new)
{
    H<eg_internal_manifest_t> h(eg_internal_manifest_free);
    C(eg_internal_manifest_new(ash<eg_election_manifest_t>(c.get<Manifest>(a.at("m"))), &h));
    json r = {{"d", cDumpInternal(h)}};
    keep<InternalManifest>(c, a.at("n"), std::move(h));
    return r;
}
OPC(im_trip)
{
    auto *m = ash<eg_internal_manifest_t>(c.get<InternalManifest>(a.at("n")));
    string fmt = a.at("fmt"), text;
    vector<uint8_t> bytes;
    C_WRITE3(eg_internal_manifest, m, fmt, text, bytes);
    auto h = C_READ3(eg_internal_manifest, fmt, text, bytes);
    json r = {{"d", cDumpInternal(h)}};
    keep<InternalManifest>(c, a.at("to"), std::move(h));
    return r;
}
OPC(im_for)
{
    auto &m = c.get<InternalManifest>(a.at("n"));
    json r = json::array();
    eg_ballot_style_t *st = nullptr;
    C(eg_internal_manifest_get_ballot_style(ash<eg_internal_manifest_t>(m), Txt(a.at("style")), &st));
    json res = {{"known", st != nullptr && cs(eg_ballot_style_get_object_id, st) == a.at("style").get<string>()}};
    for (auto &w : m.getContestsFor(a.at("style").get<string>())) r.push_back(withJ(ash<eg_contest_description_with_placeholders_t>(w.get())));
    res["cs"] = r;
    return res;
}
OPC(im_lookup)
{
    auto *m = ash<eg_internal_manifest_t>(c.get<InternalManifest>(a.at("n")));
    json found = json::array(), isph = json::array();
    for (uint64_t i = 0, n = V_(eg_internal_manifest_get_contests_size(m)); i < n; i++) {
        auto *w = ref(eg_internal_manifest_get_contest_at_index, m, i);
        json f = json::array(), p = json::array();
        auto one = [&](eg_selection_description_t *s) {
            eg_selection_description_t *got = nullptr;
            C(eg_contest_description_with_placeholders_selection_for_id(w, Txt(cs(eg_selection_description_get_object_id, s)), &got));
            f.push_back(selJ(got));
            p.push_back(V_(eg_contest_description_with_placeholders_is_placeholder(w, s)));
        };
        auto *base = (eg_contest_description_t *)w;
        for (uint64_t k = 0, e = V_(eg_contest_description_get_selections_size(base)); k < e; k++)
            one(ref(eg_contest_description_get_selection_at_index, base, k));
        for (uint64_t k = 0, e = V_(eg_contest_description_with_placeholders_get_placeholders_size(w)); k < e; k++)
            one((eg_selection_description_t *)ref(eg_contest_description_with_placeholders_get_placeholder_at_index, w, k));
        found.push_back(f);
        isph.push_back(p);
        eg_selection_description_t *got = nullptr;
        if (V_(eg_contest_description_with_placeholders_selection_for_id(w, Txt("no such selection"), &got)) == ELECTIONGUARD_STATUS_SUCCESS)
            throw std::runtime_error("unknown selection was found");
    }
    return {{"found", found}, {"isph", isph}};
}
// a contest with given placeholders, as an application may describe one itself
OPC(wp_new)
{
    auto &k = a.at("c");
    string id = k.at("id"), dist = k.at("dist"), name = k.at("name");
    uint64_t seq = u64(k.at("seq")), ne = u64(k.at("ne")), va = u64(k.at("va"));
    auto vv = (eg_vote_variation_type_t)k.at("vv").get<int>();
    auto ss = sels(k.at("sel")), ph = sels(a.at("ph"));
    H<eg_contest_description_with_placeholders_t> r(eg_contest_description_with_placeholders_free);
    switch (a.at("ctor").get<int>()) {
        case 0:
            C(eg_contest_description_with_placeholders_new(Txt(id), Txt(dist), seq, vv, ne, Txt(name), raw(ss).data(), ss.size(), raw(ph).data(),
                                                           ph.size(), &r));
            break;
        case 1: {
            auto t = text(k.at("title")[0]), s = text(k.at("sub")[0]);
            C(eg_contest_description_with_placeholders_new_with_title(Txt(id), Txt(dist), seq, vv, ne, va, Txt(name), t, s, raw(ss).data(),
                                                                      ss.size(), raw(ph).data(), ph.size(), &r));
            break;
        }
        case 2:
            C(eg_contest_description_with_placeholders_new_with_parties(Txt(id), Txt(dist), seq, vv, ne, Txt(name), raw(ss).data(), ss.size(),
                                                                        Txts(json::array({"party-1"})), 1, raw(ph).data(), ph.size(), &r));
            break;
        default: {
            auto t = text(k.at("title")[0]), s = text(k.at("sub")[0]);
            C(eg_contest_description_with_placeholders_new_with_title_and_parties(
              Txt(id), Txt(dist), seq, vv, ne, va, Txt(name), t, s, raw(ss).data(), ss.size(), Txts(json::array({"party-1", "party-2"})), 2,
              raw(ph).data(), ph.size(), &r));
        }
    }
    ss.clear();
    ph.clear();
    return {{"d", withJ(r)}};
}
// ---- contexts and devices
static json contextJ(eg_ciphertext_election_context_t *x)
{
    auto &cpp = *reinterpret_cast<CiphertextElectionContext *>(x); // no getters in C for the numbers
    H<eg_linked_list_t> l(eg_linked_list_free);
    C(eg_ciphertext_election_context_get_extended_data(x, &l));
    map<string, string> ext;
    for (uint64_t i = 0, n = V_(eg_linked_list_get_count(l)); i < n; i++) {
        char *k = nullptr, *v = nullptr, *w = nullptr;
        C(eg_linked_list_get_element_at(l, i, &k, &v));
        C(eg_linked_list_get_value_at(l, i, &w));
        if (string(v) != w) throw std::runtime_error("value");
        ext[k] = v;
    }
    json e = json::array();
    for (auto &p : ext) e.push_back({{"k", p.first}, {"v", p.second}});
    auto *cfg = ref(eg_ciphertext_election_context_get_configuration, x);
    bool over = false;
    uint64_t max = 0;
    C(eg_ciphertext_election_context_config_get_allowed_overvotes(cfg, &over));
    C(eg_ciphertext_election_context_config_get_max_ballots(cfg, &max));
    return {{"n", dec(cpp.getNumberOfGuardians())}, {"k", dec(cpp.getQuorum())}, {"pk", refP(eg_ciphertext_election_context_get_elgamal_public_key, x)},
            {"com", refQ(eg_ciphertext_election_context_get_commitment_hash, x)}, {"mh", refQ(eg_ciphertext_election_context_get_manifest_hash, x)},
            {"base", refQ(eg_ciphertext_election_context_get_crypto_base_hash, x)},
            {"xbase", refQ(eg_ciphertext_election_context_get_crypto_extended_base_hash, x)}, {"over", over}, {"max", dec(max)}, {"ext", e}};
}
OPC(cx_new)
{
    uint64_t n = u64(a.at("n")), k = u64(a.at("k"));
    string pk = a.at("pk"), com = a.at("com"), mh = a.at("mh");
    H<eg_linked_list_t> ext(eg_linked_list_free);
    C(eg_linked_list_new(&ext));
    for (auto &x : a.at("ext")) C(eg_linked_list_append(ext, Txt(x.at("k")), Txt(x.at("v"))));
    H<eg_context_configuration_t> cfg(eg_ciphertext_election_context_config_free);
    C(eg_ciphertext_election_context_config_make(a.at("over").get<bool>(), u64(a.at("max")), &cfg));
    auto p = mkCP(pk);
    auto q1 = mkCQ(com), q2 = mkCQ(mh);
    H<eg_ciphertext_election_context_t> r(eg_ciphertext_election_context_free);
    switch (a.at("ctor").get<int>()) {
        case 0:
            C(eg_ciphertext_election_context_make(n, k, p, q1, q2, &r));
            break;
        case 1:
            C(eg_ciphertext_election_context_make_with_configuration(n, k, p, q1, q2, cfg, &r));
            break;
        case 2:
            C(eg_ciphertext_election_context_make_with_extended_data(n, k, p, q1, q2, ext, &r));
            break;
        case 3:
            C(eg_ciphertext_election_context_make_with_configuration_and_extended_data(n, k, p, q1, q2, cfg, ext, &r));
            break;
        case 4:
            C(eg_ciphertext_election_context_make_from_hex(n, k, Txt(pk), Txt(com), Txt(mh), &r));
            break;
        case 6:
            C(eg_ciphertext_election_context_make_from_hex_with_extended_data(n, k, Txt(pk), Txt(com), Txt(mh), ext, &r));
            break;
        default:
            r = own(mkContext(a), eg_ciphertext_election_context_free);
    }
    p.reset(), q1.reset(), q2.reset(), ext.reset(), cfg.reset();
    json d = {{"d", contextJ(r)}};
    keep<CiphertextElectionContext>(c, a.at("name"), std::move(r));
    return d;
}
OPC(cx_trip)
{
    auto *x = ash<eg_ciphertext_election_context_t>(c.get<CiphertextElectionContext>(a.at("name")));
    auto h = a.at("fmt") == "bson" ? fromBytes(eg_ciphertext_election_context_from_bson, eg_ciphertext_election_context_free,
                                               toBytes(eg_ciphertext_election_context_to_bson, x))
                                   : fromJson(eg_ciphertext_election_context_from_json, eg_ciphertext_election_context_free,
                                              toJson(eg_ciphertext_election_context_to_json, x));
    json d = {{"d", contextJ(h)}};
    keep<CiphertextElectionContext>(c, a.at("to"), std::move(h));
    return d;
}
static json deviceJ(eg_encryption_device_t *x)
{
    auto &d = *reinterpret_cast<EncryptionDevice *>(x);
    // the hash is handed out as a new element
    H<eg_element_mod_q_t> h(eg_element_mod_q_free);
    C(eg_encryption_device_get_hash(x, &h));
    return {{"dev", dec(d.getDeviceUuid())}, {"ses", dec(d.getSessionUuid())}, {"launch", dec(d.getLaunchCode())}, {"loc", d.getLocation()}, {"hash", cQ(h)}};
}
OPC(dv_new)
{
    H<eg_encryption_device_t> h(eg_encryption_device_free);
    C(eg_encryption_device_new(u64(a.at("dev")), u64(a.at("ses")), u64(a.at("launch")), Txt(a.at("loc")), &h));
    json d = {{"d", deviceJ(h)}};
    H<eg_element_mod_q_t> q(eg_element_mod_q_free);
    C(eg_ballot_code_get_hash_for_device(u64(a.at("dev")), u64(a.at("ses")), u64(a.at("launch")), Txt(a.at("loc")), &q));
    if (cQ(q) != d["d"]["hash"].get<string>()) throw std::runtime_error("device hash");
    keep<EncryptionDevice>(c, a.at("name"), std::move(h));
    return d;
}
OPC(dv_trip)
{
    auto *x = ash<eg_encryption_device_t>(c.get<EncryptionDevice>(a.at("name")));
    H<eg_encryption_device_t> h(eg_encryption_device_free);
    if (a.at("fmt") == "json") h = fromJson(eg_encryption_device_from_json, eg_encryption_device_free, toJson(eg_encryption_device_to_json, x));
    else
        h = own(EncryptionDevice::fromBson(c.get<EncryptionDevice>(a.at("name")).toBson()), eg_encryption_device_free);
    json d = {{"d", deviceJ(h)}};
    keep<EncryptionDevice>(c, a.at("to"), std::move(h));
    return d;
}
OPC(md_new)
{
    H<eg_encryption_mediator_t> h(eg_encryption_mediator_free);
    C(eg_encryption_mediator_new(ash<eg_internal_manifest_t>(c.get<InternalManifest>(a.at("im"))),
                                 ash<eg_ciphertext_election_context_t>(c.get<CiphertextElectionContext>(a.at("cx"))),
                                 ash<eg_encryption_device_t>(c.get<EncryptionDevice>(a.at("dv"))), &h));
    keep<EncryptionMediator>(c, a.at("name"), std::move(h));
    return json::object();
}
