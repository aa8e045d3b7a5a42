// Manifests, contexts and devices (P12, P13, P14, P18).
#include "manifest.hpp"
#include <ctime>
using namespace electionguard;
using std::make_unique;
using std::reference_wrapper;

static unique_ptr<InternationalizedText> mkText(const json &t)
{
    vector<unique_ptr<Language>> v;
    for (auto &x : t) v.push_back(make_unique<Language>(x.at("v").get<string>(), x.at("l").get<string>()));
    return make_unique<InternationalizedText>(std::move(v));
}
static unique_ptr<InternationalizedText> optText(const json &o) { return o.empty() ? nullptr : mkText(o[0]); }
static vector<unique_ptr<AnnotatedString>> mkAnn(const json &l)
{
    vector<unique_ptr<AnnotatedString>> v;
    for (auto &x : l) v.push_back(make_unique<AnnotatedString>(x.at("a").get<string>(), x.at("v").get<string>()));
    return v;
}
static unique_ptr<ContactInformation> mkContact(const json &c)
{
    return make_unique<ContactInformation>(c.at("addr").get<vector<string>>(), mkAnn(c.at("email")), mkAnn(c.at("phone")),
                                           c.at("name").get<string>());
}
static unique_ptr<ContactInformation> optContact(const json &o) { return o.empty() ? nullptr : mkContact(o[0]); }
static std::chrono::system_clock::time_point mkTime(const string &iso)
{
    struct tm t;
    memset(&t, 0, sizeof t);
    int y, mo, d, h, mi, s;
    if (sscanf(iso.c_str(), "%d-%d-%dT%d:%d:%dZ", &y, &mo, &d, &h, &mi, &s) != 6) throw std::logic_error("bad time " + iso);
    t.tm_year = y - 1900, t.tm_mon = mo - 1, t.tm_mday = d, t.tm_hour = h, t.tm_min = mi, t.tm_sec = s;
    return std::chrono::system_clock::from_time_t(timegm(&t));
}
static string isoTime(const std::chrono::system_clock::time_point &p)
{
    time_t t = std::chrono::system_clock::to_time_t(p);
    struct tm g;
    gmtime_r(&t, &g);
    char b[64];
    snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02dZ", g.tm_year + 1900, g.tm_mon + 1, g.tm_mday, g.tm_hour, g.tm_min, g.tm_sec);
    return b;
}
static vector<unique_ptr<SelectionDescription>> mkSels(const json &l)
{
    vector<unique_ptr<SelectionDescription>> v;
    for (auto &s : l)
        v.push_back(make_unique<SelectionDescription>(s.at("id").get<string>(), s.at("cand").get<string>(), u64(s.at("seq"))));
    return v;
}
unique_ptr<ContestDescription> mkContest(const json &c)
{
    string id = c.at("id"), dist = c.at("dist"), name = c.at("name");
    uint64_t seq = u64(c.at("seq")), ne = u64(c.at("ne")), va = u64(c.at("va"));
    auto vv = (VoteVariationType)c.at("vv").get<int>();
    switch (c.value("ctor", 0)) {
        case 1:
            return make_unique<ContestDescription>(id, dist, seq, vv, ne, name, mkSels(c.at("sel")));
        case 2:
            return make_unique<ContestDescription>(id, dist, seq, vv, ne, name, mkSels(c.at("sel")), vector<string>{"party-1"});
        case 3:
            return make_unique<ContestDescription>(id, dist, seq, vv, ne, va, name, optText(c.at("title")), optText(c.at("sub")),
                                                   mkSels(c.at("sel")), vector<string>{"party-1", "party-2"});
        default:
            return make_unique<ContestDescription>(id, dist, seq, vv, ne, va, name, optText(c.at("title")), optText(c.at("sub")),
                                                   mkSels(c.at("sel")));
    }
}
unique_ptr<Manifest> mkManifest(const json &m)
{
    vector<unique_ptr<GeopoliticalUnit>> gps;
    for (auto &g : m.at("gps")) {
        auto t = (ReportingUnitType)g.at("type").get<int>();
        if (g.at("contact").empty()) gps.push_back(make_unique<GeopoliticalUnit>(g.at("id").get<string>(), g.at("name").get<string>(), t));
        else
            gps.push_back(make_unique<GeopoliticalUnit>(g.at("id").get<string>(), g.at("name").get<string>(), t, optContact(g.at("contact"))));
    }
    vector<unique_ptr<Party>> parties;
    for (auto &p : m.at("parties")) {
        string id = p.at("id"), ab = p.at("ab"), color = p.at("color"), logo = p.at("logo");
        switch (p.value("ctor", 0)) {
            case 1:
                parties.push_back(make_unique<Party>(id));
                break;
            case 2:
                parties.push_back(make_unique<Party>(id, ab));
                break;
            case 3:
                parties.push_back(make_unique<Party>(id, ab, color, logo));
                break;
            case 4:
                parties.push_back(make_unique<Party>(id, nullptr, ab, color, logo));
                break;
            default:
                parties.push_back(make_unique<Party>(id, mkText(p.at("name")), ab, color, logo));
        }
    }
    vector<unique_ptr<Candidate>> cands;
    for (auto &c : m.at("cands")) {
        string id = c.at("id"), party = c.at("party"), image = c.at("image");
        bool wi = c.at("wi");
        switch (c.value("ctor", 0)) {
            case 1:
                cands.push_back(make_unique<Candidate>(id, wi));
                break;
            case 2:
                cands.push_back(make_unique<Candidate>(id, party, wi));
                break;
            case 3:
                cands.push_back(make_unique<Candidate>(id, optText(c.at("name")), wi));
                break;
            case 4:
                cands.push_back(make_unique<Candidate>(id, optText(c.at("name")), party, wi));
                break;
            default:
                cands.push_back(make_unique<Candidate>(id, optText(c.at("name")), party, image, wi));
        }
    }
    vector<unique_ptr<ContestDescription>> contests;
    for (auto &c : m.at("contests")) contests.push_back(mkContest(c));
    vector<unique_ptr<BallotStyle>> styles;
    for (auto &s : m.at("styles")) {
        if (s.value("ctor", 0) == 1) styles.push_back(make_unique<BallotStyle>(s.at("id").get<string>(), s.at("gps").get<vector<string>>()));
        else
            styles.push_back(make_unique<BallotStyle>(s.at("id").get<string>(), s.at("gps").get<vector<string>>(),
                                                      s.at("parties").get<vector<string>>(), s.at("image").get<string>()));
    }
    if (m.at("name").empty() && m.at("contact").empty())
        return make_unique<Manifest>(m.at("scope").get<string>(), (ElectionType)m.at("type").get<int>(), mkTime(m.at("start")),
                                     mkTime(m.at("end")), std::move(gps), std::move(parties), std::move(cands), std::move(contests),
                                     std::move(styles));
    return make_unique<Manifest>(m.at("scope").get<string>(), (ElectionType)m.at("type").get<int>(), mkTime(m.at("start")),
                                 mkTime(m.at("end")), std::move(gps), std::move(parties), std::move(cands), std::move(contests),
                                 std::move(styles), optText(m.at("name")), optContact(m.at("contact")));
}

static json textJ(const InternationalizedText &t)
{
    json r = json::array();
    for (auto &x : t.getText()) r.push_back({{"v", x.get().getValue()}, {"l", x.get().getLanguage()}});
    return r;
}
static json optTextJ(const InternationalizedText *t) { return t ? json::array({textJ(*t)}) : json::array(); }
static json annJ(const vector<reference_wrapper<AnnotatedString>> &l)
{
    json r = json::array();
    for (auto &x : l) r.push_back({{"a", x.get().getAnnotation()}, {"v", x.get().getValue()}});
    return r;
}
static json contactJ(const ContactInformation *c)
{
    if (!c) return json::array();
    return json::array({{{"name", c->getName()}, {"addr", c->getAddressLine()}, {"email", annJ(c->getEmail())}, {"phone", annJ(c->getPhone())}}});
}
static json selJ(const SelectionDescription &s)
{
    return {{"id", s.getObjectId()}, {"cand", s.getCandidateId()}, {"seq", dec(s.getSequenceOrder())}};
}
static json selsJ(const vector<reference_wrapper<SelectionDescription>> &l)
{
    json r = json::array();
    for (auto &x : l) r.push_back(selJ(x.get()));
    return r;
}
json dumpContest(const ContestDescription &c)
{
    return {{"id", c.getObjectId()}, {"dist", c.getElectoralDistrictId()}, {"seq", dec(c.getSequenceOrder())},
            {"vv", (int)c.getVoteVariation()}, {"ne", c.getNumberElected()}, {"va", c.getVotesAllowed()}, {"name", c.getName()},
            {"title", optTextJ(c.getBallotTitle())}, {"sub", optTextJ(c.getBallotSubtitle())}, {"sel", selsJ(c.getSelections())}};
}
static json gpsJ(const vector<reference_wrapper<GeopoliticalUnit>> &l)
{
    json r = json::array();
    for (auto &w : l) {
        auto &g = w.get();
        r.push_back({{"id", g.getObjectId()}, {"name", g.getName()}, {"type", (int)g.getType()}, {"contact", contactJ(g.getContactInformation())}});
    }
    return r;
}
static json candsJ(const vector<reference_wrapper<Candidate>> &l)
{
    json r = json::array();
    for (auto &w : l) {
        auto &g = w.get();
        r.push_back({{"id", g.getObjectId()}, {"name", optTextJ(g.getName())}, {"party", g.getPartyId()}, {"image", g.getImageUri()}, {"wi", g.isWriteIn()}});
    }
    return r;
}
static json stylesJ(const vector<reference_wrapper<BallotStyle>> &l)
{
    json r = json::array();
    for (auto &w : l) {
        auto &g = w.get();
        r.push_back({{"id", g.getObjectId()}, {"gps", g.getGeopoliticalUnitIds()}, {"parties", g.getPartyIds()}, {"image", g.getImageUri()}});
    }
    return r;
}
json dumpManifest(const Manifest &m)
{
    json contests = json::array(), parties = json::array();
    for (auto &w : m.getContests()) contests.push_back(dumpContest(w.get()));
    for (auto &w : m.getParties()) {
        auto &g = w.get();
        parties.push_back({{"id", g.getObjectId()}, {"name", g.getName() ? textJ(*g.getName()) : json::array()}, {"ab", g.getAbbreviation()},
                           {"color", g.getColor()}, {"logo", g.getLogoUri()}});
    }
    return {{"scope", m.getElectionScopeId()}, {"type", (int)m.getElectionType()}, {"start", isoTime(m.getStartDate())},
            {"end", isoTime(m.getEndDate())}, {"gps", gpsJ(m.getGeopoliticalUnits())}, {"parties", parties},
            {"cands", candsJ(m.getCandidates())}, {"contests", contests}, {"styles", stylesJ(m.getBallotStyles())},
            {"name", optTextJ(m.getName())}, {"contact", contactJ(m.getContactInformation())}};
}
json dumpWith(const ContestDescriptionWithPlaceholders &c)
{
    json r = {{"c", dumpContest(c)}, {"ph", selsJ(c.getPlaceholders())}, {"hash", hexQ(*c.crypto_hash())}};
    return r;
}
json dumpInternal(const InternalManifest &m)
{
    json contests = json::array();
    for (auto &w : m.getContests()) contests.push_back(dumpWith(w.get()));
    return {{"mh", hexQ(*m.getManifestHash())}, {"gps", gpsJ(m.getGeopoliticalUnits())}, {"cands", candsJ(m.getCandidates())},
            {"styles", stylesJ(m.getBallotStyles())}, {"contests", contests}};
}
template <typename T> static json hashes(const vector<reference_wrapper<T>> &l)
{
    json r = json::array();
    for (auto &x : l) r.push_back(hexQ(*x.get().crypto_hash()));
    return r;
}
static json aboutManifest(const Manifest &m)
{
    json cv = json::array(), sh = json::array();
    for (auto &w : m.getContests()) {
        cv.push_back(w.get().isValid());
        sh.push_back(hashes(w.get().getSelections()));
    }
    return {{"hash", hexQ(*m.crypto_hash())}, {"valid", m.isValid()}, {"cvalid", cv}, {"d", dumpManifest(m)},
            {"gh", hashes(m.getGeopoliticalUnits())}, {"ph", hashes(m.getParties())}, {"kh", hashes(m.getCandidates())},
            {"ch", hashes(m.getContests())}, {"sh", sh}, {"th", hashes(m.getBallotStyles())}};
}
OP(mf_new)
{
    auto &m = c.put(a.at("n"), mkManifest(a.at("m")));
    return aboutManifest(m);
}
OP(mf_lite)
{
    auto m = mkManifest(a.at("m"));
    return {{"hash", hexQ(*m->crypto_hash())}, {"valid", m->isValid()}};
}
OP(ct_lite)
{
    auto m = mkContest(a.at("c"));
    return {{"hash", hexQ(*m->crypto_hash())}, {"valid", m->isValid()}};
}
template <typename T> static unique_ptr<T> trip3(const T &x, const string &fmt)
{
    if (fmt == "bson") return T::fromBson(x.toBson());
    if (fmt == "msgpack") return T::fromMsgPack(x.toMsgPack());
    return T::fromJson(x.toJson());
}
template <typename T> static unique_ptr<T> trip2(const T &x, const string &fmt)
{
    if (fmt == "bson") return T::fromBson(x.toBson());
    return T::fromJson(x.toJson());
}
OP(mf_trip)
{
    auto &m = c.get<Manifest>(a.at("n"));
    auto &t = c.put(a.at("to"), trip3(m, a.at("fmt")));
    return aboutManifest(t);
}
// copies of the parts of a manifest
// as: each part assigned over its neighbour, mv: each part moved
template <class T, class V, class F> static void inTwo(const V &all, F show, json &as, json &mv)
{
    json a = json::array(), m = json::array();
    for (size_t i = 0; i < all.size(); i++) {
        const T &x = all[i].get(), &over = all[(i + 1) % all.size()].get();
        a.push_back(show(*assigned(x, over)));
        T tmp(x);
        T moved(std::move(tmp));
        m.push_back(show(moved));
    }
    as.push_back(a);
    mv.push_back(m);
}
OP(mf_copies)
{
    auto &m = c.get<Manifest>(a.at("n"));
    json r;
    auto gps = json::array(), ps = json::array(), ks = json::array(), cs = json::array(), ts = json::array(), cd = json::array();
    for (auto &w : m.getGeopoliticalUnits()) {
        GeopoliticalUnit x(w.get());
        gps.push_back(hexQ(*x.crypto_hash()));
    }
    for (auto &w : m.getParties()) {
        Party x(w.get());
        ps.push_back(hexQ(*x.crypto_hash()));
    }
    for (auto &w : m.getCandidates()) {
        Candidate x(w.get());
        ks.push_back(hexQ(*x.crypto_hash()));
    }
    for (auto &w : m.getContests()) {
        auto x = make_unique<ContestDescription>(w.get());
        ContestDescription y(*x);
        x.reset();
        cs.push_back(hexQ(*y.crypto_hash()));
        cd.push_back(dumpContest(y));
    }
    for (auto &w : m.getBallotStyles()) {
        BallotStyle x(w.get());
        ts.push_back(hexQ(*x.crypto_hash()));
    }
    json as = json::array(), mv = json::array();
    auto hashOf = [](const auto &x) { return json(hexQ(*x.crypto_hash())); };
    inTwo<GeopoliticalUnit>(m.getGeopoliticalUnits(), hashOf, as, mv);
    inTwo<Party>(m.getParties(), hashOf, as, mv);
    inTwo<Candidate>(m.getCandidates(), hashOf, as, mv);
    inTwo<ContestDescription>(m.getContests(), hashOf, as, mv);
    inTwo<BallotStyle>(m.getBallotStyles(), hashOf, as, mv);
    json sas = json::array(), smv = json::array();
    for (auto &w : m.getContests()) inTwo<SelectionDescription>(w.get().getSelections(), hashOf, sas, smv);
    return {{"gh", gps}, {"ph", ps}, {"kh", ks}, {"ch", cs}, {"th", ts}, {"cd", cd}, {"as", as}, {"mv", mv}, {"sas", sas}, {"smv", smv}};
}
// contests with their placeholders, assigned over their neighbours, and moved
OP(im_copies)
{
    json as = json::array(), mv = json::array();
    inTwo<ContestDescriptionWithPlaceholders>(c.get<InternalManifest>(a.at("n")).getContests(), [](const auto &x) { return dumpWith(x); }, as, mv);
    return {{"as", as.at(0)}, {"mv", mv.at(0)}};
}
OP(im_new)
{
    auto &m = c.put(a.at("n"), make_unique<InternalManifest>(c.get<Manifest>(a.at("m"))));
    return {{"d", dumpInternal(m)}};
}
OP(im_trip)
{
    auto &t = c.put(a.at("to"), trip3(c.get<InternalManifest>(a.at("n")), a.at("fmt")));
    return {{"d", dumpInternal(t)}};
}
OP(im_for)
{
    auto &m = c.get<InternalManifest>(a.at("n"));
    json r = json::array();
    auto *st = m.getBallotStyle(a.at("style").get<string>());
    json res = {{"known", st != nullptr}};
    for (auto &w : m.getContestsFor(a.at("style").get<string>())) r.push_back(dumpWith(w.get()));
    res["cs"] = r;
    return res;
}
// lookups in one contest of an internal manifest
OP(im_lookup)
{
    auto &m = c.get<InternalManifest>(a.at("n"));
    json found = json::array(), isph = json::array();
    for (auto &w : m.getContests()) {
        json f = json::array(), p = json::array();
        auto one = [&](SelectionDescription &s) {
            string id = s.getObjectId();
            f.push_back(selJ(w.get().selectionFor(id).get()));
            p.push_back(w.get().IsPlaceholder(s));
        };
        for (auto &s : w.get().getSelections()) one(s.get());
        for (auto &s : w.get().getPlaceholders()) one(s.get());
        found.push_back(f);
        isph.push_back(p);
        string no = "no such selection";
        try {
            w.get().selectionFor(no);
            throw std::runtime_error("unknown selection was found");
        } catch (const std::out_of_range &) {
        }
    }
    return {{"found", found}, {"isph", isph}};
}

// ---- context
unique_ptr<CiphertextElectionContext> mkContext(const json &a)
{
    uint64_t n = u64(a.at("n")), k = u64(a.at("k"));
    string pk = a.at("pk"), com = a.at("com"), mh = a.at("mh");
    std::unordered_map<string, string> ext;
    for (auto &x : a.at("ext")) ext[x.at("k").get<string>()] = x.at("v").get<string>();
    auto cfg = [&] { return ContextConfiguration::make(a.at("over").get<bool>(), u64(a.at("max"))); };
    switch (a.at("ctor").get<int>()) {
        case 0:
            return CiphertextElectionContext::make(n, k, mkP(pk), mkQ(com), mkQ(mh));
        case 1:
            return CiphertextElectionContext::make(n, k, mkP(pk), mkQ(com), mkQ(mh), cfg());
        case 2:
            return CiphertextElectionContext::make(n, k, mkP(pk), mkQ(com), mkQ(mh), ext);
        case 3:
            return CiphertextElectionContext::make(n, k, mkP(pk), mkQ(com), mkQ(mh), cfg(), ext);
        case 4:
            return CiphertextElectionContext::make(n, k, pk, com, mh);
        case 5:
            return CiphertextElectionContext::make(n, k, pk, com, mh, cfg());
        case 6:
            return CiphertextElectionContext::make(n, k, pk, com, mh, ext);
        default:
            return CiphertextElectionContext::make(n, k, pk, com, mh, cfg(), ext);
    }
}
json dumpContext(const CiphertextElectionContext &x)
{
    map<string, string> ext;
    for (auto &p : x.getExtendedData()) ext[p.first] = p.second;
    json e = json::array();
    for (auto &p : ext) e.push_back({{"k", p.first}, {"v", p.second}});
    return {{"n", dec(x.getNumberOfGuardians())}, {"k", dec(x.getQuorum())}, {"pk", hexP(*x.getElGamalPublicKey())},
            {"com", hexQ(*x.getCommitmentHash())}, {"mh", hexQ(*x.getManifestHash())}, {"base", hexQ(*x.getCryptoBaseHash())},
            {"xbase", hexQ(*x.getCryptoExtendedBaseHash())}, {"over", x.getConfiguration()->getAllowOverVotes()},
            {"max", dec(x.getConfiguration()->getMaxNumberOfBallots())}, {"ext", e}};
}
OP(cx_new) { return {{"d", dumpContext(c.put(a.at("name"), mkContext(a)))}}; }
OP(cx_trip) { return {{"d", dumpContext(c.put(a.at("to"), trip2(c.get<CiphertextElectionContext>(a.at("name")), a.at("fmt"))))}}; }

// ---- device and mediator
static json devJ(const EncryptionDevice &d)
{
    return {{"dev", dec(d.getDeviceUuid())}, {"ses", dec(d.getSessionUuid())}, {"launch", dec(d.getLaunchCode())}, {"loc", d.getLocation()},
            {"hash", hexQ(*d.getHash())}};
}
OP(dv_new)
{
    return {{"d", devJ(c.put(a.at("name"), make_unique<EncryptionDevice>(u64(a.at("dev")), u64(a.at("ses")), u64(a.at("launch")), a.at("loc").get<string>())))}};
}
OP(dv_trip) { return {{"d", devJ(c.put(a.at("to"), trip2(c.get<EncryptionDevice>(a.at("name")), a.at("fmt"))))}}; }
OP(md_new)
{
    c.put(a.at("name"), make_unique<EncryptionMediator>(c.get<InternalManifest>(a.at("im")), c.get<CiphertextElectionContext>(a.at("cx")),
                                                        c.get<EncryptionDevice>(a.at("dv"))));
    return json::object();
}
