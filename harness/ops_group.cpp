// Group arithmetic, conversions and a register machine over group elements (P06, P07, P08).
#include "core.hpp"
#include <atomic>
#include <sstream>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

using namespace electionguard;

void warmUp()
{
    auto e = mkQ("02");
    g_pow_p(*e);
}

static json V(const string &s) { return json{{"v", s}}; }
static json VB(bool b) { return json{{"v", b}}; }

OP(arith)
{
    string f = a.at("f");
    auto A = [&](int i) { return a.at("x").at(i).get<string>(); };
    if (f == "add_mod_p") return V(hexP(*add_mod_p(*mkP(A(0)), *mkP(A(1)))));
    if (f == "mul_mod_p") return V(hexP(*mul_mod_p(*mkP(A(0)), *mkP(A(1)))));
    if (f == "mod_p") return V(hexP(*mod_p(*mkP(A(0)))));
    if (f == "pow_pp") return V(hexP(*pow_mod_p(*mkP(A(0)), *mkP(A(1)))));
    if (f == "pow_pq") return V(hexP(*pow_mod_p(*mkP(A(0)), *mkQ(A(1)))));
    if (f == "pow_fixed") return V(hexP(*pow_mod_p(*mkP(A(0), true), *mkQ(A(1)))));
    if (f == "g_pow_pp") return V(hexP(*g_pow_p(*mkP(A(0)))));
    if (f == "g_pow_pq") return V(hexP(*g_pow_p(*mkQ(A(0)))));
    if (f == "add_mod_q") return V(hexQ(*add_mod_q(*mkQ(A(0)), *mkQ(A(1)))));
    if (f == "sub_mod_q") return V(hexQ(*sub_mod_q(*mkQ(A(0)), *mkQ(A(1)))));
    if (f == "a_plus_bc") return V(hexQ(*a_plus_bc_mod_q(*mkQ(A(0)), *mkQ(A(1)), *mkQ(A(2)))));
    if (f == "sub_from_q") return V(hexQ(*sub_from_q(*mkQ(A(0)))));
    if (f == "to_p") return V(hexP(*mkQ(A(0))->toElementModP()));
    if (f == "lt_p") return VB(*mkP(A(0)) < *mkP(A(1)));
    if (f == "lt_q") return VB(*mkQ(A(0)) < *mkQ(A(1)));
    if (f == "eq_p") return VB(*mkP(A(0)) == *mkP(A(1)));
    if (f == "eq_q") return VB(*mkQ(A(0)) == *mkQ(A(1)));
    if (f == "ne_p") return VB(*mkP(A(0)) != *mkP(A(1)));
    if (f == "ne_q") return VB(*mkQ(A(0)) != *mkQ(A(1)));
    if (f == "inbounds_p") return VB(mkP(A(0))->isInBounds());
    if (f == "inbounds_q") return VB(mkQ(A(0))->isInBounds());
    if (f == "residue") return VB(mkP(A(0))->isValidResidue());
    if (f == "add_list_q") {
        vector<unique_ptr<ElementModQ>> own;
        vector<std::reference_wrapper<ElementModQ>> v;
        for (auto &x : a.at("x")) own.push_back(mkQ(x));
        for (auto &x : own) v.push_back(*x);
        return V(hexQ(*add_mod_q(v)));
    }
    if (f == "mul_list") {
        // elements tagged "P..." or "Q..."
        vector<unique_ptr<ElementModQ>> oq;
        vector<unique_ptr<ElementModP>> op;
        vector<ElementModPOrQ> v;
        for (auto &x : a.at("x")) {
            string s = x;
            if (s[0] == 'q') {
                oq.push_back(mkQ(s.substr(1)));
                v.push_back(oq.back().get());
            } else {
                op.push_back(mkP(s.substr(1)));
                v.push_back(op.back().get());
            }
        }
        return V(hexP(*mul_mod_p(v)));
    }
    throw std::logic_error("unknown function " + f);
}

OP(constants)
{
    return {{"P", hexP(P())}, {"Q", hexQ(Q())}, {"G", hexP(G())}, {"R", hexP(R())},
            {"p0", hexP(ZERO_MOD_P())}, {"p1", hexP(ONE_MOD_P())}, {"p2", hexP(TWO_MOD_P())},
            {"q0", hexQ(ZERO_MOD_Q())}, {"q1", hexQ(ONE_MOD_Q())}, {"q2", hexQ(TWO_MOD_Q())}};
}

// threads: how many threads draw at the same time; together they draw n values
OP(rand)
{
    int n = a.at("n"), threads = a.value("threads", 1);
    bool q = a.at("d") == "q";
    vector<string> v(n);
    auto draw = [&](int t) {
        for (int i = t; i < n; i += threads)
            v[i] = q ? hexQ(*rand_q()) : hexP(*rand_p());
    };
    // forks: every other process draws as many values as this one, starting from its state
    int forks = a.value("forks", 0);
    vector<std::pair<pid_t, int>> kids;
    for (int k = 0; k < forks; k++) {
        int fd[2];
        if (pipe(fd) != 0) throw std::runtime_error("harness: pipe");
        pid_t pid = fork();
        if (pid < 0) throw std::runtime_error("harness: fork");
        if (pid == 0) {
            string out;
            for (int i = 0; i < n; i++)
                out += (q ? hexQ(*rand_q()) : hexP(*rand_p())) + "\n";
            for (size_t at = 0; at < out.size();) {
                auto w = write(fd[1], out.data() + at, out.size() - at);
                if (w <= 0) break;
                at += w;
            }
            _exit(0);
        }
        close(fd[1]);
        kids.emplace_back(pid, fd[0]);
    }
    vector<std::thread> th;
    for (int t = 1; t < threads; t++)
        th.emplace_back(draw, t);
    draw(0);
    for (auto &t : th)
        t.join();
    for (auto &[pid, fd] : kids) {
        string in;
        char buf[4096];
        for (ssize_t r; (r = read(fd, buf, sizeof buf)) > 0;)
            in.append(buf, r);
        close(fd);
        waitpid(pid, nullptr, 0);
        std::istringstream lines(in);
        for (string l; std::getline(lines, l);)
            v.push_back(l);
    }
    return {{"v", v}};
}

static json showP(ElementModP &e)
{
    return {{"v", hexP(e)}, {"hex", e.toHex()}, {"hex2", e.toHex()}, {"bytes", bytesHex(e.toBytes())}};
}
static json showQ(ElementModQ &e)
{
    return {{"v", hexQ(e)}, {"hex", e.toHex()}, {"hex2", e.toHex()}, {"bytes", bytesHex(e.toBytes())}};
}

// conversions: how = hex | words | array | u64 | bytes | bytesptr ; d = p | q
OP(conv)
{
    string how = a.at("how"), d = a.at("d");
    bool un = a.at("un");
    auto words = [&] {
        vector<uint64_t> w;
        for (auto &x : a.at("x")) w.push_back(std::stoull(x.get<string>(), nullptr, 16));
        return w;
    };
    if (d == "p") {
        unique_ptr<ElementModP> e;
        if (how == "hex") e = ElementModP::fromHex(a.at("x").get<string>(), un);
        if (how == "words") e = std::make_unique<ElementModP>(words(), un);
        if (how == "array") {
            auto v = hexLimbs(a.at("x"), 64);
            uint64_t w[64];
            std::copy(v.begin(), v.end(), w);
            e = std::make_unique<ElementModP>(w, un);
        }
        if (how == "u64") e = ElementModP::fromUint64(u64(a.at("x")), un);
        if (how == "bytes") e = bytes_to_p(hexBytes(a.at("x")), un);
        if (how == "bytesptr") {
            auto b = hexBytes(a.at("x"));
            e = bytes_to_p(b.data(), b.size(), un);
        }
        return showP(*e);
    }
    unique_ptr<ElementModQ> e;
    if (how == "hex") e = ElementModQ::fromHex(a.at("x").get<string>(), un);
    if (how == "words") e = std::make_unique<ElementModQ>(words(), un);
    if (how == "array") {
        auto v = hexLimbs(a.at("x"), 4);
        uint64_t w[4];
        std::copy(v.begin(), v.end(), w);
        e = std::make_unique<ElementModQ>(w, un);
    }
    if (how == "u64") e = ElementModQ::fromUint64(u64(a.at("x")), un);
    if (how == "bytes") e = bytes_to_q(hexBytes(a.at("x")), un);
    if (how == "bytesptr") {
        auto b = hexBytes(a.at("x"));
        e = bytes_to_q(b.data(), b.size(), un);
    }
    return showQ(*e);
}

// ---- register machine: d = p | q, registers are named
OP(el_new)
{
    string r = a.at("r0");
    if (a.at("d") == "p")
        c.put<ElementModP>(r, mkP(a.at("x")));
    else
        c.put<ElementModQ>(r, mkQ(a.at("x")));
    return json::object();
}
OP(el_copy) // via = ctor | clone | assign
{
    string to = a.at("to"), from = a.at("from"), via = a.at("via");
    if (a.at("d") == "p") {
        auto &s = c.get<ElementModP>(from);
        if (via == "ctor")
            c.put<ElementModP>(to, std::make_unique<ElementModP>(s));
        else if (via == "clone")
            c.put<ElementModP>(to, s.clone());
        else
            c.get<ElementModP>(to) = s;
    } else {
        auto &s = c.get<ElementModQ>(from);
        if (via == "ctor")
            c.put<ElementModQ>(to, std::make_unique<ElementModQ>(s));
        else if (via == "clone")
            c.put<ElementModQ>(to, s.clone());
        else
            c.get<ElementModQ>(to) = s;
    }
    return json::object();
}
OP(el_drop)
{
    if (a.at("d") == "p")
        c.drop<ElementModP>(a.at("r0"));
    else
        c.drop<ElementModQ>(a.at("r0"));
    return json::object();
}
OP(el_fix)
{
    c.get<ElementModP>(a.at("r0")).setIsFixedBase(a.at("on"));
    return json::object();
}
OP(el_show)
{
    if (a.at("d") == "p") return showP(c.get<ElementModP>(a.at("r0")));
    return showQ(c.get<ElementModQ>(a.at("r0")));
}
OP(el_cmp)
{
    if (a.at("d") == "p") {
        auto &x = c.get<ElementModP>(a.at("x"));
        auto &y = c.get<ElementModP>(a.at("y"));
        return {{"eq", x == y}, {"ne", x != y}, {"lt", x < y}};
    }
    auto &x = c.get<ElementModQ>(a.at("x"));
    auto &y = c.get<ElementModQ>(a.at("y"));
    return {{"eq", x == y}, {"ne", x != y}, {"lt", x < y}};
}
OP(el_pow) // to := base ^ e
{
    auto e = mkQ(a.at("e"));
    auto res = pow_mod_p(c.get<ElementModP>(a.at("base")), *e);
    string v = hexP(*res);
    c.put<ElementModP>(a.at("to"), std::move(res));
    return V(v);
}
OP(el_mul)
{
    auto res = mul_mod_p(c.get<ElementModP>(a.at("x")), c.get<ElementModP>(a.at("y")));
    string v = hexP(*res);
    c.put<ElementModP>(a.at("to"), std::move(res));
    return V(v);
}
// several threads exponentiate at once; jobs: [[base, exp], ...] per thread; all bases fixed.
// shared: every thread uses the same element object per base
OP(el_threads)
{
    auto &jobs = a.at("jobs");
    bool shared = a.at("shared");
    size_t n = jobs.size();
    vector<vector<string>> out(n);
    vector<vector<unique_ptr<ElementModQ>>> es(n);
    vector<vector<std::shared_ptr<ElementModP>>> bs(n);
    map<string, std::shared_ptr<ElementModP>> pool;
    for (size_t t = 0; t < n; t++)
        for (auto &j : jobs[t]) {
            string b = j[0];
            if (shared) {
                if (!pool.count(b)) pool[b] = mkP(b, true);
                bs[t].push_back(pool[b]);
            } else
                bs[t].push_back(mkP(b, true));
            es[t].push_back(mkQ(j[1]));
        }
    std::atomic<int> ready{0};
    vector<std::thread> th;
    for (size_t t = 0; t < n; t++)
        th.emplace_back([&, t] {
            ready++;
            while (ready < (int)n) {}
            for (size_t i = 0; i < es[t].size(); i++)
                out[t].push_back(hexP(*pow_mod_p(*bs[t][i], *es[t][i])));
        });
    for (auto &x : th) x.join();
    return {{"v", out}};
}
