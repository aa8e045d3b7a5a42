#include "core.hpp"
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/wait.h>
#include <unistd.h>

map<string, Op> &ops()
{
    static map<string, Op> m;
    return m;
}

string limbsHex(const uint64_t *limbs, size_t n)
{
    static const char *D = "0123456789ABCDEF";
    string s;
    for (size_t i = n; i-- > 0;)
        for (int k = 60; k >= 0; k -= 4) s.push_back(D[(limbs[i] >> k) & 15]);
    size_t f = s.find_first_not_of('0');
    if (f == string::npos) return "00";
    if (f % 2) f--;
    return s.substr(f);
}
vector<uint64_t> hexLimbs(const string &h, size_t n)
{
    vector<uint64_t> r(n, 0);
    size_t pos = 0;
    for (size_t i = h.size(); i-- > 0; pos++) {
        int d = h[i] <= '9' ? h[i] - '0' : h[i] - 'A' + 10;
        if (pos / 16 >= n) {
            if (d) throw std::logic_error("hexLimbs: too long");
            continue;
        }
        r[pos / 16] |= (uint64_t)d << (4 * (pos % 16));
    }
    return r;
}
string bytesHex(const vector<uint8_t> &b)
{
    static const char *D = "0123456789ABCDEF";
    string s;
    for (auto x : b) {
        s.push_back(D[x >> 4]);
        s.push_back(D[x & 15]);
    }
    return s;
}
vector<uint8_t> hexBytes(const string &h)
{
    vector<uint8_t> r;
    auto d = [](char c) { return c <= '9' ? c - '0' : c - 'A' + 10; };
    for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((uint8_t)(d(h[i]) * 16 + d(h[i + 1])));
    return r;
}
unique_ptr<eg::ElementModP> mkP(const string &hex, bool fixedBase)
{
    auto v = hexLimbs(hex, 64);
    uint64_t a[64];
    std::copy(v.begin(), v.end(), a);
    return std::make_unique<eg::ElementModP>(a, true, fixedBase);
}
unique_ptr<eg::ElementModQ> mkQ(const string &hex)
{
    auto v = hexLimbs(hex, 4);
    uint64_t a[4];
    std::copy(v.begin(), v.end(), a);
    return std::make_unique<eg::ElementModQ>(a, true);
}

struct HarnessError : std::logic_error {
    using std::logic_error::logic_error;
};

json guarded(const std::function<json()> &f)
{
    json r;
    try {
        r = f();
        r["st"] = "ok";
    } catch (const std::invalid_argument &e) {
        r = {{"st", "invalid_argument"}};
    } catch (const std::out_of_range &e) {
        r = {{"st", "out_of_range"}};
    } catch (const std::runtime_error &e) {
        r = {{"st", "runtime_error"}};
    } catch (const std::bad_alloc &e) {
        r = {{"st", "bad_alloc"}};
    } catch (const std::exception &e) {
        r = {{"st", "error"}};
        if (getenv("EGDRV_STDERR")) std::cerr << "egdrv: " << e.what() << "\n";
    } catch (const Escaped &) {
        r = {{"st", "crash"}, {"sig", 6}};
    } catch (const char *e) {
        r = {{"st", "error"}};
    } catch (const std::string &e) {
        r = {{"st", "error"}};
    }
    return r;
}

static void record(const json &ev, int fd)
{
    string line;
    try {
        line = ev.dump() + "\n";
    } catch (const std::exception &e) { // text that is not UTF-8
        line = ev.dump(-1, ' ', false, json::error_handler_t::replace) + "\n";
    }
    size_t off = 0;
    while (off < line.size()) {
        ssize_t w = write(fd, line.data() + off, line.size() - off);
        if (w <= 0) _exit(97);
        off += w;
    }
}

static void runScenario(const json &sc, int fd)
{
    Ctx c;
    const char *api = getenv("EGDRV_API");
    bool viaC = api && string(api) == "c";
    for (auto &op : sc.at("ops")) {
        json ev = op;
        auto it = viaC ? ops().find("c:" + op.at("op").get<string>()) : ops().end();
        if (it == ops().end()) it = ops().find(op.at("op").get<string>());
        if (it == ops().end()) {
            std::cerr << "egdrv: unknown op " << op.at("op") << "\n";
            _exit(98);
        }
        const char *pre = "B\n";
        if (write(fd, pre, 2) != 2) _exit(97);
        json r;
        try {
            r = guarded([&] { return it->second(op, c); });
        } catch (...) {
            r = {{"st", "error"}};
        }
        json more = json::array();
        if (r.contains("_expand")) {
            more = r["_expand"];
            r.erase("_expand");
        }
        ev["r"] = r;
        record(ev, fd);
        for (auto &x : more) record(x, fd);
    }
}

void warmUp();

int main(int argc, char **argv)
{
    if (argc < 3) {
        std::cerr << "usage: egdrv scenarios.json out.ndjson [jobs] [timeout]\n";
        return 2;
    }
    json doc;
    {
        std::ifstream in(argv[1]);
        doc = json::parse(in);
    }
    size_t jobs = argc > 3 ? std::stoul(argv[3]) : 8;
    unsigned limit = argc > 4 ? std::stoul(argv[4]) : 120;
    warmUp();
    string base = string(argv[2]) + ".part";
    size_t n = doc.size(), next = 0;
    map<pid_t, size_t> running;
    vector<int> status(n, 0);
    while (next < n || !running.empty()) {
        while (next < n && running.size() < jobs) {
            size_t i = next++;
            std::cout.flush();
            pid_t p = fork();
            if (p < 0) {
                perror("fork");
                return 2;
            }
            if (p == 0) {
                int fd = open((base + dec(i)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
                int nul = open("/dev/null", O_WRONLY);
                dup2(nul, 1);
                if (!getenv("EGDRV_STDERR")) dup2(nul, 2);
                alarm(limit);
                runScenario(doc[i], fd);
                close(fd);
                _exit(0); // no static destructors: detached library threads may still run
            }
            running[p] = i;
        }
        int st = 0;
        pid_t p = wait(&st);
        if (p > 0 && running.count(p)) {
            status[running[p]] = st;
            running.erase(p);
        }
    }
    std::ofstream out(argv[2]);
    for (size_t i = 0; i < n; i++) {
        std::ifstream in(base + dec(i));
        string line;
        json evs = json::array();
        out << "{\"id\":" << (doc[i].contains("id") ? doc[i]["id"].dump() : "\"" + dec(i) + "\"") << ",\"ev\":[";
        size_t k = 0;
        bool pending = false;
        size_t begun = 0;
        while (std::getline(in, line)) {
            if (line == "B") {
                begun++;
                pending = true;
                continue;
            }
            if (line.empty() || line.back() != '}') break;
            out << (k++ ? "," : "") << line;
            pending = false;
        }
        int st = status[i];
        if (WIFEXITED(st) && WEXITSTATUS(st) >= 97) {
            std::cerr << "egdrv: scenario " << i << " failed with " << WEXITSTATUS(st) << "\n";
            return 2;
        }
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || pending) {
            // the operation that did not return
            auto &o = doc[i]["ops"];
            json ev = pending && begun ? o[begun - 1] : begun < o.size() ? o[begun] : json{{"op", "exit"}};
            string what = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "hang" : "crash") : "crash";
            ev["r"] = {{"st", what}, {"sig", WIFSIGNALED(st) ? WTERMSIG(st) : 0}};
            out << (k++ ? "," : "") << ev.dump();
        }
        out << "]}\n";
        unlink((base + dec(i)).c_str());
    }
    out.close();
    return out.good() ? 0 : 2;
}
