// Precomputation buffers (P20): sequential scenarios and concurrent stress.
#include "core.hpp"
#include <atomic>
#include <electionguard/precompute_buffers.hpp>
#include <mutex>
#include <thread>

using namespace electionguard;
typedef PrecomputeBufferContext PBC;

static json dumpTriple(Triple &t)
{
    return {{"e", hexQ(*t.get_exp())}, {"g", hexP(*t.get_g_to_exp())}, {"k", hexP(*t.get_pubkey_to_exp())}};
}
static json dumpQuad(Quadruple &q)
{
    return {{"e1", hexQ(*q.get_exp1())}, {"e2", hexQ(*q.get_exp2())}, {"g", hexP(*q.get_g_to_exp1())},
            {"gk", hexP(*q.get_g_to_exp2_mult_by_pubkey_to_exp1())}};
}
static json dumpTTQ(TwoTriplesAndAQuadruple &t)
{
    return {{"t1", dumpTriple(*t.get_triple1())}, {"t2", dumpTriple(*t.get_triple2())}, {"q", dumpQuad(*t.get_quad())}};
}
static json sizes() { return {{"n", PBC::get_current_queue_size()}, {"max", PBC::get_max_queue_size()}}; }

OP(pre_init)
{
    PBC::init(a.at("n").get<uint32_t>());
    return sizes();
}
OP(pre_populate)
{
    auto k = mkP(a.at("k"), a.value("fixed", false));
    PBC::populate(*k);
    return sizes();
}
OP(pre_stop)
{
    PBC::stop_populate();
    return sizes();
}
OP(pre_empty)
{
    PBC::empty_queues();
    return sizes();
}
OP(pre_ttq)
{
    auto t = PBC::getTwoTriplesAndAQuadruple();
    json r = sizes();
    r["v"] = t ? json::array({dumpTTQ(*t)}) : json::array();
    if (t) { // copies must carry the same values
        TwoTriplesAndAQuadruple c1(*t);
        auto c2 = t->clone();
        r["copies"] = json::array({dumpTTQ(c1), dumpTTQ(*c2)});
        static TwoTriplesAndAQuadruple over(c1); // the value handed out before this one
        auto one = assigned(*t, over);
        r["copies"].push_back(dumpTTQ(*one));
        TwoTriplesAndAQuadruple moved(std::move(*one));
        r["copies"].push_back(dumpTTQ(moved));
        over = std::move(moved);
        r["copies"].push_back(dumpTTQ(over));
        over = *t;
    } else
        r["copies"] = json::array();
    return r;
}
OP(pre_triple)
{
    auto t = PBC::getTriple();
    json r = sizes();
    r["v"] = t ? json::array({dumpTriple(*t)}) : json::array();
    if (t) {
        Triple c1(*t);
        auto c2 = t->clone();
        r["copies"] = json::array({dumpTriple(c1), dumpTriple(*c2)});
        static Triple over(c1);
        auto one = assigned(*t, over);
        r["copies"].push_back(dumpTriple(*one));
        Triple moved(std::move(*one));
        r["copies"].push_back(dumpTriple(moved));
        over = std::move(moved);
        r["copies"].push_back(dumpTriple(over));
        over = *t;
    } else
        r["copies"] = json::array();
    return r;
}

// Concurrent run: `producers` threads call populate repeatedly, `ttq` and `tri` threads consume,
// `stoppers` stop and re-initialise, a watcher samples the size.  Every value handed out is logged.
OP(pre_threads)
{
    uint32_t size = a.at("size");
    int producers = a.at("producers"), ttq = a.at("ttq"), tri = a.at("tri"), stoppers = a.at("stoppers");
    int rounds = a.at("rounds");
    bool empties = a.at("empties");
    // consumers and stoppers stay at work while values are being produced
    auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(a.at("ms").get<int>());
    auto busy = [&](int r) {
        if (r < rounds) return true;
        std::this_thread::sleep_for(std::chrono::microseconds(300));
        return std::chrono::steady_clock::now() < until;
    };
    auto key = mkP(a.at("k"));
    std::mutex m;
    json outQ = json::array(), outT = json::array();
    uint32_t seen = 0;
    std::atomic<bool> done{false};
    std::atomic<int> ready{0};
    int total = producers + ttq + tri + stoppers + 1 + (empties ? 1 : 0);
    auto gate = [&] {
        ready++;
        while (ready < total) std::this_thread::yield();
    };
    PBC::init(size);
    vector<std::thread> th, watch;
    for (int i = 0; i < producers; i++)
        th.emplace_back([&] {
            auto k = mkP(a.at("k"));
            gate();
            for (int r = 0; r < rounds; r++) {
                PBC::populate(*k);
                std::this_thread::yield();
            }
        });
    for (int i = 0; i < ttq; i++)
        th.emplace_back([&] {
            gate();
            for (int r = 0; busy(r); r++) {
                auto t = PBC::getTwoTriplesAndAQuadruple();
                if (t) {
                    json d = dumpTTQ(*t);
                    std::lock_guard<std::mutex> l(m);
                    outQ.push_back(d);
                }
                std::this_thread::yield();
            }
        });
    for (int i = 0; i < tri; i++)
        th.emplace_back([&] {
            gate();
            for (int r = 0; busy(r); r++) {
                auto t = PBC::getTriple();
                if (t) {
                    json d = dumpTriple(*t);
                    std::lock_guard<std::mutex> l(m);
                    outT.push_back(d);
                }
                std::this_thread::yield();
            }
        });
    if (empties)
        th.emplace_back([&] {
            gate();
            for (int r = 0; busy(r); r++) {
                std::this_thread::sleep_for(std::chrono::milliseconds(a.at("ms").get<int>() / 40));
                PBC::empty_queues();
            }
        });
    for (int i = 0; i < stoppers; i++)
        th.emplace_back([&] {
            gate();
            for (int r = 0; busy(r); r++) {
                PBC::stop_populate();
                std::this_thread::yield();
                PBC::init(size);
                PBC::get_max_queue_size();
            }
        });
    watch.emplace_back([&] {
        gate();
        uint32_t mx = 0;
        while (!done) {
            mx = std::max(mx, PBC::get_current_queue_size());
            std::this_thread::yield();
        }
        seen = mx;
    });
    for (auto &x : th) x.join();
    done = true;
    for (auto &x : watch) x.join();
    // stop, then producing must have no effect
    PBC::stop_populate();
    uint32_t before = PBC::get_current_queue_size();
    PBC::populate(*key);
    uint32_t after = PBC::get_current_queue_size();
    // what is left
    json leftQ = json::array(), leftT = json::array();
    while (auto t = PBC::getTwoTriplesAndAQuadruple()) leftQ.push_back(dumpTTQ(*t));
    while (auto t = PBC::getTriple()) leftT.push_back(dumpTriple(*t));
    return {{"outQ", outQ}, {"outT", outT}, {"leftQ", leftQ}, {"leftT", leftT}, {"seen", seen},
            {"before", before}, {"after", after}, {"end", PBC::get_current_queue_size()}};
}
// a populate that is stopped while it runs: returns how many entries it made and whether it returned
OP(pre_stop_midway)
{
    uint32_t size = a.at("size");
    PBC::init(size);
    std::thread p([&] {
        auto k = mkP(a.at("k"));
        PBC::populate(*k);
    });
    std::this_thread::sleep_for(std::chrono::milliseconds(a.at("ms").get<int>()));
    PBC::stop_populate();
    p.join();
    json r = sizes();
    PBC::empty_queues();
    r["emptied"] = PBC::get_current_queue_size();
    return r;
}
OP(pre_key) { return json::object(); }
