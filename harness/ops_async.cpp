// Background work: the queue, the semaphore and the pool of async.hpp.
#include "core.hpp"

#include "async.hpp"

#include <atomic>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <thread>
#include <vector>

using std::string;
using std::vector;
using namespace electionguard;

namespace
{
// threads that start together
struct Gate {
    std::atomic<int> ready{0};
    int n;
    explicit Gate(int n) : n(n) {}
    void pass()
    {
        ++ready;
        while (ready < n)
            std::this_thread::yield();
    }
};
// Once some waits of this run, in whichever process, were in vain, the others are cut short.
std::atomic<int> &inVain()
{
    static auto *n = new (mmap(nullptr, sizeof(std::atomic<int>), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)) std::atomic<int>(0);
    return *n;
}
const bool prepared = inVain() == 0; // before any process is forked
int patience(int ms) { return inVain() >= 3 ? ms / 20 : ms; }
template <typename F> bool within(int ms, F f)
{
    auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(patience(ms));
    while (!f()) {
        if (std::chrono::steady_clock::now() > end) {
            ++inVain();
            return false;
        }
        std::this_thread::sleep_for(std::chrono::microseconds(200));
    }
    return true;
}
const int LONG = 60000;
} // namespace

// threads: a list of calls for each thread; pre: values pushed before they start
OP(q_hist)
{
    json rounds = json::array();
    for (int round = 0, n = a.at("rounds"); round < n; round++) {
        AsyncQueue<string> q;
        std::atomic<int> clock{0};
        for (auto &v : a.at("pre"))
            q.push(std::to_string(v.get<int>()));
        auto &threads = a.at("threads");
        vector<json> out(threads.size());
        Gate gate(threads.size());
        vector<std::thread> th;
        for (size_t t = 0; t < threads.size(); t++)
            th.emplace_back([&, t] {
                json mine = json::array();
                vector<std::tuple<int, int, vector<int>>> log;
                gate.pass();
                for (auto &o : threads[t]) {
                    string f = o.at("f");
                    int v = o.at("v");
                    vector<int> ans;
                    int t0 = clock++;
                    if (f == "push")
                        q.push(std::to_string(v));
                    else if (f == "pop") {
                        auto p = q.pop();
                        if (p) ans.push_back(std::stoi(*p));
                    } else if (f == "take") {
                        string s = "-1";
                        bool had = q.pop(s);
                        if (had) ans.push_back(std::stoi(s));
                        else if (s != "-1") ans = {-2, -2};
                    } else
                        ans.push_back(q.empty() ? 1 : 0);
                    int t1 = clock++;
                    log.emplace_back(t0, t1, ans);
                }
                for (size_t i = 0; i < log.size(); i++)
                    mine.push_back({{"f", threads[t][i].at("f")}, {"v", threads[t][i].at("v")}, {"a", std::get<2>(log[i])},
                                    {"t0", std::get<0>(log[i])}, {"t1", std::get<1>(log[i])}});
                out[t] = mine;
            });
        for (auto &t : th)
            t.join();
        json all = json::array();
        for (auto &m : out)
            for (auto &x : m)
                all.push_back(x);
        // what is left, taken by one thread
        for (int i = 0; i < 100; i++) {
            int t0 = clock++;
            auto p = q.pop();
            int t1 = clock++;
            all.push_back({{"f", "pop"}, {"v", 0}, {"a", p ? vector<int>{std::stoi(*p)} : vector<int>{}}, {"t0", t0}, {"t1", t1}});
            if (!p) break;
        }
        rounds.push_back(all);
    }
    return {{"rounds", rounds}};
}

OP(q_stress)
{
    int producers = a.at("producers"), consumers = a.at("consumers"), n = a.at("n");
    AsyncQueue<string> q;
    std::atomic<int> working{producers};
    vector<vector<int>> got(consumers);
    Gate gate(producers + consumers);
    vector<std::thread> th;
    for (int p = 1; p <= producers; p++)
        th.emplace_back([&, p] {
            gate.pass();
            for (int i = 1; i <= n; i++)
                q.push(std::to_string(p * 1000000 + i));
            --working;
        });
    for (int c = 0; c < consumers; c++)
        th.emplace_back([&, c] {
            gate.pass();
            for (size_t taken = 0; taken < size_t(producers) * n + 1;) {
                bool last = working == 0;
                bool had = false;
                if (taken % 2) {
                    auto p = q.pop();
                    if (p) had = true, got[c].push_back(std::stoi(*p));
                } else {
                    string s;
                    if (q.pop(s)) had = true, got[c].push_back(std::stoi(s));
                }
                taken += had;
                // once the producers are done, nothing means that it is over
                if (!had && last) break;
                if (!had) std::this_thread::yield();
            }
        });
    for (auto &t : th)
        t.join();
    bool empty = q.empty();
    vector<int> left;
    for (int i = 0; i < producers * n + 1; i++) {
        auto p = q.pop();
        if (!p) break;
        left.push_back(std::stoi(*p));
    }
    return {{"got", got}, {"left", left}, {"empty", empty}};
}

static string outcome(std::future<string> &f)
{
    if (!f.valid()) return "invalid";
    if (f.wait_for(std::chrono::milliseconds(patience(LONG))) != std::future_status::ready) {
        ++inVain();
        return "never";
    }
    try {
        return f.get();
    } catch (const std::future_error &) {
        return "lost";
    } catch (const std::exception &e) {
        return string("failed ") + e.what();
    }
}

// tasks: what each does: "value", "fail", "slow", "nest" (submits another one)
// sched: the common pool of the process instead of one of our own
OP(pool)
{
    auto &tasks = a.at("tasks");
    int n = tasks.size(), workers = a.at("workers"), submitters = a.at("submitters");
    bool sched = a.at("sched"), drop = a.at("drop");
    vector<std::atomic<int>> runs(n), nested(n);
    for (int i = 0; i < n; i++)
        runs[i] = 0, nested[i] = 0;
    vector<std::future<string>> futures(n), inner(n);
    std::mutex m;
    std::set<std::thread::id> who;
    json together = json::array();
    {
        std::unique_ptr<ThreadPool> pool;
        if (!sched) pool = std::make_unique<ThreadPool>(workers);
        auto submit = [&](auto f) { return sched ? Scheduler::submit(f) : pool->submit(f); };
        Gate gate(submitters);
        vector<std::thread> th;
        for (int s = 0; s < submitters; s++)
            th.emplace_back([&, s] {
                gate.pass();
                for (int i = s; i < n; i += submitters) {
                    string kind = tasks[i];
                    futures[i] = submit([&, i, kind]() -> string {
                        runs[i]++;
                        {
                            std::lock_guard<std::mutex> l(m);
                            who.insert(std::this_thread::get_id());
                        }
                        if (kind == "slow") std::this_thread::sleep_for(std::chrono::milliseconds(1));
                        if (kind == "fail") throw std::runtime_error(std::to_string(i + 1));
                        if (kind == "nest")
                            inner[i] = submit([&, i]() -> string {
                                nested[i]++;
                                return "inner " + std::to_string(i + 1);
                            });
                        return "value " + std::to_string(i + 1);
                    });
                }
            });
        for (auto &t : th)
            t.join();
        if (!drop) {
            json r = json::array(), in = json::array();
            for (auto &f : futures)
                r.push_back(outcome(f));
            for (int i = 0; i < n; i++)
                in.push_back(tasks[i] == "nest" ? outcome(inner[i]) : "");
            together = json::array();
            together.push_back(r);
            together.push_back(in);
            // as many tasks as there are workers run at the same time
            if (!sched) {
                std::atomic<int> met{0};
                vector<std::future<string>> meet;
                for (int i = 0; i < workers; i++)
                    meet.push_back(pool->submit([&]() -> string {
                        ++met;
                        return within(LONG, [&] { return met == workers; }) ? "met" : "alone";
                    }));
                for (auto &f : meet)
                    together.push_back(outcome(f));
            }
        }
    }
    // the pool is gone (unless it is the common one): nothing may be waited for any more
    json r = json::array(), in = json::array(), ran = json::array();
    if (drop)
        for (auto &f : futures)
            r.push_back(isReady(f) ? outcome(f) : string("not ready"));
    else
        r = together[0], in = together[1], together.erase(0), together.erase(0);
    for (auto &x : runs)
        ran.push_back(x.load());
    json nran = json::array();
    for (auto &x : nested)
        nran.push_back(x.load());
    return {{"results", r}, {"inner", in}, {"runs", ran}, {"nruns", nran}, {"threads", who.size()}, {"mine", who.count(std::this_thread::get_id())},
            {"met", drop ? json::array() : together}};
}

// delays (ms) of the tasks; a task gives its own number
OP(waitall)
{
    vector<std::future<std::unique_ptr<int>>> tasks;
    int i = 0;
    for (int d : a.at("delays").get<vector<int>>()) {
        i++;
        auto f = [i, d] {
            std::this_thread::sleep_for(std::chrono::milliseconds(d));
            return std::make_unique<int>(i);
        };
        tasks.push_back(std::async(std::launch::async, f));
    }
    auto r = wait_all(tasks);
    vector<int> v;
    for (auto &x : r)
        v.push_back(x ? *x : -1);
    std::future<int> none;
    std::promise<int> p;
    auto f = p.get_future();
    bool before = isReady(f);
    p.set_value(3);
    bool after = isReady(f);
    return {{"v", v}, {"none", isReady(none)}, {"before", before}, {"after", after}, {"still", f.get()}};
}

// several threads go in and out; max: how many were seen inside at once
OP(sem)
{
    int count = a.at("count"), threads = a.at("threads"), rounds = a.at("rounds");
    struct Place {
        AsyncSemaphore s;
        std::atomic<int> inside{0}, max{0}, entries{0}, done{0};
        Gate gate;
        Place(int count, int threads) : s(count), gate(threads) {}
    };
    auto p = std::make_shared<Place>(count, threads); // stays with those who never get in
    bool calm = a.at("calm");
    vector<std::thread> th;
    for (int t = 0; t < threads; t++)
        th.emplace_back([p, calm, rounds] {
            p->gate.pass();
            for (int i = 0; i < rounds; i++) {
                p->s.lock();
                int now = ++p->inside;
                ++p->entries;
                for (int m = p->max; now > m && !p->max.compare_exchange_weak(m, now);)
                    ;
                if (calm) std::this_thread::yield();
                --p->inside;
                p->s.unlock();
            }
            ++p->done;
        });
    bool all = false;
    // as long as somebody gets in there is hope
    for (int before = -1; !all && p->entries != before;) {
        before = p->entries;
        all = within(LONG, [&] { return p->done == threads; });
    }
    for (auto &t : th)
        if (all) t.join();
        else
            t.detach();
    return {{"max", p->max.load()}, {"entries", p->entries.load()}, {"count", p->s.getCount()}};
}

// all places are held; waiters get in one by one as places are given back
OP(sem_hand)
{
    int count = a.at("count"), waiters = a.at("waiters");
    AsyncSemaphore s(count);
    size_t start = s.getCount();
    for (int i = 0; i < count; i++)
        s.lock();
    size_t held = s.getCount();
    std::atomic<int> in{0};
    vector<std::thread> th;
    for (int w = 0; w < waiters; w++)
        th.emplace_back([&] {
            s.lock();
            ++in;
        });
    std::this_thread::sleep_for(std::chrono::milliseconds(15));
    vector<int> seen{in.load()};
    bool stuck = false;
    for (int w = 1; w <= waiters; w++) {
        s.unlock();
        if (!within(LONG, [&] { return in >= w; })) stuck = true;
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
        seen.push_back(in.load());
        if (stuck) break;
    }
    for (int i = 0; stuck && i < waiters; i++)
        s.unlock();
    for (auto &t : th)
        t.join();
    return {{"start", start}, {"held", held}, {"seen", seen}, {"count", s.getCount()}, {"stuck", stuck}};
}

// waiting without keeping the place: nobody passes while there is none, everybody once there is one
OP(sem_wait)
{
    int threads = a.at("threads");
    AsyncSemaphore s(0);
    std::atomic<int> passed{0};
    vector<std::thread> th;
    for (int t = 0; t < threads; t++)
        th.emplace_back([&] {
            s.wait();
            ++passed;
        });
    std::this_thread::sleep_for(std::chrono::milliseconds(15));
    int before = passed;
    s.unlock();
    bool all = within(LONG, [&] { return passed == threads; });
    for (int i = 0; !all && i < threads; i++)
        s.unlock();
    for (auto &t : th)
        t.join();
    return {{"before", before}, {"all", all}, {"count", s.getCount()}};
}

// all places are held and given back in one go: everybody who waits gets in
OP(sem_burst)
{
    int waiters = a.at("waiters"), rounds = a.at("rounds");
    bool all = true;
    size_t last = 0;
    for (int r = 0; r < rounds && all; r++) {
        struct Place {
            AsyncSemaphore s{0};
            std::atomic<int> in{0};
        };
        auto place = std::make_shared<Place>(); // stays with those who never get in
        vector<std::thread> th;
        for (int w = 0; w < waiters; w++)
            th.emplace_back([place] {
                place->s.lock();
                ++place->in;
            });
        std::this_thread::sleep_for(std::chrono::milliseconds(3));
        for (int w = 0; w < waiters; w++)
            place->s.unlock();
        all = within(LONG / 3, [&] { return place->in == waiters; });
        last = place->s.getCount();
        for (auto &t : th)
            if (all) t.join();
            else
                t.detach();
    }
    return {{"all", all}, {"count", last}};
}
