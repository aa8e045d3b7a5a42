// Driver core: executes scenarios (lists of operations) against the real library and records one
// event per operation.  Operations are executed through the public API only.
#pragma once
#include <electionguard/group.hpp>
#include <functional>
#include <map>
#include <memory>
#include <nlohmann/json.hpp>
#include <stdexcept>
#include <string>
#include <vector>

using json = nlohmann::json;
namespace eg = electionguard;
using std::map;
using std::string;
using std::unique_ptr;
using std::vector;

// per-scenario registers, one map per kind of object; each ops_*.cpp keeps its own
struct Ctx;
typedef std::function<json(const json &, Ctx &)> Op;
map<string, Op> &ops();
struct RegOp {
    RegOp(const char *n, Op f) { ops()[n] = f; }
};
#define OP(name) \
    static json op_##name(const json &a, Ctx &c); \
    static RegOp reg_##name(#name, op_##name); \
    static json op_##name(const json &a, Ctx &c)

// the same operation through the C interface (EGDRV_API=c); without one the C++ operation runs
#define OPC(name) \
    static json opc_##name(const json &a, Ctx &c); \
    static RegOp regc_##name("c:" #name, opc_##name); \
    static json opc_##name(const json &a, Ctx &c)
// an exception came out of a C function: in a C program that is the end of the process
struct Escaped {
};

struct Ctx {
    map<string, std::shared_ptr<void>> slots; // keyed by "kind:name"
    template <typename T> T &put(const string &name, unique_ptr<T> v)
    {
        std::shared_ptr<T> s(std::move(v));
        T *raw = s.get();
        slots[string(typeid(T).name()) + ":" + name] = s;
        return *raw;
    }
    template <typename T, typename H> T &adopt(const string &name, H *h, int (*fr)(H *))
    {
        slots[string(typeid(T).name()) + ":" + name] = std::shared_ptr<void>((void *)h, [fr](void *p) {
            if (p && fr((H *)p) != 0) abort();
        });
        return *reinterpret_cast<T *>(h);
    }
    template <typename T> T &get(const string &name)
    {
        auto it = slots.find(string(typeid(T).name()) + ":" + name);
        if (it == slots.end() || !it->second) throw std::logic_error("no register " + name);
        return *static_cast<T *>(it->second.get());
    }
    template <typename T> bool has(const string &name)
    {
        auto it = slots.find(string(typeid(T).name()) + ":" + name);
        return it != slots.end() && it->second;
    }
    template <typename T> void drop(const string &name)
    {
        slots.erase(string(typeid(T).name()) + ":" + name);
    }
};

// own number formatting, independent of the library's conversions
string limbsHex(const uint64_t *limbs, size_t n);
vector<uint64_t> hexLimbs(const string &hex, size_t n);
string bytesHex(const vector<uint8_t> &b);
vector<uint8_t> hexBytes(const string &hex);
inline string hexP(const eg::ElementModP &e) { return limbsHex(e.get(), 64); }
inline string hexQ(const eg::ElementModQ &e) { return limbsHex(e.get(), 4); }
inline json optP(const eg::ElementModP *e) { return e ? json::array({hexP(*e)}) : json::array(); }
inline json optQ(const eg::ElementModQ *e) { return e ? json::array({hexQ(*e)}) : json::array(); }
unique_ptr<eg::ElementModP> mkP(const string &hex, bool fixedBase = false);
unique_ptr<eg::ElementModQ> mkQ(const string &hex);
inline uint64_t u64(const json &v)
{
    return v.is_string() ? std::stoull(v.get<string>()) : v.get<uint64_t>();
}
// Counts of votes are small numbers in the specification; beyond a thousand million they
// stand for the largest numbers a ballot can hold.
inline const std::vector<uint64_t> &hugeVotes()
{
    static const std::vector<uint64_t> v{4294967296u, 4294967297u, 9223372036854775808u, 18446744073709551615u, 18446744073709551614u};
    return v;
}
inline uint64_t voteIn(const json &v)
{
    uint64_t x = u64(v);
    if (x >= 1000000001 && x <= 1000000000 + hugeVotes().size()) return hugeVotes()[x - 1000000001];
    return x;
}
inline uint64_t voteOut(uint64_t x)
{
    for (size_t i = 0; i < hugeVotes().size(); i++)
        if (hugeVotes()[i] == x) return 1000000001 + i;
    return x >= 1000000000 ? 1000000000 : x;
}
inline string dec(uint64_t v) { return std::to_string(v); }
// runs f, mapping exceptions to a status
json guarded(const std::function<json()> &f);
// what an object holds after `from` was assigned to it, with the value assigned gone and after assigning it to itself
template <class T> unique_ptr<T> assigned(const T &from, const T &over)
{
    auto x = std::make_unique<T>(over);
    {
        auto y = std::make_unique<T>(from);
        *x = *y;
    }
    T &same = *x;
    *x = same;
    return x;
}
