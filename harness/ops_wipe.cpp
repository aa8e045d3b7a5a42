// What is left of group elements in the memory they are released from.  Every block handed back to the
// allocator during a release is searched for the words of the value just released.
#include "core.hpp"
#include <cstdlib>
#include <cstring>
#include <electionguard/chaum_pedersen.hpp>
#include <electionguard/elgamal.hpp>
#include <electionguard/precompute_buffers.hpp>
#include <malloc.h>
#include <new>

using namespace electionguard;
using std::make_unique;

static thread_local const vector<uint64_t> *watched = nullptr;
static thread_local uint64_t found = 0;
// memory is handed out clean, so that what is found was written by the object that had it
static thread_local bool clean = false;
struct Clean {
    Clean() { clean = true; }
    ~Clean() { clean = false; }
};

#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
static void look(const void *p)
{
    auto words = static_cast<const uint64_t *>(p);
    size_t n = malloc_usable_size(const_cast<void *>(p)) / 8;
    for (size_t i = 0; i < n; i++)
        for (auto w : *watched)
            if (w >> 32 && words[i] == w) {
                found++;
                break;
            }
}
void *operator new(std::size_t n)
{
    void *p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (clean) memset(p, 0, malloc_usable_size(p));
    return p;
}
void operator delete(void *p) noexcept
{
    if (watched && p) look(p);
    std::free(p);
}
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }
#endif

template <class F> static json releasing(const vector<uint64_t> &words, F f)
{
    found = 0;
    watched = &words;
    try {
        f();
    } catch (...) {
        watched = nullptr;
        throw;
    }
    watched = nullptr;
    return {{"left", dec(found)}};
}
static void add(vector<uint64_t> &w, const ElementModP &x) { w.insert(w.end(), x.get(), x.get() + 64); }
static void add(vector<uint64_t> &w, const ElementModQ &x) { w.insert(w.end(), x.get(), x.get() + 4); }
template <class T> static unique_ptr<T> &slot(Ctx &c, const string &n)
{
    if (!c.has<unique_ptr<T>>(n)) c.put(n, make_unique<unique_ptr<T>>());
    return c.get<unique_ptr<T>>(n);
}
template <class T> static json doNew(Ctx &c, const string &n, unique_ptr<T> x)
{
    auto &s = slot<T>(c, n);
    vector<uint64_t> w;
    if (s) add(w, *s);
    return releasing(w, [&] { s = std::move(x); });
}
template <class T> static json doCopy(Ctx &c, const json &a)
{
    auto &to = slot<T>(c, a.at("to")), &from = slot<T>(c, a.at("from"));
    vector<uint64_t> w;
    if (to) add(w, *to);
    string via = a.at("via");
    return releasing(w, [&] {
        if (via == "ctor")
            to = make_unique<T>(*from);
        else if (via == "clone")
            to = from->clone();
        else
            *to = *from;
    });
}
OP(w_new)
{
    Clean on;
    if (a.at("d") == "p") return doNew<ElementModP>(c, a.at("n"), mkP(a.at("x")));
    return doNew<ElementModQ>(c, a.at("n"), mkQ(a.at("x")));
}
OP(w_copy)
{
    Clean on;
    return a.at("d") == "p" ? doCopy<ElementModP>(c, a) : doCopy<ElementModQ>(c, a);
}
OP(w_drop)
{
    Clean on;
    if (a.at("d") == "p") return doNew<ElementModP>(c, a.at("n"), nullptr);
    return doNew<ElementModQ>(c, a.at("n"), nullptr);
}
OP(w_show)
{
    return {{"v", a.at("d") == "p" ? hexP(*slot<ElementModP>(c, a.at("n"))) : hexQ(*slot<ElementModQ>(c, a.at("n")))}};
}
// a key pair, ciphertext, proof or precomputed value holding these elements, `copies` of it, and all of them released
template <class T> static json heldBy(const vector<uint64_t> &words, unique_ptr<T> x, int copies)
{
    vector<unique_ptr<T>> all;
    for (int i = 0; i < copies; i++) all.push_back(make_unique<T>(i ? *all.back() : *x));
    return releasing(words, [&] {
        x.reset();
        all.clear();
    });
}
OP(w_held)
{
    Clean on;
    vector<uint64_t> w;
    vector<unique_ptr<ElementModP>> p;
    vector<unique_ptr<ElementModQ>> q;
    for (auto &x : a.at("ps")) p.push_back(mkP(x));
    for (auto &x : a.at("qs")) q.push_back(mkQ(x));
    for (auto &x : p) add(w, *x);
    for (auto &x : q) add(w, *x);
    string kind = a.at("kind");
    int n = a.at("copies");
    using std::move;
    if (kind == "key") return heldBy(w, ElGamalKeyPair::fromSecret(*q[0], false), n);
    if (kind == "cipher") return heldBy(w, make_unique<ElGamalCiphertext>(move(p[0]), move(p[1])), n);
    if (kind == "hashed") return heldBy(w, make_unique<HashedElGamalCiphertext>(move(p[0]), vector<uint8_t>(32, 1), vector<uint8_t>(32, 2)), n);
    if (kind == "dj")
        return heldBy(w, make_unique<DisjunctiveChaumPedersenProof>(move(p[0]), move(p[1]), move(p[2]), move(p[3]), move(q[0]), move(q[1]),
                                                                     move(q[2]), move(q[3]), move(q[4])), n);
    if (kind == "cc") return heldBy(w, make_unique<ConstantChaumPedersenProof>(move(p[0]), move(p[1]), move(q[0]), move(q[1]), 1), n);
    if (kind == "triple") return heldBy(w, make_unique<Triple>(move(q[0]), move(p[0]), move(p[1])), n);
    if (kind == "quad") return heldBy(w, make_unique<Quadruple>(move(q[0]), move(q[1]), move(p[0]), move(p[1])), n);
    throw std::logic_error("no such kind");
}
