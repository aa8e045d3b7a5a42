// Calling the C interface: every call goes through these helpers.
#pragma once
#include "ballot.hpp"
#include <cstring>
extern "C" {
#include <electionguard/ballot.h>
#include <electionguard/ballot_code.h>
#include <electionguard/ballot_compact.h>
#include <electionguard/chaum_pedersen.h>
#include <electionguard/collections.h>
#include <electionguard/constants.h>
#include <electionguard/election.h>
#include <electionguard/elgamal.h>
#include <electionguard/encrypt.h>
#include <electionguard/group.h>
#include <electionguard/hash.h>
#include <electionguard/manifest.h>
#include <electionguard/status.h>
}
typedef eg_electionguard_status_t St;
struct CFailed : std::runtime_error {
    St st;
    CFailed(St s) : std::runtime_error("status"), st(s) {}
};
// a call that reports a status
template <typename F> void ck(F f)
{
    St s;
    try {
        s = f();
    } catch (...) {
        throw Escaped();
    }
    if (s != ELECTIONGUARD_STATUS_SUCCESS) throw CFailed(s);
}
#define C(call) ck([&] { return (call); })
// a call that returns a value
template <typename F> auto cv(F f)
{
    try {
        return f();
    } catch (...) {
        throw Escaped();
    }
}
#define V_(call) cv([&] { return (call); })
template <typename T> struct H { // a handle the caller owns
    T *p = nullptr;
    St (*fr)(T *) = nullptr;
    H() {}
    explicit H(St (*f)(T *)) : fr(f) {}
    H(H &&o) : p(o.p), fr(o.fr) { o.p = nullptr; }
    H &operator=(H &&o)
    {
        reset();
        p = o.p, fr = o.fr, o.p = nullptr;
        return *this;
    }
    ~H() { reset(); }
    void reset()
    {
        if (p && fr(p) != ELECTIONGUARD_STATUS_SUCCESS) abort();
        p = nullptr;
    }
    T *release()
    {
        T *x = p;
        p = nullptr;
        return x;
    }
    operator T *() const { return p; }
    T **operator&() { return &p; }
    template <typename X> X &as() { return *reinterpret_cast<X *>(p); }
};
template <typename T> vector<T *> raw(vector<H<T>> &v)
{
    vector<T *> r;
    for (auto &x : v) r.push_back(x.p);
    r.push_back(nullptr); // never an empty array
    return r;
}
struct Txt { // text that is gone right after the call
    char *p;
    Txt(const string &s) : p(strdup(s.c_str())) {}
    Txt(const Txt &o) : p(strdup(o.p)) {}
    ~Txt()
    {
        memset(p, '#', strlen(p));
        free(p);
    }
    operator char *() const { return p; }
};
struct Txts {
    vector<Txt> own;
    vector<char *> p;
    Txts(const json &l)
    {
        for (auto &x : l) own.emplace_back(x.get<string>());
        for (auto &x : own) p.push_back(x.p);
        p.push_back(nullptr);
    }
    operator char **() { return p.data(); }
};
template <typename T, typename X> string cs(St (*fn)(T *, X **), T *h)
{
    X *out = nullptr;
    C(fn(h, &out));
    string s(out);
    C(eg_free_int_ptr(const_cast<char *>(out)));
    return s;
}
template <typename T, typename X> string cs(St (*fn)(T *, uint64_t, X **), T *h, uint64_t i)
{
    X *out = nullptr;
    C(fn(h, i, &out));
    string s(out);
    C(eg_free_int_ptr(const_cast<char *>(out)));
    return s;
}
template <typename T, typename R> R *ref(St (*fn)(T *, R **), T *h)
{
    R *out = nullptr;
    C(fn(h, &out));
    return out;
}
template <typename T, typename R> R *ref(St (*fn)(T *, uint64_t, R **), T *h, uint64_t i)
{
    R *out = nullptr;
    C(fn(h, i, &out));
    return out;
}
inline string cQ(eg_element_mod_q_t *e)
{
    uint64_t *d = nullptr, n = 0;
    C(eg_element_mod_q_get_data(e, &d, &n));
    if (n != 4) throw std::runtime_error("size");
    return limbsHex(d, n);
}
inline string cP(eg_element_mod_p_t *e)
{
    uint64_t *d = nullptr, n = 0;
    C(eg_element_mod_p_get_data(e, &d, &n));
    if (n != 64) throw std::runtime_error("size");
    return limbsHex(d, n);
}
template <typename T> string refQ(St (*fn)(T *, eg_element_mod_q_t **), T *h) { return cQ(ref(fn, h)); }
template <typename T> string refP(St (*fn)(T *, eg_element_mod_p_t **), T *h) { return cP(ref(fn, h)); }
template <typename T> json optRefQ(St (*fn)(T *, eg_element_mod_q_t **), T *h)
{
    auto r = ref(fn, h);
    return r ? json::array({cQ(r)}) : json::array();
}
// a new element
template <typename T> string newQ(St (*fn)(T *, eg_element_mod_q_t **), T *h)
{
    H<eg_element_mod_q_t> e(eg_element_mod_q_free);
    C(fn(h, &e));
    return cQ(e);
}
inline H<eg_element_mod_q_t> mkCQ(const string &hex)
{
    auto v = hexLimbs(hex, 4);
    H<eg_element_mod_q_t> e(eg_element_mod_q_free);
    C(eg_element_mod_q_new_unchecked(v.data(), &e));
    return e;
}
inline H<eg_element_mod_p_t> mkCP(const string &hex, bool fixed = false)
{
    auto v = hexLimbs(hex, 64);
    H<eg_element_mod_p_t> e(eg_element_mod_p_free);
    C(eg_element_mod_p_new_unchecked(v.data(), &e));
    if (fixed) e.as<eg::ElementModP>().setIsFixedBase(true);
    return e;
}
template <typename R, typename X> R *ash(X &x) { return reinterpret_cast<R *>(const_cast<std::remove_const_t<X> *>(&x)); }
// serialized forms
template <typename T> string toJson(St (*fn)(T *, char **, uint64_t *), T *h)
{
    char *d = nullptr;
    uint64_t n = 0;
    C(fn(h, &d, &n));
    string s(d);
    if (n != s.size() + 1) throw std::runtime_error("length of the text");
    C(eg_free_int_ptr(d));
    return s;
}
template <typename T> vector<uint8_t> toBytes(St (*fn)(T *, uint8_t **, uint64_t *), T *h, St (*fr)(uint8_t *) = eg_delete_int_ptr)
{
    uint8_t *d = nullptr;
    uint64_t n = 0;
    C(fn(h, &d, &n));
    vector<uint8_t> v(d, d + n);
    C(fr(d));
    return v;
}
template <typename T> H<T> fromJson(St (*fn)(char *, T **), St (*fr)(T *), const string &text)
{
    H<T> h(fr);
    C(fn(Txt(text), &h));
    return h;
}
template <typename T> H<T> fromBytes(St (*fn)(uint8_t *, uint64_t, T **), St (*fr)(T *), const vector<uint8_t> &v)
{
    H<T> h(fr);
    vector<uint8_t> copy(v);
    C(fn(copy.data(), copy.size(), &h));
    return h;
}
#define C_READ3(X, fmt, text, bytes)                                                                                     \
    ((fmt) == "bson" ? fromBytes(X##_from_bson, X##_free, bytes)                                                          \
                     : (fmt) == "msgpack" ? fromBytes(X##_from_msgpack, X##_free, bytes) : fromJson(X##_from_json, X##_free, text))
#define C_WRITE3(X, h, fmt, text, bytes)                                                                                 \
    do {                                                                                                                 \
        if ((fmt) == "bson") bytes = toBytes(X##_to_bson, h);                                                            \
        else if ((fmt) == "msgpack") bytes = toBytes(X##_to_msgpack, h);                                                 \
        else text = toJson(X##_to_json, h);                                                                              \
    } while (0)
template <typename T, typename E> T &keep(Ctx &c, const string &name, H<E> h)
{
    auto fr = h.fr;
    return c.adopt<T, E>(name, h.release(), (int (*)(E *))fr);
}
H<eg_election_manifest_t> cManifest(const json &m);
json cDumpManifest(eg_election_manifest_t *m);
json cDumpInternal(eg_internal_manifest_t *m);
