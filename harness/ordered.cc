// Every operation of mbo::container::LimitedSet and LimitedMap from every state a sorted list of given values can bring it to.
#include "container.h"
#include <utility>
#include "mbo/container/limited_map.h"
#include "mbo/container/limited_set.h"
#include "mbo/container/limited_vector.h"
using namespace mbo::container;
using F_ = LimitedOptionsFlag;
#ifndef O_T
# define O_T Tr
# define O_C 4
# define O_MAP 0
# define O_KIND 1
# define O_CMP std::less<Tr>
#endif
using T = O_T;
struct Dir { bool down = false; bool operator()(const T& a, const T& b) const { return down ? val(b) < val(a) : val(a) < val(b); } };
struct Half { bool operator()(const T& a, const T& b) const { return (val(a) >> 1) < (val(b) >> 1); } };
#if O_KIND == 1
using Foreign = i32;
struct Open { using is_transparent = void; bool operator()(const T& a, const T& b) const { return val(a) < val(b); } bool operator()(const T& a, i32 b) const { return val(a) < b; } bool operator()(i32 a, const T& b) const { return a < val(b); } };
#else
using Foreign = i64;
using Open = std::less<>;
#endif
using Cmp = O_CMP;
static Cmp cmp() {
#ifdef O_STATE
  return Cmp{true};
#else
  return Cmp();
#endif
}
inline constexpr auto O = O_C;
inline constexpr u64 N = MakeLimitedOptions<O>().kCapacity;
inline constexpr u64 D1 = N > 1 ? N - 1 : N;
#if O_MAP
constexpr u64 W = 2;
using S = LimitedMap<T, T, O, Cmp>;
template<u64 K, class Q> using Other = LimitedMap<T, T, K, Q>;
using Val = std::pair<const T, T>;
static Val mk(const i32* p) { return Val(T(p[0]), T(p[1])); }
static void put(i64* o, const Val& v) { o[0] = val(v.first); o[1] = val(v.second); }
#else
constexpr u64 W = 1;
using S = LimitedSet<T, O, Cmp>;
template<u64 K, class Q> using Other = LimitedSet<T, K, Q>;
using Val = T;
static Val mk(const i32* p) { return T(p[0]); }
static void put(i64* o, const Val& v) { o[0] = val(v); }
#endif
namespace {
struct Args { const i32* in; u64 n, m, i, j; i32 x, y; i64* out; };
template<class V> void dump(const V& v, i64*& o, u64 cap) {
  *o++ = static_cast<i64>(v.size());
  u64 k = 0;
  for (auto it = v.begin(); it != v.end(); ++it, ++k) { put(o + W * k, *it); }
  o += W * cap;
}
template<class V> void fill(V& v, const i32* in, u64 n) { for (u64 k = 0; k < n; ++k) { v.emplace(mk(in + W * k)); } }
template<class F> void one(const Args& a, F op) {
  const i64 live = tr_live; i64* o = a.out;
  {
    Box<S> box; S* v = new (box.at()) S(cmp()); fill(*v, a.in, a.n);
    *o++ = op(*v);
    dump(*v, o, N);
    *o++ = tr_live - live;
    v->~S();
  }
  *o++ = tr_live - live;
}
template<class R, class F> void two(const Args& a, const R& proto, F op) {
  const i64 live = tr_live; i64* o = a.out;
  {
    Box<S> box; S* v = new (box.at()) S(cmp()); fill(*v, a.in, a.n);
    Box<R> rox; R* w = new (rox.at()) R(proto); fill(*w, a.in + W * a.n, a.m);
    *o++ = op(*v, *w);
    dump(*v, o, N); dump(*w, o, w->capacity());
    *o++ = tr_live - live;
    w->~R(); v->~S();
  }
  *o++ = tr_live - live;
}
template<class F> void make(const Args& a, F ctor) {
  const i64 live = tr_live; i64* o = a.out;
  {
    Box<S> box; S* v = ctor(box.at());
    *o++ = 0; dump(*v, o, N);
    *o++ = tr_live - live;
    v->~S();
  }
  *o++ = tr_live - live;
}
// a source range of up to 4 values
struct Src {
  struct alignas(Val) Raw { unsigned char b[sizeof(Val)]; } raw[4]; u64 n; const i32* p;
  Src(const i32* q, u64 k) : n(k), p(q) { for (u64 e = 0; e < n; ++e) { new (raw + e) Val(mk(q + W * e)); } }
  Val* begin() { return reinterpret_cast<Val*>(raw); }
  i64 changed() { i64 c = 0; for (u64 e = 0; e < n; ++e) { i64 t[2]; put(t, begin()[e]); for (u64 w = 0; w < W; ++w) { c += t[w] != p[W * e + w]; } } return c; }
  ~Src() { for (u64 e = 0; e < n; ++e) { begin()[e].~Val(); } }
};
}
#define ARGS const i32* in, u64 n, u64 m, u64 i, u64 j, i32 x, i32 y, i64* out
#define A_ Args{in, n, m, i, j, x, y, out}
#define OP1(NAME, ...) extern "C" void vh_##NAME(ARGS) { one(A_, [&](S& v) -> i64 { const S& c = v; (void)c; __VA_ARGS__ }); }
#define OP2(NAME, PROTO, ...) extern "C" void vh_##NAME(ARGS) { two(A_, PROTO, [&](S& v, auto& w) -> i64 { const S& c = v; (void)c; __VA_ARGS__ }); }
#define MK(NAME, ...) extern "C" void vh_##NAME(ARGS) { make(A_, [&](S* p) -> S* { __VA_ARGS__ }); }
#define POS(it) ((it) - v.begin())
#define CPOS(it) ((it) - c.begin())
#define INS(e) const auto r = e; return POS(r.first) + 100 * r.second;
static const i32* xy(i32 (&b)[2], i32 x, i32 y) { b[0] = x; b[1] = y; return b; }
OP1(state, return 0;)
OP1(insert_copy, i32 b[2]; const Val t(mk(xy(b, x, y))); const auto r = v.insert(t); i64 s[2]; put(s, t); return POS(r.first) + 100 * r.second + 1000 * (s[0] != x);)
OP1(insert_move, i32 b[2]; INS(v.insert(mk(xy(b, x, y)))))
OP1(insert_range, Src s(in + W * n, m); v.insert(s.begin(), s.begin() + m); return s.changed();)
OP1(erase_key, const T t(x); return v.erase(t);)
OP1(erase_key_mutable, T t(x); return v.erase(t);)
OP1(erase_it, return POS(v.erase(v.begin() + i));)
OP1(erase_cit, return POS(v.erase(c.begin() + i));)
OP1(erase_range, return POS(v.erase(c.begin() + i, c.begin() + j));)
OP1(find, const T t(x); return POS(v.find(t));)
OP1(cfind, const T t(x); return CPOS(c.find(t));)
OP1(contains, const T t(x); return c.contains(t);)
OP1(count, const T t(x); return c.count(t);)
OP1(lower, const T t(x); return POS(v.lower_bound(t));)
OP1(clower, const T t(x); return CPOS(c.lower_bound(t));)
OP1(upper, const T t(x); return POS(v.upper_bound(t));)
OP1(cupper, const T t(x); return CPOS(c.upper_bound(t));)
OP1(equal, const T t(x); const auto r = v.equal_range(t); return POS(r.first) + 100 * POS(r.second);)
OP1(cequal, const T t(x); const auto r = c.equal_range(t); return CPOS(r.first) + 100 * CPOS(r.second);)
OP1(index_of, const T t(x); return static_cast<i64>(c.index_of(t));)
OP1(contains_all, return c.contains_all(std::initializer_list<T>{T(x), T(y)});)
OP1(contains_any, return c.contains_any(std::initializer_list<T>{T(x), T(y)});)
OP1(contains_all_of, LimitedVector<T, 2> l; l.push_back(T(x)); l.push_back(T(y)); return c.contains_all(l);)
OP1(contains_any_of, LimitedVector<T, 2> l; l.push_back(T(x)); l.push_back(T(y)); return c.contains_any(l);)
OP1(at_index, i64 t[2], s[2]; put(t, v.at_index(i)); put(s, c.at_index(i)); return t[0] ^ t[W - 1] ^ s[W - 1];)
OP1(clear, v.clear(); return 0;)
OP1(self_copy, v = c; return 0;)
OP1(self_move, S& r = v; v = std::move(r); return 0;)
OP1(counts, return static_cast<i64>(v.size() + 100 * v.max_size() + 10000 * v.capacity() + 1000000 * v.empty() + 10000000 * (v.end() - v.begin()) + 1000000000 * (v.cend() - v.cbegin()) + 100000000000 * (c.data() == &*c.begin()));)
OP1(reverse, i64 bad = 0; auto it = v.rbegin(); auto ct = v.crbegin(); for (u64 k = 0; k < n; ++k, ++it, ++ct) { i64 s[2], t[2]; put(s, *it); put(t, *ct); bad += s[0] != in[W * (n - 1 - k)]; bad += t[W - 1] != in[W * (n - 1 - k) + W - 1]; } return bad * 1000 + (it.base() == v.rend().base()) + (ct.base() == v.crend().base());)
OP1(key_comp, const T s(x), t(y); return c.key_comp()(s, t);)
OP1(value_comp, i32 b[2]; const Val s(mk(xy(b, x, x))); const Val t(mk(xy(b, y, y))); return c.value_comp()(s, t);)
OP2(copy_ctor, S(cmp()), w.clear(); Box<S> b; S* d = new (b.at()) S(c); for (auto& e : *d) { w.insert(e); } const T t(x), u(y); const i64 r = d->key_comp()(t, u); d->~S(); return r;)
OP2(move_ctor, S(cmp()), w.clear(); Box<S> b; S* d = new (b.at()) S(std::move(v)); for (auto& e : *d) { w.insert(e); } const T t(x), u(y); const i64 r = d->key_comp()(t, u); d->~S(); return r;)
OP2(copy_assign, S(cmp()), return &(w = c) == &w;)
OP2(move_assign, S(cmp()), return &(w = std::move(v)) == &w;)
OP2(swap, S(cmp()), v.swap(w); return 0;)
OP2(compare, S(cmp()), const auto r = c <=> w; return (r < 0 ? 1 : r == 0 ? 2 : 3) + 10 * (c == w) + 20 * (c != w) + 40 * (c < w);)
#ifndef O_STATE
struct Down { bool operator()(const T& a, const T& b) const { return val(b) < val(a); } };
using Opp = Other<D1, Down>;
OP2(compare_other, Opp(), const auto r = c <=> w; return (r < 0 ? 1 : r == 0 ? 2 : 3) + 10 * (c == w) + 20 * (c != w) + 40 * (c < w);)
OP2(conv_copy_assign, Opp(), v = std::as_const(w); return 0;)
OP2(conv_copy_ctor, Opp(), v.clear(); Box<S> b; S* d = new (b.at()) S(std::as_const(w)); for (auto& e : *d) { v.insert(e); } d->~S(); return 0;)
MK(ctor_default, return new (p) S();)
#endif
MK(ctor_range, Src s(in, m); S* v = new (p) S(s.begin(), s.begin() + m, cmp()); if (s.changed()) { vh_bad(20); } return v;)
MK(ctor_list2, return new (p) S(std::initializer_list<Val>{mk(in), mk(in + W)}, cmp());)
#ifdef O_OPEN
OP1(f_find, const Foreign t(x); return POS(v.find(t));)
OP1(f_cfind, const Foreign t(x); return CPOS(c.find(t));)
OP1(f_contains, const Foreign t(x); return c.contains(t);)
OP1(f_count, const Foreign t(x); return c.count(t);)
OP1(f_lower, const Foreign t(x); return POS(v.lower_bound(t));)
OP1(f_clower, const Foreign t(x); return CPOS(c.lower_bound(t));)
OP1(f_upper, const Foreign t(x); return POS(v.upper_bound(t));)
OP1(f_cupper, const Foreign t(x); return CPOS(c.upper_bound(t));)
OP1(f_equal, const Foreign t(x); const auto r = v.equal_range(t); return POS(r.first) + 100 * POS(r.second);)
OP1(f_cequal, const Foreign t(x); const auto r = c.equal_range(t); return CPOS(r.first) + 100 * CPOS(r.second);)
OP1(f_index_of, const Foreign t(x); return static_cast<i64>(c.index_of(t));)
OP1(f_contains_all, return c.contains_all(std::initializer_list<Foreign>{Foreign(x), Foreign(y)});)
OP1(f_contains_any, return c.contains_any(std::initializer_list<Foreign>{Foreign(x), Foreign(y)});)
# if O_MAP
OP1(f_at, const Foreign t(x); return val(v.at(t)) ^ val(c.at(t)) ^ val(v.at(t));)
# endif
#endif
OP1(f_erase, const Foreign t(x); return v.erase(t);)
#if O_MAP
OP1(emplace, INS(v.emplace(T(x), T(y))))
OP1(emplace_conv, INS(v.emplace(x, y)))
OP1(emplace_self, INS(v.emplace(T(x), v.begin()[j].second)))
OP1(at, const T t(x); return val(v.at(t));)
OP1(cat, const T t(x); return val(c.at(t));)
OP1(index, const T t(x); const i64 r = val(v[t]); return r + (i64{1} << 40) * (val(t) != x);)
OP1(index_move, T t(x); return val(v[std::move(t)]);)
OP1(index_write, const T t(x); v[t] = T(y); return 0;)
OP1(try_copy, const T t(x); INS(v.try_emplace(t, y)))
OP1(try_move, INS(v.try_emplace(T(x), T(y))))
OP1(assign_copy, const T t(x); const T u(y); const auto r = v.insert_or_assign(t, u); return POS(r.first) + 100 * r.second + 1000 * (val(t) != x || val(u) != y);)
OP1(assign_move, INS(v.insert_or_assign(T(x), T(y))))
OP1(write, v.begin()[i].second = T(y); return 0;)
#else
OP1(emplace, INS(v.emplace(x)))
OP1(emplace_move, INS(v.emplace(T(x))))
OP1(emplace_self, INS(v.emplace(*(v.begin() + j))))
#endif
#if O_HELPERS
# if O_MAP
extern "C" void vh_make_helper(ARGS) { i64* o = out; const i64 live = tr_live; { std::pair<T, T> s{T(in[0]), T(in[1])}, t{T(in[2]), T(in[3])}; auto v = MakeLimitedMap(std::pair<T, T>(s), std::pair<T, T>(t)); *o++ = val(s.first) != in[0] || val(t.second) != in[3]; dump(v, o, 2); *o++ = tr_live - live - 4 * O_KIND; } *o++ = tr_live - live; }
extern "C" void vh_make_array(ARGS) { i64* o = out; const i64 live = tr_live; { std::pair<T, T> s[2] = {{T(in[0]), T(in[1])}, {T(in[2]), T(in[3])}}; auto v = ToLimitedMap(s); *o++ = val(s[0].first) != in[0] || val(s[1].second) != in[3]; dump(v, o, 2); *o++ = tr_live - live - 4 * O_KIND; } *o++ = tr_live - live; }
extern "C" void vh_make_list(ARGS) { i64* o = out; const i64 live = tr_live; { auto v = MakeLimitedMap<2>(std::initializer_list<std::pair<T, T>>{{T(in[0]), T(in[1])}, {T(in[2]), T(in[3])}}); *o++ = 0; dump(v, o, 2); *o++ = tr_live - live; } *o++ = tr_live - live; }
# else
extern "C" void vh_make_helper(ARGS) { i64* o = out; const i64 live = tr_live; { T s(in[0]), t(in[1]); auto v = MakeLimitedSet(s, t); *o++ = val(s) != in[0] || val(t) != in[1]; dump(v, o, 2); *o++ = tr_live - live - 2 * O_KIND; } *o++ = tr_live - live; }
extern "C" void vh_make_of(ARGS) { i64* o = out; const i64 live = tr_live; { T s(in[0]), t(in[1]); auto v = MakeLimitedSetOf<T>(s, t); *o++ = val(s) != in[0] || val(t) != in[1]; dump(v, o, 2); *o++ = tr_live - live - 2 * O_KIND; } *o++ = tr_live - live; }
extern "C" void vh_make_array(ARGS) { i64* o = out; const i64 live = tr_live; { T s[2] = {T(in[0]), T(in[1])}; auto v = ToLimitedSet(s); *o++ = val(s[0]) != in[0] || val(s[1]) != in[1]; dump(v, o, 2); *o++ = tr_live - live - 2 * O_KIND; } *o++ = tr_live - live; }
extern "C" void vh_make_list(ARGS) { i64* o = out; const i64 live = tr_live; { auto v = MakeLimitedSet<2>(std::initializer_list<T>{T(in[0]), T(in[1])}); *o++ = 0; dump(v, o, 2); *o++ = tr_live - live; } *o++ = tr_live - live; }
# endif
#endif
#ifdef CONT_NATIVE
# include "container_native.h"
#endif
