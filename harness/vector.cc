// Every operation of mbo::container::LimitedVector from every state a list of given values can bring it to.
#include "container.h"
#include "mbo/container/limited_vector.h"
using namespace mbo::container;
namespace {
struct Args { const i32* in; u64 n, m, i, j; i32 x, y; i64* out; };
template<class V> void dump(const V& v, i64*& o, i64 cap) {
  *o++ = static_cast<i64>(v.size());
  i64 k = 0;
  for (auto it = v.begin(); it != v.end(); ++it, ++k) { o[k] = val(*it); }
  o += cap;
}
// runs op on a vector of n given values; records its result, the vector, and the elements left alive before and after the end
template<class T, auto C, class F> void one(const Args& a, F op) {
  using V = LimitedVector<T, C>;
  const i64 live = tr_live; i64* o = a.out;
  {
    Box<V> box; V* v = new (box.at()) V;
    for (u64 k = 0; k < a.n; ++k) { v->push_back(T(a.in[k])); }
    *o++ = op(*v);
    dump(*v, o, static_cast<i64>(v->capacity()));
    *o++ = tr_live - live;
    v->~V();
  }
  *o++ = tr_live - live;
}
template<class T, auto C, class U, auto D, class F> void two(const Args& a, F op) {
  using V = LimitedVector<T, C>; using W = LimitedVector<U, D>;
  const i64 live = tr_live; i64* o = a.out;
  {
    Box<V> box; V* v = new (box.at()) V; Box<W> wox; W* w = new (wox.at()) W;
    for (u64 k = 0; k < a.n; ++k) { v->push_back(T(a.in[k])); }
    for (u64 k = 0; k < a.m; ++k) { w->push_back(U(a.in[a.n + k])); }
    *o++ = op(*v, *w);
    dump(*v, o, static_cast<i64>(v->capacity())); dump(*w, o, static_cast<i64>(w->capacity()));
    *o++ = tr_live - live;
    w->~W(); v->~V();
  }
  *o++ = tr_live - live;
}
// builds a vector by a constructor
template<class T, auto C, class F> void make(const Args& a, F ctor) {
  using V = LimitedVector<T, C>;
  const i64 live = tr_live; i64* o = a.out;
  {
    Box<V> box; V* v = ctor(box.at());
    *o++ = 0; dump(*v, o, static_cast<i64>(v->capacity()));
    *o++ = tr_live - live;
    v->~V();
  }
  *o++ = tr_live - live;
}
template<class T, u64 N> struct Src { T s[N]; Src(const i32* p) { for (u64 k = 0; k < N; ++k) { s[k] = T(p[k]); } } i64 sum(const i32* p) { i64 bad = 0; for (u64 k = 0; k < N; ++k) { if (val(s[k]) != p[k]) { ++bad; } } return bad; } };
}
#define ARGS const i32* in, u64 n, u64 m, u64 i, u64 j, i32 x, i32 y, i64* out
#define A_ Args{in, n, m, i, j, x, y, out}
#define OP1(NAME, ...) extern "C" void vh_##NAME(ARGS) { one<T, C>(A_, [&](auto& v) -> i64 { using V = std::remove_reference_t<decltype(v)>; (void)sizeof(V); __VA_ARGS__ }); }
#define OP2(NAME, U, D, ...) extern "C" void vh_##NAME(ARGS) { two<T, C, U, D>(A_, [&](auto& v, auto& w) -> i64 { __VA_ARGS__ }); }
#define MK(NAME, ...) extern "C" void vh_##NAME(ARGS) { make<T, C>(A_, [&](LimitedVector<T, C>* p) { using V = LimitedVector<T, C>; __VA_ARGS__ }); }
#ifndef V_T
# define V_T Tr
# define V_C 4
#endif
using T = V_T; inline constexpr auto C = V_C;
inline constexpr u64 N = MakeLimitedOptions<C>().kCapacity;
inline constexpr u64 D1 = N > 1 ? N - 1 : N;
#if V_KIND == 1
using U = Tr;
#else
using U = i32;
#endif
static i64 at(auto& v, auto it) { return it - v.begin(); }
OP1(push_move, return val(v.push_back(T(x)));)
OP1(push_copy, const T t(x); const i64 r = val(v.push_back(t)); return r + (val(t) != x);)
OP1(emplace_back, return val(v.emplace_back(x));)
OP1(push_self, return val(v.push_back(v.begin()[i]));)
OP1(pop_back, v.pop_back(); return 0;)
OP1(clear, v.clear(); return 0;)
OP1(resize, v.resize(i); return 0;)
OP1(reserve, v.reserve(i); v.shrink_to_fit(); return 0;)
OP1(emplace, return at(v, v.emplace(v.begin() + i, x));)
OP1(emplace_self, return at(v, v.emplace(v.begin() + i, v.begin()[j]));)
OP1(erase, return at(v, v.erase(v.begin() + i));)
OP1(erase_range, return at(v, v.erase(v.begin() + i, v.begin() + j));)
OP1(insert_move, return at(v, v.insert(v.begin() + i, T(x)));)
OP1(insert_copy, const T t(x); const i64 r = at(v, v.insert(v.begin() + i, t)); return r + 100 * (val(t) != x);)
OP1(insert_value, return at(v, v.insert(v.begin() + i, x));)
OP1(insert_self, return at(v, v.insert(v.begin() + i, v.begin()[j]));)
OP1(insert_count, const T t(x); return at(v, v.insert(v.begin() + i, j, t));)
OP1(insert_count_self, return at(v, v.insert(v.begin() + i, m, v.begin()[j]));)
OP1(insert_range, Src<T, N + 1> s(in + n); const i64 r = at(v, v.insert(v.begin() + i, s.s + 0, s.s + j)); return r + 100 * s.sum(in + n);)
OP1(insert_list, return at(v, v.insert(v.begin() + i, std::initializer_list<T>{T(x), T(y)}));)
OP1(insert_backward, Src<T, N + 1> s(in + n); return at(v, v.insert(v.begin() + i, s.s + 1, s.s + 0));)
OP1(assign_count, const T t(x); v.assign(j, t); return 0;)
OP1(assign_range, Src<T, N + 1> s(in + n); v.assign(s.s + 0, s.s + j); return 100 * s.sum(in + n);)
OP1(assign_list2, v.assign(std::initializer_list<T>{T(x), T(y)}); return 0;)
OP1(at, return val(v.at(i)) ^ val(std::as_const(v).at(i)) ^ val(v[i]);)
OP1(at_const, return val(std::as_const(v).at(i));)
OP1(index, return val(v[i]);)
OP1(index_const, return val(std::as_const(v)[i]);)
OP1(front, return val(v.front()) ^ val(std::as_const(v).front()) ^ val(*v.data());)
OP1(back, return val(v.back()) ^ val(std::as_const(v).back()) ^ val(*(v.end() - 1));)
OP1(reverse, i64 bad = 0; auto it = v.rbegin(); auto ct = v.crbegin(); for (u64 k = 0; k < v.size(); ++k, ++it, ++ct) { bad += val(*it) != in[n - 1 - k]; bad += val(*ct) != in[n - 1 - k]; } return bad * 1000 + (it.base() == v.rend().base()) + (ct.base() == v.crend().base());)
OP1(counts, return static_cast<i64>(v.size() + 100 * v.max_size() + 10000 * v.capacity() + 1000000 * v.empty() + 10000000 * (v.cend() - v.cbegin()));)
OP1(self_copy, v = std::as_const(v); return 0;)
OP1(self_move, auto& r = v; v = std::move(r); return 0;)
OP1(write, v[i] = T(x); v.at(j) = T(y); return 0;)
OP2(copy_ctor, T, C, w.clear(); Box<LimitedVector<T, C>> b; auto* c = new (b.at()) LimitedVector<T, C>(std::as_const(v)); for (u64 k = 0; k < c->size(); ++k) { w.push_back((*c)[k]); } using V = LimitedVector<T, C>; c->~V(); return 0;)
OP2(move_ctor, T, C, w.clear(); Box<LimitedVector<T, C>> b; auto* c = new (b.at()) LimitedVector<T, C>(std::move(v)); for (u64 k = 0; k < c->size(); ++k) { w.push_back((*c)[k]); } using V = LimitedVector<T, C>; c->~V(); return 0;)
OP2(copy_assign, T, C, return &(w = std::as_const(v)) == &w;)
OP2(move_assign, T, C, return &(w = std::move(v)) == &w;)
OP2(swap, T, C, v.swap(w); return 0;)
OP2(swap_smaller, T, D1, v.swap(w); return 0;)
OP2(conv_copy_assign, U, D1, v = std::as_const(w); return 0;)
OP2(conv_move_assign, U, D1, v = std::move(w); return 0;)
OP2(conv_copy_ctor, U, D1, v.clear(); Box<LimitedVector<T, C>> b; auto* c = new (b.at()) LimitedVector<T, C>(std::as_const(w)); for (u64 k = 0; k < c->size(); ++k) { v.push_back((*c)[k]); } using V = LimitedVector<T, C>; c->~V(); return 0;)
OP2(conv_move_ctor, U, D1, v.clear(); Box<LimitedVector<T, C>> b; auto* c = new (b.at()) LimitedVector<T, C>(std::move(w)); for (u64 k = 0; k < c->size(); ++k) { v.push_back((*c)[k]); } using V = LimitedVector<T, C>; c->~V(); return 0;)
OP2(compare, T, C, const auto c = v <=> w; return (c < 0 ? 1 : c == 0 ? 2 : 3) + 10 * (v == w) + 20 * (v != w) + 40 * (v < w);)
OP2(compare_cap, T, D1, const auto c = v <=> w; return (c < 0 ? 1 : c == 0 ? 2 : 3) + 10 * (v == w) + 20 * (v != w) + 40 * (v < w);)
MK(ctor_default, return new (p) V();)
MK(ctor_range, Src<T, N + 1> s(in); V* v = new (p) V(s.s + 0, s.s + j); if (s.sum(in)) { vh_bad(20); } return v;)
MK(ctor_list2, return new (p) V(std::initializer_list<T>{T(x), T(y)});)
MK(ctor_list_conv, return new (p) V(std::initializer_list<i32>{x, y});)
#if V_C == 2
extern "C" void vh_make_helper(ARGS) { i64* o = out; const i64 live = tr_live; { T s(x), t(y); auto v = MakeLimitedVector(s, t); *o++ = val(s) != x || val(t) != y; dump(v, o, 2); *o++ = tr_live - live - 2 * V_KIND; } *o++ = tr_live - live; }
extern "C" void vh_make_array(ARGS) { i64* o = out; const i64 live = tr_live; { T s[2] = {T(x), T(y)}; auto v = ToLimitedVector(s); *o++ = val(s[0]) != x || val(s[1]) != y; dump(v, o, 2); *o++ = tr_live - live - 2 * V_KIND; } *o++ = tr_live - live; }
extern "C" void vh_make_array_move(ARGS) { i64* o = out; const i64 live = tr_live; { T s[2] = {T(x), T(y)}; auto v = ToLimitedVector(std::move(s)); *o++ = 0; dump(v, o, 2); *o++ = tr_live - live - 2 * V_KIND; } *o++ = tr_live - live; }
extern "C" void vh_make_list(ARGS) { i64* o = out; const i64 live = tr_live; { auto v = MakeLimitedVector<2>(std::initializer_list<T>{T(x), T(y)}); *o++ = 0; dump(v, o, 2); *o++ = tr_live - live; } *o++ = tr_live - live; }
extern "C" void vh_make_value(ARGS) { i64* o = out; const i64 live = tr_live; { const T t(x); auto v = MakeLimitedVector<2>(t); *o++ = val(t) != x; dump(v, o, 2); *o++ = tr_live - live - V_KIND; } *o++ = tr_live - live; }
#endif
#ifdef CONT_NATIVE
# include "container_native.h"
#endif
