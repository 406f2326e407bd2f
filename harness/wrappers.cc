// Every operation of the value wrappers of mbo/types from every state: the wrapped object, its kind and the two external objects
// it may refer to are given; the states afterwards, the result and the objects left alive are recorded.
#define MBO_LOG_DEMANGLE_H_
#define ABSL_HASH_HASH_H_
#define ABSL_STRINGS_STR_FORMAT_H_
#include "container.h"
#include <cstddef>
#include <optional>
#include <string_view>
namespace mbo::log { template<typename T> const char* DemangleV(const T&) { return ""; } }
extern "C" u64 vx_hash(i64 v);  // any function of the value
// room for the pointer alternative of a union in front of the element's ghost state
struct Tw {
  u64 pad; Tr t;
  Tw() {}
  Tw(i32 x) : t(x) {}
  Tw(const Tw& o) : t(o.t) {}
  Tw(Tw&& o) noexcept : t(std::move(o.t)) {}
  Tw& operator=(const Tw& o) { t = o.t; return *this; }
  Tw& operator=(Tw&& o) noexcept { t = std::move(o.t); return *this; }
  friend std::strong_ordering operator<=>(const Tw& a, const Tw& b) { return a.t <=> b.t; }
  friend bool operator==(const Tw& a, const Tw& b) { return a.t == b.t; }
};
inline i32 val(const Tw& x) { return x.t.get(); }
namespace absl {
template<int&...> inline std::size_t HashOf() { return 0; }
template<int&...> inline std::size_t HashOf(const Tw& v) { return vx_hash(::val(v)); }
template<int&...> inline std::size_t HashOf(const i32& v) { return vx_hash(v); }
template<int&...> inline std::size_t HashOf(const std::nullopt_t&) { return vx_hash(i64{1} << 40); }
struct vh_sink { i64 seen = 0; i64 value = 0; };
template<typename T> void Format(vh_sink* s, const char* f, const T& v) { s->seen = f[0] == '%' && f[1] == 'v' && f[2] == 0 ? s->seen + 1 : -100; s->value = ::val(v); }
inline void Format(vh_sink* s, const char* f) { s->seen = std::string_view(f) == "std::nullopt" ? s->seen + 2 : -100; s->value = 0; }
}
struct vh_H { u64 h = 0; static vh_H combine(vh_H a, u64 v) { a.h += 2 * v + 1; return a; } };
#include "mbo/types/no_destruct.h"
#include "mbo/types/opaque.h"
#include "mbo/types/optional_data_or_ref.h"
#include "mbo/types/optional_ref.h"
#include "mbo/types/ref_wrap.h"
#include "mbo/types/required.h"
using namespace mbo::types;
MBO_TYPES_OPAQUE_HOOKS(Tw)
namespace {
struct Args { const i32* in; u64 n, m, i, j; i32 x, y; i64* out; };
template<class T> struct Ext { T e[2]; Ext(const i32* in) : e{T(in[0]), T(in[1])} {} };
// kind of a wrapper: 0 empty, 1 holds its own value, 2 / 3 refers to the first / second external object, 4 refers to neither
template<class T, class R> i64 kind(const OptionalDataOrRef<T, R>& w, const Ext<T>& e) {
  if (w.HoldsNullopt() != !w.has_value() || (w.HoldsData() + w.HoldsReference() + w.HoldsNullopt()) != 1) { return -1; }
  return w.HoldsNullopt() ? 0 : w.HoldsData() ? 1 : &w.value() == &e.e[0] ? 2 : &w.value() == &e.e[1] ? 3 : 4;
}
template<class T> i64 kind(const OptionalRef<T>& w, const Ext<std::remove_const_t<T>>& e) { return !w.has_value() ? 0 : &w.value() == &e.e[0] ? 2 : &w.value() == &e.e[1] ? 3 : 4; }
template<class T> i64 kind(const RefWrap<T>& w, const Ext<T>& e) { return &w.get() == &e.e[0] ? 2 : &w.get() == &e.e[1] ? 3 : 4; }
template<class T, class W> i64 inside(const W& w, const T& v) { return reinterpret_cast<const char*>(&v) >= reinterpret_cast<const char*>(&w) && reinterpret_cast<const char*>(&v) < reinterpret_cast<const char*>(&w + 1) ? 1 : 4; }
template<class T> i64 kind(const Required<T>& w, const Ext<T>&) { return inside(w, w.get()); }
template<class T> i64 kind(const NoDestruct<T>& w, const Ext<T>&) { return inside(w, w.Get()); }
template<class T> i64 kind(const OpaqueValue<T>& w, const Ext<T>& e) { return w.operator->() == nullptr ? 0 : &*w == &e.e[0] || &*w == &e.e[1] ? 4 : 1; }
template<class W> const auto& held(const W& w) { if constexpr (requires { w.value(); }) { return w.value(); } else if constexpr (requires { w.get(); }) { return w.get(); } else if constexpr (requires { w.Get(); }) { return w.Get(); } else { return *w; } }
template<class W, class T> void set(Box<W>& b, W*& w, u64 k, T& e0, T& e1, i32 x);
template<class T, class R> OptionalDataOrRef<T, R>* make(OptionalDataOrRef<T, R>* p, u64 k, Ext<T>& e, i32 x) {
  auto* w = new (p) OptionalDataOrRef<T, R>;
  if (k == 1) { w->emplace(x); } else if (k == 2) { w->set_ref(e.e[0]); } else if (k == 3) { w->set_ref(e.e[1]); }
  return w;
}
template<class T> OptionalRef<T>* make(OptionalRef<T>* p, u64 k, Ext<std::remove_const_t<T>>& e, i32) {
  auto* w = new (p) OptionalRef<T>;
  if (k == 2) { w->set_ref(e.e[0]); } else if (k == 3) { w->set_ref(e.e[1]); }
  return w;
}
template<class T> RefWrap<T>* make(RefWrap<T>* p, u64 k, Ext<T>& e, i32) { return new (p) RefWrap<T>(e.e[k - 2]); }
template<class T> Required<T>* make(Required<T>* p, u64, Ext<T>&, i32 x) { return new (p) Required<T>(T(x)); }
template<class T> NoDestruct<T>* make(NoDestruct<T>* p, u64, Ext<T>&, i32 x) { return new (p) NoDestruct<T>(x); }
template<class T> OpaqueValue<T>* make(OpaqueValue<T>* p, u64, Ext<T>&, i32 x) { return new (p) OpaqueValue<T>(x); }
template<class W, class T> void dump(const W& w, const Ext<T>& e, i64*& o) { const i64 k = kind(w, e); *o++ = k; *o++ = k == 0 ? 0 : val(held(w)); }
// one operation on the wrapper in state n; out: result, kind, value, external values, objects alive, alive after destruction
template<class T, class W, class F> void one(const Args& a, F op) {
  const i64 live = tr_live; i64* o = a.out;
  { Ext<T> e(a.in); Box<W> box; W* w = make(box.at(), a.n, e, a.x); *o++ = op(*w, e); dump(*w, e, o);
    *o++ = val(e.e[0]); *o++ = val(e.e[1]); *o++ = tr_live - live; w->~W(); }
  *o++ = tr_live - live;
}
template<class T, class W, class F> void ctor(const Args& a, F op) {
  const i64 live = tr_live; i64* o = a.out;
  { Ext<T> e(a.in); Box<W> box; W* w = op(box.at(), e); *o++ = 0; dump(*w, e, o);
    *o++ = val(e.e[0]); *o++ = val(e.e[1]); *o++ = tr_live - live; w->~W(); }
  *o++ = tr_live - live;
}
// two wrappers in states n and m; the second one is recorded behind the first. KEEP: the second is constructed by the operation
template<class T, class W, class X, class F> void two(const Args& a, F op) {
  const i64 live = tr_live; i64* o = a.out;
  { Ext<T> e(a.in); Box<W> box; W* w = make(box.at(), a.n, e, a.x); Box<X> cox; X* c = make(cox.at(), a.m, e, a.y);
    *o++ = op(*w, *c); dump(*w, e, o); dump(*c, e, o);
    *o++ = val(e.e[0]); *o++ = val(e.e[1]); *o++ = tr_live - live; c->~X(); w->~W(); }
  *o++ = tr_live - live;
}
template<class T, class W, class F> void copy(const Args& a, F op) {
  const i64 live = tr_live; i64* o = a.out;
  { Ext<T> e(a.in); Box<W> cox; W* c = make(cox.at(), a.m, e, a.y); Box<W> box; W* w = op(box.at(), *c);
    *o++ = 0; dump(*w, e, o); dump(*c, e, o);
    *o++ = val(e.e[0]); *o++ = val(e.e[1]); *o++ = tr_live - live; w->~W(); c->~W(); }
  *o++ = tr_live - live;
}
template<class C> i64 ord(C c) { return c < 0 ? 1 : c > 0 ? 3 : 2; }
template<class A, class B> i64 rel(const A& a, const B& b) {
  i64 r = ord(a <=> b);
  if constexpr (requires { a == b; }) { r += (a == b ? 10 : 0) + (a != b ? 20 : 0); }
  if constexpr (requires { a.operator<(b); }) { if (a.operator<(b) != (a < b)) { r += 1000; } }
  if constexpr (requires { a.operator==(b); }) { if (a.operator==(b) != (a == b)) { r += 2000; } }
  if constexpr (requires { a.operator<=>(b); }) { r += 10000 * ord(a.operator<=>(b)); }
  return r + (a < b ? 40 : 0) + (a > b ? 80 : 0) + (a <= b ? 160 : 0) + (a >= b ? 320 : 0);
}
template<class W> i64 fmt(const W& w) { absl::vh_sink s; AbslStringify(s, w); return s.seen; }
template<class W> i64 fmtv(const W& w) { absl::vh_sink s; AbslStringify(s, w); return s.value; }
}
#define ARGS const i32* in, u64 n, u64 m, u64 i, u64 j, i32 x, i32 y, i64* out
#define A_ Args{in, n, m, i, j, x, y, out}
#define OP1(NAME, ...) extern "C" void vh_##NAME(ARGS) { one<T, W>(A_, [&](W& w, Ext<T>& e) -> i64 { (void)e; __VA_ARGS__ }); }
#define MK(NAME, ...) extern "C" void vh_##NAME(ARGS) { ctor<T, W>(A_, [&](W* p, Ext<T>& e) { (void)e; return __VA_ARGS__; }); }
#define OP2(NAME, ...) extern "C" void vh_##NAME(ARGS) { two<T, W, W>(A_, [&](W& w, W& c) -> i64 { __VA_ARGS__ }); }
#define CP(NAME, ...) extern "C" void vh_##NAME(ARGS) { copy<T, W>(A_, [&](W* p, W& c) { return __VA_ARGS__; }); }
using T = W_T;
using R = W_R;
#if W_KIND == 1
using W = OptionalDataOrRef<T, R>;
MK(ctor_default, new (p) W)
MK(ctor_null, new (p) W(std::nullopt))
MK(ctor_value, new (p) W(T(x)))
MK(ctor_ref, new (p) W(e.e[0]))
CP(copy_ctor, new (p) W(static_cast<const W&>(c)))
CP(move_ctor, new (p) W(std::move(c)))
OP2(copy_assign, return &(w = static_cast<const W&>(c)) == &w;)
OP2(move_assign, return &(w = std::move(c)) == &w;)
OP1(self_copy, W& s = w; w = s; return 1;)
OP1(self_move, W& s = w; w = std::move(s); return 1;)
OP2(swap, std::swap(w, c); return 0;)
OP1(assign_null, return &(w = std::nullopt) == &w;)
OP1(reset, return &w.reset() == &w;)
OP1(set_ref, return &w.set_ref(e.e[1]) == &w;)
OP1(assign_value, return &(w = T(y)) == &w;)
OP1(emplace, return &w.emplace(y) == &w;)
OP1(emplace_value, return &w.emplace(T(y)) == &w;)
OP1(emplace_default, return &w.emplace() == &w;)
OP1(as_data, return val(w.as_data());)
OP1(as_data_arg, return val(w.as_data(y));)
OP1(as_data_write, w.as_data() = T(y); return 0;)
OP1(value, return val(w.value());)
OP1(value_const, return val(static_cast<const W&>(w).value());)
OP1(star, return &*w == &w.value() && w.operator->() == &w.value() && &*static_cast<const W&>(w) == &w.value() && static_cast<const W&>(w).operator->() == &w.value();)
OP1(star_null, return val(*w);)
OP1(arrow_null, return val(*w.operator->());)
OP1(get, T d(y); const auto& g = w.get(d); return val(g) + (i64{&g == &d} << 40);)
OP1(state, return (w.has_value() ? 1 : 0) + (w ? 2 : 0) + (w.HoldsData() ? 4 : 0) + (w.HoldsReference() ? 8 : 0) + (w.HoldsNullopt() ? 16 : 0);)
OP2(compare, return rel(w, c);)
OP1(compare_value, return rel(w, T(y));)
OP1(compare_null, return rel(w, std::nullopt);)
OP1(hash, return AbslHashValue(vh_H{}, w).h;)
OP1(format, return fmt(w);)
OP1(format_value, return fmtv(w);)
#ifndef W_CONST
OP1(write, w.value() = T(y); return 0;)
OP1(assign_lvalue, T t(y); W& r = (w = t); return &r == &w && val(t) == y;)
extern "C" void vh_compare_const(ARGS) { two<T, W, OptionalDataOrRef<T, const T>>(A_, [&](auto& w, auto& c) -> i64 { return rel(w, c); }); }
#endif
#elif W_KIND == 2
using W = OptionalRef<R>;
MK(ctor_default, new (p) W)
MK(ctor_null, new (p) W(std::nullopt))
MK(ctor_ref, new (p) W(e.e[0]))
CP(copy_ctor, new (p) W(static_cast<const W&>(c)))
CP(move_ctor, new (p) W(std::move(c)))
OP1(reset, return &w.reset() == &w;)
OP1(set_ref, return &w.set_ref(e.e[1]) == &w;)
OP1(value, return val(w.value());)
OP1(value_const, return val(static_cast<const W&>(w).value());)
OP1(star, return &*w == &w.value() && w.operator->() == &w.value() && &*static_cast<const W&>(w) == &w.value() && static_cast<const W&>(w).operator->() == &w.value();)
OP1(star_null, return val(*w);)
OP1(arrow_null, return val(*w.operator->());)
OP1(state, return (w.has_value() ? 1 : 0) + (w ? 2 : 0);)
OP2(compare, return rel(w, c);)
OP1(compare_value, return rel(w, T(y));)
OP1(compare_null, return rel(w, std::nullopt);)
OP1(hash, return AbslHashValue(vh_H{}, w).h;)
OP1(format, return fmt(w);)
OP1(format_value, return fmtv(w);)
#ifndef W_CONST
OP1(write, w.value() = T(y); return 0;)
OP1(assign_through, return &(w = T(y)) == &w;)
OP1(assign_lvalue, T t(y); W& r = (w = t); return &r == &w && val(t) == y;)
extern "C" void vh_compare_const(ARGS) { two<T, W, OptionalRef<const T>>(A_, [&](auto& w, auto& c) -> i64 { return rel(w, c); }); }
#endif
#elif W_KIND == 3
using W = RefWrap<T>;
MK(ctor_ref, new (p) W(e.e[0]))
CP(copy_ctor, new (p) W(static_cast<const W&>(c)))
CP(move_ctor, new (p) W(std::move(c)))
OP2(copy_assign, return &(w = static_cast<const W&>(c)) == &w;)
OP2(move_assign, return &(w = std::move(c)) == &w;)
OP2(swap, std::swap(w, c); return 0;)
OP1(rebind, return &(w = e.e[1]) == &w;)
OP1(value, return val(w.get());)
OP1(star, T& t = w; const W& k = w; const T& u = k; return &*w == &w.get() && w.operator->() == &w.get() && &*k == &w.get() && k.operator->() == &w.get() && &t == &w.get() && &u == &w.get() && &k.get() == &w.get();)
OP1(write, w.get() = T(y); return 0;)
OP1(order_value, return ord(w <=> T(y));)
OP1(order_ext, return ord(w <=> e.e[0]);)
OP1(hash, return AbslHashValue(vh_H{}, w).h;)
OP1(format, return fmt(w);)
OP1(format_value, return fmtv(w);)
OP2(order, return ord(w <=> c);)
#elif W_KIND == 4
using W = Required<T>;
MK(ctor_default, new (p) W())
MK(ctor_value, new (p) W(T(x)))
MK(ctor_conv, new (p) W(x))
MK(ctor_place, new (p) W(std::in_place, x))
CP(copy_ctor, new (p) W(static_cast<const W&>(c)))
CP(move_ctor, [&] { W* q = new (p) W(std::move(c)); c.emplace(y); return q; }())
OP2(copy_assign, return &(w = static_cast<const W&>(c)) == &w;)
OP2(move_assign, W& r = (w = std::move(c)); c.emplace(y); return &r == &w;)
OP2(swap, std::swap(w, c); return 0;)
OP1(emplace, return &w.emplace(T(y)) == &w;)
OP1(emplace_conv, return &w.emplace(y) == &w;)
OP1(emplace_default, return &w.emplace() == &w;)
OP1(emplace_lvalue, T t(y); return &w.emplace(t) == &w && val(t) == y;)
OP1(emplace_self, return &w.emplace(*w) == &w;)
OP1(emplace_self_move, return &w.emplace(std::move(*w)) == &w;)
OP1(value, return val(w.get());)
OP1(star, T& t = w; const W& k = w; const T& u = k; return &*w == &w.get() && w.operator->() == &w.get() && &*k == &w.get() && k.operator->() == &w.get() && &t == &w.get() && &u == &w.get() && &k.get() == &w.get();)
OP1(write, w.get() = T(y); return 0;)
OP1(order_value, return ord(w <=> T(y));)
OP1(hash, return AbslHashValue(vh_H{}, w).h;)
OP1(format, return fmt(w);)
OP1(format_value, return fmtv(w);)
OP2(order, return ord(w <=> c);)
#elif W_KIND == 5
using W = NoDestruct<T>;
MK(ctor_default, new (p) W())
MK(ctor_value, new (p) W(T(x)))
MK(ctor_conv, new (p) W(x))
OP1(value, return val(w.Get());)
OP1(star, const W& k = w; return &*w == &w.Get() && w.operator->() == &w.Get() && &*k == &w.Get() && k.operator->() == &w.Get() && &k.Get() == &w.Get();)
OP1(write, w.Get() = T(y); return 0;)
OP1(hash, return AbslHashValue(vh_H{}, w).h;)
OP1(format, return fmt(w);)
OP1(format_value, return fmtv(w);)
#else
using W = OpaqueValue<T>;
MK(ctor_default, new (p) W())
MK(ctor_value, new (p) W(T(x)))
MK(ctor_conv, new (p) W(x))
CP(copy_ctor, new (p) W(static_cast<const W&>(c)))
CP(copy_ctor_lvalue, new (p) W(c))
CP(move_ctor, new (p) W(std::move(c)))
OP2(copy_assign, return &(w = static_cast<const W&>(c)) == &w;)
OP2(move_assign, return &(w = std::move(c)) == &w;)
OP1(self_copy, W& s = w; w = s; return 1;)
OP1(self_move, W& s = w; w = std::move(s); return 1;)
OP2(swap, std::swap(w, c); return 0;)
OP1(value, return val(*w);)
OP1(star, const W& k = w; return w.operator->() == &*w && &*k == &*w && k.operator->() == &*w;)
OP1(write, *w = T(y); return 0;)
OP1(order_value, return ord(w <=> T(y));)
OP2(order, return ord(w <=> c) + (w < c ? 10 : 0) + (w > c ? 20 : 0);)
OP1(hash, return AbslHashValue(vh_H{}, w).h;)
#endif
#ifdef CONT_NATIVE
extern "C" u64 vx_hash(i64 v) { return static_cast<u64>(v) * 0x9e3779b97f4a7c15ULL + 12345; }
#include "container_native.h"
#endif
