// Element type with ghost state, and the recording of results, for the container harnesses.
#pragma once
#include <compare>
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <new>
#include <utility>
using u64 = std::uint64_t; using i64 = std::int64_t; using i32 = std::int32_t;
extern "C" {
[[noreturn]] void vh_fatal();        // a failed MBO_CONFIG_REQUIRE
void vh_bad(int what);               // contract of the element type violated
void vh_watch(const void* p, u64 n); // p..p+n is the storage of a container: construction in it must hit raw slots
bool vh_inslot(const void* p);
}
inline i64 tr_live = 0;
enum : std::uint32_t { RAW = 0x5a5a5a5a, LIVE = 0x11111111, MOVED = 0x22222222, DEAD = 0x33333333 };
// v: value; g: ghost. Construction needs a slot that holds no object, destruction one that does, reading one that has its value.
struct Tr {
  i32 v; std::uint32_t g;
  static bool alive(std::uint32_t g) { return g == LIVE || g == MOVED; }
  void born() { if (vh_inslot(this) && alive(g)) { vh_bad(1); } g = LIVE; ++tr_live; }
  Tr() { born(); v = 0; }
  Tr(i32 x) { born(); v = x; }
  Tr(const Tr& o) { if (o.g != LIVE) { vh_bad(2); } born(); v = o.v; }
  Tr(Tr&& o) noexcept { if (o.g != LIVE) { vh_bad(3); } born(); v = o.v; o.g = MOVED; o.v = -77; }
  Tr& operator=(const Tr& o) { if (!alive(g) || o.g != LIVE) { vh_bad(4); } v = o.v; g = LIVE; return *this; }
  Tr& operator=(Tr&& o) noexcept { if (!alive(g) || o.g != LIVE || this == &o) { vh_bad(5); } v = o.v; g = LIVE; o.g = MOVED; o.v = -77; return *this; }
  ~Tr() { if (!alive(g)) { vh_bad(6); } g = DEAD; --tr_live; }
  i32 get() const { if (g != LIVE) { vh_bad(7); } return v; }
  friend std::strong_ordering operator<=>(const Tr& a, const Tr& b) { return a.get() <=> b.get(); }
  friend bool operator==(const Tr& a, const Tr& b) { return a.get() == b.get(); }
};
inline i32 val(i32 x) { return x; }
inline i32 val(const Tr& x) { return x.get(); }
// storage for a container, filled with a pattern and registered before the container is constructed in it
template<class C> struct Box {
  alignas(C) unsigned char raw[sizeof(C)];
  Box() { std::memset(raw, 0x5a, sizeof(raw)); vh_watch(raw, sizeof(raw)); }
  C* at() { return reinterpret_cast<C*>(raw); }
};
