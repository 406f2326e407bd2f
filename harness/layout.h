// Reports where a streaming state keeps its parts, by type and not by name or order.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <string_view>
#include <type_traits>
namespace vh {
template<typename T> struct IsArr : std::false_type {};
template<typename T, std::size_t N> struct IsArr<std::array<T, N>> : std::true_type { using E = T; static constexpr std::size_t n = N; };
struct Lay { std::size_t size, hash, hash_n, hash_w, buffer, buffer_n, total, total_w; };
template<typename S, typename F>
void Field(const S& s, const F& f, Lay& l) {
  const std::size_t off = reinterpret_cast<const char*>(&f) - reinterpret_cast<const char*>(&s);
  if constexpr (IsArr<F>::value) {
    if constexpr (sizeof(typename IsArr<F>::E) == 1) { l.buffer = off; l.buffer_n = IsArr<F>::n; }
    else { l.hash = off; l.hash_n = IsArr<F>::n; l.hash_w = sizeof(typename IsArr<F>::E); }
  } else {
    static_assert(std::is_integral_v<F>);
    l.total = off; l.total_w = sizeof(F);
  }
}
template<typename S> void Layout3(Lay* l) {
  S s{};
  *l = Lay{};
  l->size = sizeof(S);
  auto& [a, b, c] = s;
  Field(s, a, *l); Field(s, b, *l); Field(s, c, *l);
}
template<typename S> void Layout2(Lay* l) {
  S s{};
  *l = Lay{};
  l->size = sizeof(S);
  auto& [a, b] = s;
  Field(s, a, *l); Field(s, b, *l);
}
// BLAKE2b: two counters of the same type, told apart by what they hold after one byte
template<typename A> void LayoutBlake2b(std::size_t* l) {
  typename A::StreamState s = A::StreamInit();
  A::StreamUpdate(s, std::string_view("x", 1));
  l[0] = sizeof(s);
  auto& [a, b, c, d] = s;
  auto go = [&](auto& f) {
    using F = std::remove_cvref_t<decltype(f)>;
    const std::size_t off = reinterpret_cast<const char*>(&f) - reinterpret_cast<const char*>(&s);
    if constexpr (IsArr<F>::value) { l[sizeof(typename IsArr<F>::E) == 1 ? 2 : 1] = off; }
    else { static_assert(sizeof(F) == 8); l[f == 1 ? 3 : 4] = off; }
  };
  go(a); go(b); go(c); go(d);
}
}  // namespace vh
