// The generic layer of the hash library, over abstract algorithms (uninterpreted functions of bytes and seed).
#include <compare>
#include <cstddef>
#include <cstdint>
#include <string_view>
#include "mbo/hash/hash.h"
#include "mbo/hash/hash_extra.h"
#include "mbo/hash/hash_mangle.h"
using u64 = std::uint64_t; using u32 = std::uint32_t; using std::string_view; using std::size_t;
namespace mh = mbo::hash;
extern "C" {
#ifdef HASHER_NATIVE
static u64 mix(u64 k, const char* p, size_t n, u64 s) { u64 h = k ^ (s * 0x9ddfea08eb382d69ULL) ^ n; for (size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)p[i]) * 0x100000001b3ULL, h ^= h >> 29; return h; }
u64 abs64(const char* p, size_t n, u64 s) noexcept { return mix(64, p, n, s); }
u32 abs32(const char* p, size_t n, u64 s) noexcept { return (u32)(mix(32, p, n, s) >> 7); }
void abs128(const char* p, size_t n, u64 s, u64* o) noexcept { o[0] = mix(1281, p, n, s); o[1] = mix(1282, p, n, s); }
#else
u64 abs64(const char* p, size_t n, u64 s) noexcept;
u32 abs32(const char* p, size_t n, u64 s) noexcept;
void abs128(const char* p, size_t n, u64 s, u64* o) noexcept;
#endif
}
namespace {
struct D64 { static u64 GetHash64(string_view d, u64 s = 1) noexcept { return abs64(d.data(), d.size(), s); } };
struct D128 { static mh::Hash128 GetHash128(string_view d, u64 s = 1) noexcept { u64 o[2]; abs128(d.data(), d.size(), s, o); return {.h1 = o[0], .h2 = o[1]}; } };
struct D32 { static u32 GetHash32(string_view d, u64 s = 1) noexcept { return abs32(d.data(), d.size(), s); } };
struct A6 : D64 {}; struct A1 : D128 {}; struct A61 : D64, D128 {}; struct A36 : D32, D64 {}; struct A31 : D32, D128 {}; struct A361 : D32, D64, D128 {};
struct Sink { char* p; size_t n = 0; void Append(string_view s) { for (char c : s) p[n++] = c; } };
}
extern "C" {
#define ALGO(A) \
  void vh_##A##_64(const char* p, size_t n, u64 s, u64* o) { o[0] = mh::Hasher<A>::GetHash64(string_view(p, n), s); } \
  void vh_##A##_64f(const char* p, size_t n, u64 s, u64* o) { o[0] = mh::GetHash64<A>(string_view(p, n), s); } \
  void vh_##A##_64d(const char* p, size_t n, u64, u64* o) { o[0] = mh::Hasher<A>::GetHash64(string_view(p, n)); } \
  void vh_##A##_64fd(const char* p, size_t n, u64, u64* o) { o[0] = mh::GetHash64<A>(string_view(p, n)); } \
  void vh_##A##_64cd(const char* p, size_t n, u64, u64* o) { o[0] = mh::Hasher<A>{}(string_view(p, n)); } \
  void vh_##A##_32(const char* p, size_t n, u64 s, u64* o) { o[0] = mh::Hasher<A>::GetHash32(string_view(p, n), s); } \
  void vh_##A##_32f(const char* p, size_t n, u64 s, u64* o) { o[0] = mh::GetHash32<A>(string_view(p, n), s); } \
  void vh_##A##_32d(const char* p, size_t n, u64, u64* o) { o[0] = mh::Hasher<A>::GetHash32(string_view(p, n)); } \
  void vh_##A##_32fd(const char* p, size_t n, u64, u64* o) { o[0] = mh::GetHash32<A>(string_view(p, n)); } \
  void vh_##A##_128(const char* p, size_t n, u64 s, u64* o) { const mh::Hash128 h = mh::Hasher<A>::GetHash128(string_view(p, n), s); o[0] = h.h1; o[1] = h.h2; } \
  void vh_##A##_128f(const char* p, size_t n, u64 s, u64* o) { const mh::Hash128 h = mh::GetHash128<A>(string_view(p, n), s); o[0] = h.h1; o[1] = h.h2; } \
  void vh_##A##_128d(const char* p, size_t n, u64, u64* o) { const mh::Hash128 h = mh::Hasher<A>::GetHash128(string_view(p, n)); o[0] = h.h1; o[1] = h.h2; } \
  void vh_##A##_128fd(const char* p, size_t n, u64, u64* o) { const mh::Hash128 h = mh::GetHash128<A>(string_view(p, n)); o[0] = h.h1; o[1] = h.h2; } \
  void vh_##A##_m(const char* p, size_t n, u64 s, u64* o) { o[0] = mh::MangledHasher<A>::GetHash(string_view(p, n), s); } \
  void vh_##A##_md(const char* p, size_t n, u64, u64* o) { o[0] = mh::MangledHasher<A>::GetHash(string_view(p, n)); } \
  void vh_##A##_mcd(const char* p, size_t n, u64, u64* o) { o[0] = mh::MangledHasher<A>{}(string_view(p, n)); } \
  void vh_##A##_mfd(const char* p, size_t n, u64, u64* o) { o[0] = mh::GetHash<A>(string_view(p, n)); } \
  void vh_##A##_mf0(const char* p, size_t n, u64, u64* o) { o[0] = mh::GetHash<A, 0>(string_view(p, n)); } \
  void vh_##A##_mfx(const char* p, size_t n, u64, u64* o) { o[0] = mh::GetHash<A, 0xfedcba9876543210ULL>(string_view(p, n)); }
ALGO(A6) ALGO(A1) ALGO(A61) ALGO(A36) ALGO(A31) ALGO(A361)
u64 vh_mangle(u64 x) { return mh::HashMangle(x); }
u32 vh_64to32(u64 x) { return mh::Hash64To32(x); }
u64 vh_128to64(u64 a, u64 b) { return mh::Hash128To64({.h1 = a, .h2 = b}); }
u64 vh_combine(u64 a, u64 b) { return mh::CombineHashes(a, b); }
int vh_cmp(u64 a, u64 b, u64 c, u64 d) { const mh::Hash128 x{.h1 = a, .h2 = b}, y{.h1 = c, .h2 = d}; const auto r = x <=> y; return r < 0 ? -1 : r > 0 ? 1 : 0; }
int vh_rel(u64 a, u64 b, u64 c, u64 d) { const mh::Hash128 x{.h1 = a, .h2 = b}, y{.h1 = c, .h2 = d}; return (x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5; }
size_t vh_hex(u64 a, u64 b, char* out) { Sink s{out}; AbslStringify(s, mh::Hash128{.h1 = a, .h2 = b}); return s.n; }
u64 vh_default_seed() { return mh::kDefaultSeed; }
// the defaults named by the documentation
int vh_default_algos() {
  return std::is_same_v<mh::DefaultHashAlgorithm, mh::mumbo::Algorithm> | std::is_same_v<mh::Default128HashAlgorithm, mh::jumbo::Algorithm> << 1
       | std::is_same_v<mh::DefaultHasher, mh::Hasher<mh::mumbo::Algorithm>> << 2 | std::is_same_v<mh::DefaultMangledHasher, mh::MangledHasher<mh::mumbo::Algorithm>> << 3; }
}
