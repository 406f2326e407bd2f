// Every hash algorithm: one-shot entry points and the streaming interfaces.
#include <cstddef>
#include <cstdint>
#include <new>
#include <string_view>
#include "mbo/hash/hash.h"
#include "mbo/hash/hash_extra.h"
using u64 = std::uint64_t; using std::string_view; using std::size_t;
namespace mh = mbo::hash;
namespace {
template<typename A> struct Out64 { static void Run(const char* p, size_t n, u64 s, u64* o) { o[0] = A::GetHash64(string_view(p, n), s); } };
template<typename A> struct Out128 { static void Run(const char* p, size_t n, u64 s, u64* o) { const mh::Hash128 h = A::GetHash128(string_view(p, n), s); o[0] = h.h1; o[1] = h.h2; } };
// streaming states told apart by what they hold, not by name or order of equal types
template<typename F> void At(const void* s, const F& f, size_t* l) { *l = reinterpret_cast<const char*>(&f) - reinterpret_cast<const char*>(s); }
}
extern "C" {
#define H64(N, ...) void vh_##N(const char* p, size_t n, u64 s, u64* o) { o[0] = __VA_ARGS__::GetHash64(string_view(p, n), s); }
#define H128(N, ...) void vh_##N(const char* p, size_t n, u64 s, u64* o) { const mh::Hash128 h = __VA_ARGS__::GetHash128(string_view(p, n), s); o[0] = h.h1; o[1] = h.h2; }
#define S64(N, A) \
  void vh_##N##_sinit(void* m, u64 s) { new (m) A::StreamState(A::StreamInit(s)); } \
  void vh_##N##_supdate(A::StreamState* m, const char* p, size_t n) { A::StreamUpdate(*m, string_view(p, n)); } \
  void vh_##N##_sfinal(const A::StreamState* m, u64* o) { o[0] = A::StreamFinalize(*m); } \
  void vh_##N##_winit(void* m, u64 s) { static_assert(sizeof(mh::Streamer<A>) == sizeof(A::StreamState)); new (m) mh::Streamer<A>(s); } \
  void vh_##N##_wupdate(mh::Streamer<A>* m, const char* p, size_t n) { m->Update(string_view(p, n)); } \
  void vh_##N##_wfinal(const mh::Streamer<A>* m, u64* o) { o[0] = m->Finalize(); }
#define D64(N, A, F) \
  void vh_##N##_d(const char* p, size_t n, u64, u64* o) { o[0] = A::GetHash64(string_view(p, n)); } \
  void vh_##N##_fd(const char* p, size_t n, u64, u64* o) { o[0] = F(string_view(p, n)); }
#define D128(N, A, F) \
  void vh_##N##_d(const char* p, size_t n, u64, u64* o) { const mh::Hash128 h = A::GetHash128(string_view(p, n)); o[0] = h.h1; o[1] = h.h2; } \
  void vh_##N##_fd(const char* p, size_t n, u64, u64* o) { const mh::Hash128 h = F(string_view(p, n)); o[0] = h.h1; o[1] = h.h2; }
#ifdef W_xxh64
D64(xxh64, mh::xxh64::Algorithm, mh::xxh64::GetHash64)
H64(xxh64, mh::xxh64::Algorithm)
void vh_xxh64_f(const char* p, size_t n, u64 s, u64* o) { o[0] = mh::xxh64::GetHash64(string_view(p, n), s); }
void vh_xxh64_e(const char* p, size_t n, u64 s, u64* o) { o[0] = mh::GetHash64<mh::xxh64::Algorithm>(string_view(p, n), s); }
S64(xxh64, mh::xxh64::Algorithm)
#endif
#ifdef W_siphash24
D64(siphash24, mh::siphash::Algorithm, mh::siphash::Algorithm::GetHash64)
H64(siphash24, mh::siphash::Algorithm)
void vh_siphash24_e(const char* p, size_t n, u64 s, u64* o) { o[0] = mh::GetHash64<mh::siphash::Algorithm>(string_view(p, n), s); }
S64(siphash24, mh::siphash::Algorithm)
#endif
#ifdef W_siphash24k
void vh_siphash24k(const char* p, size_t n, const u64* k, u64* o) { o[0] = mh::siphash::GetHash64(string_view(p, n), k[0], k[1]); }
void vh_siphash24k_f(const char* p, size_t n, const u64* k, u64* o) { o[0] = mh::siphash::SipHash<2, 4>(string_view(p, n), k[0], k[1]); }
#endif
#ifdef W_siphash13k
void vh_siphash13k(const char* p, size_t n, const u64* k, u64* o) { o[0] = mh::siphash::GetHash64Sip13(string_view(p, n), k[0], k[1]); }
void vh_siphash13k_f(const char* p, size_t n, const u64* k, u64* o) { o[0] = mh::siphash::SipHash<1, 3>(string_view(p, n), k[0], k[1]); }
#endif
#ifdef W_fnv1a
D64(fnv1a, mh::fnv1a::Algorithm, mh::fnv1a::GetHash64)
H64(fnv1a, mh::fnv1a::Algorithm)
void vh_fnv1a_f(const char* p, size_t n, u64 s, u64* o) { o[0] = mh::fnv1a::GetHash64(string_view(p, n), s); }
void vh_fnv1a_e(const char* p, size_t n, u64 s, u64* o) { o[0] = mh::GetHash64<mh::fnv1a::Algorithm>(string_view(p, n), s); }
#endif
#ifdef W_murmur3_64
D64(murmur3_64, mh::murmur3::Algorithm, mh::murmur3::GetHash64)
H64(murmur3_64, mh::murmur3::Algorithm)
#endif
#ifdef W_murmur3
D128(murmur3, mh::murmur3::Algorithm, mh::murmur3::GetHash128)
H128(murmur3, mh::murmur3::Algorithm)
void vh_murmur3_f(const char* p, size_t n, u64 s, u64* o) { const mh::Hash128 h = mh::murmur3::GetHash128(string_view(p, n), s); o[0] = h.h1; o[1] = h.h2; }
void vh_murmur3_e(const char* p, size_t n, u64 s, u64* o) { const mh::Hash128 h = mh::GetHash128<mh::murmur3::Algorithm>(string_view(p, n), s); o[0] = h.h1; o[1] = h.h2; }
#endif
#ifdef W_rapidhash
D64(rapidhash, mh::rapidhash::Algorithm, mh::rapidhash::GetHash64)
H64(rapidhash, mh::rapidhash::Algorithm)
void vh_rapidhash_f(const char* p, size_t n, u64 s, u64* o) { o[0] = mh::rapidhash::GetHash64(string_view(p, n), s); }
void vh_rapidhash_e(const char* p, size_t n, u64 s, u64* o) { o[0] = mh::GetHash64<mh::rapidhash::Algorithm>(string_view(p, n), s); }
#endif
#ifdef W_xxh3_64
D64(xxh3_64, mh::xxh3::Algorithm, mh::xxh3::GetHash64)
H64(xxh3_64, mh::xxh3::Algorithm)
void vh_xxh3_64_f(const char* p, size_t n, u64 s, u64* o) { o[0] = mh::xxh3::GetHash64(string_view(p, n), s); }
void vh_xxh3_64_e(const char* p, size_t n, u64 s, u64* o) { o[0] = mh::GetHash64<mh::xxh3::Algorithm>(string_view(p, n), s); }
#endif
#ifdef W_xxh3_128
D128(xxh3_128, mh::xxh3::Algorithm, mh::xxh3::GetHash128)
H128(xxh3_128, mh::xxh3::Algorithm)
void vh_xxh3_128_f(const char* p, size_t n, u64 s, u64* o) { const mh::Hash128 h = mh::xxh3::GetHash128(string_view(p, n), s); o[0] = h.h1; o[1] = h.h2; }
void vh_xxh3_128_e(const char* p, size_t n, u64 s, u64* o) { const mh::Hash128 h = mh::GetHash128<mh::xxh3::Algorithm>(string_view(p, n), s); o[0] = h.h1; o[1] = h.h2; }
#endif
#ifdef W_mumbo
D64(mumbo, mh::mumbo::Algorithm, mh::mumbo::GetHash64)
H64(mumbo, mh::mumbo::Algorithm)
void vh_mumbo_f(const char* p, size_t n, u64 s, u64* o) { o[0] = mh::mumbo::GetHash64(string_view(p, n), s); }
void vh_mumbo_e(const char* p, size_t n, u64 s, u64* o) { o[0] = mh::GetHash64<mh::mumbo::Algorithm>(string_view(p, n), s); }
S64(mumbo, mh::mumbo::Algorithm)
#endif
#ifdef W_mumbo128
D128(mumbo128, mh::mumbo::Algorithm, mh::mumbo::GetHash128)
H128(mumbo128, mh::mumbo::Algorithm)
void vh_mumbo128_f(const char* p, size_t n, u64 s, u64* o) { const mh::Hash128 h = mh::mumbo::GetHash128(string_view(p, n), s); o[0] = h.h1; o[1] = h.h2; }
void vh_mumbo128_e(const char* p, size_t n, u64 s, u64* o) { const mh::Hash128 h = mh::GetHash128<mh::mumbo::Algorithm>(string_view(p, n), s); o[0] = h.h1; o[1] = h.h2; }
#endif
#ifdef W_jumbo
D64(jumbo, mh::jumbo::Algorithm, mh::jumbo::GetHash64)
H64(jumbo, mh::jumbo::Algorithm)
void vh_jumbo_f(const char* p, size_t n, u64 s, u64* o) { o[0] = mh::jumbo::GetHash64(string_view(p, n), s); }
void vh_jumbo_e(const char* p, size_t n, u64 s, u64* o) { o[0] = mh::GetHash64<mh::jumbo::Algorithm>(string_view(p, n), s); }
S64(jumbo, mh::jumbo::Algorithm)
#endif
#ifdef W_jumbo128
D128(jumbo128, mh::jumbo::Algorithm, mh::jumbo::GetHash128)
H128(jumbo128, mh::jumbo::Algorithm)
void vh_jumbo128_f(const char* p, size_t n, u64 s, u64* o) { const mh::Hash128 h = mh::jumbo::GetHash128(string_view(p, n), s); o[0] = h.h1; o[1] = h.h2; }
void vh_jumbo128_e(const char* p, size_t n, u64 s, u64* o) { const mh::Hash128 h = mh::GetHash128<mh::jumbo::Algorithm>(string_view(p, n), s); o[0] = h.h1; o[1] = h.h2; }
#endif
#ifdef W_dumbo
D64(dumbo, mh::dumbo::Algorithm, mh::dumbo::GetHash64)
H64(dumbo, mh::dumbo::Algorithm)
void vh_dumbo_f(const char* p, size_t n, u64 s, u64* o) { o[0] = mh::dumbo::GetHash64(string_view(p, n), s); }
void vh_dumbo_e(const char* p, size_t n, u64 s, u64* o) { o[0] = mh::GetHash64<mh::dumbo::Algorithm>(string_view(p, n), s); }
#endif
#ifdef W_fambo
D64(fambo, mh::fambo::Algorithm, mh::fambo::GetHash64)
H64(fambo, mh::fambo::Algorithm)
void vh_fambo_f(const char* p, size_t n, u64 s, u64* o) { o[0] = mh::fambo::GetHash64(string_view(p, n), s); }
void vh_fambo_e(const char* p, size_t n, u64 s, u64* o) { o[0] = mh::GetHash64<mh::fambo::Algorithm>(string_view(p, n), s); }
#endif
#ifdef W_tembo_2
H64(tembo_2_3_0, mh::tembo::Algorithm<2, 3, false>)
#endif
#ifdef W_tembo_3
H64(tembo_3_8_0, mh::tembo::Algorithm<3, 8, false>)
#endif
#ifdef W_tembo_4
H64(tembo_4_10_0, mh::tembo::Algorithm<4, 10, false>)
#endif
#ifdef W_tembo_4
H64(tembo_4_40_1, mh::tembo::Algorithm<4, 40, true>)
#endif
#ifdef W_tembo_5
H64(tembo_5_10_0, mh::tembo::Algorithm<5, 10, false>)
#endif
#ifdef W_tembo_6
H64(tembo_6_13_1, mh::tembo::Algorithm<6, 13, true>)
#endif
#ifdef W_tembo_7
H64(tembo_7_16_0, mh::tembo::Algorithm<7, 16, false>)
#endif
#ifdef W_tembo_8
H64(tembo_8_40_0, mh::tembo::Algorithm<8, 40, false>)
#endif
#ifdef W_tembo_9
H64(tembo_9_20_1, mh::tembo::Algorithm<9, 20, true>)
#endif
#ifdef W_tembo_10
H64(tembo_10_40_0, mh::tembo::Algorithm<10, 40, false>)
#endif
#ifdef W_tembo_11
H64(tembo_11_40_1, mh::tembo::Algorithm<11, 40, true>)
#endif
#ifdef W_tembo_12
H64(tembo_12_24_0, mh::tembo::Algorithm<12, 24, false>)
#endif
#ifdef W_tembo_13
H64(tembo_13_40_0, mh::tembo::Algorithm<13, 40, false>)
#endif
#ifdef W_tembo_14
H64(tembo_14_30_1, mh::tembo::Algorithm<14, 30, true>)
#endif
#ifdef W_tembo_15
H64(tembo_15_40_0, mh::tembo::Algorithm<15, 40, false>)
#endif
#ifdef W_tembo_16
H64(tembo_16_40_1, mh::tembo::Algorithm<16, 40, true>)
#endif
#ifdef LAYOUT
#ifdef W_xxh64
void lay_xxh64(size_t* l) { using A = mh::xxh64::Algorithm; A::StreamState s = A::StreamInit(7); for (int i = 0; i < 33; ++i) A::StreamUpdate(s, string_view("x", 1));
  l[0] = sizeof(s); auto& [a, b, c, d] = s;
  auto go = [&](auto& f) { if constexpr (sizeof(f) == 8) { At(&s, f, l + (f == 1 ? 3 : 4)); } else { using E = std::remove_reference_t<decltype(f[0])>; At(&s, f, l + (sizeof(E) == 1 ? 2 : 1)); } };
  go(a); go(b); go(c); go(d); }
#endif
#ifdef W_siphash24
void lay_siphash24(size_t* l) { using A = mh::siphash::Algorithm; A::StreamState s = A::StreamInit(7); for (int i = 0; i < 9; ++i) A::StreamUpdate(s, string_view("x", 1));
  l[0] = sizeof(s); auto& [a, b, c, d] = s;
  auto go = [&](auto& f) { if constexpr (std::is_integral_v<std::remove_cvref_t<decltype(f)>>) { At(&s, f, l + (f == 1 ? 3 : 4)); } else At(&s, f, l + (sizeof(f) == 8 ? 2 : 1)); };
  go(a); go(b); go(c); go(d); }
#endif
#if defined(W_mumbo) || defined(W_jumbo)
void lay_mumbo(size_t* l) { using A = mh::mumbo::Algorithm; A::StreamState s = A::StreamInit(7); for (int i = 0; i < 129; ++i) A::StreamUpdate(s, string_view("x", 1));
  l[0] = sizeof(s); auto& [a, b, c, d, e, f, g] = s;
  auto go = [&](auto& f) { using F = std::remove_cvref_t<decltype(f)>;
    if constexpr (std::is_same_v<F, bool>) At(&s, f, l + 3); else if constexpr (std::is_integral_v<F>) At(&s, f, l + (f == 1 ? 5 : f == 129 ? 7 : 1));
    else { using E = std::remove_cvref_t<decltype(f[0])>; if constexpr (sizeof(E) == 8) At(&s, f, l + 2); else At(&s, f, l + (sizeof(F) == 16 ? 6 : 4)); } };
  go(a); go(b); go(c); go(d); go(e); go(f); go(g); }
#endif
#endif
}
