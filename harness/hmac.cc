// HMAC for the verifier: the library's generic HMAC instantiated with an abstract digest algorithm
// whose four operations are only declared (they are verified by contract: see vc/hmac.py).
// With HMAC_NATIVE: the same entries over the real algorithms, compiled natively for the failing-input search.
#include <cstddef>
#include <new>
#include <string_view>
#include "mbo/digest/digest.h"
extern "C" {
std::uint64_t abs_init(std::size_t b, std::size_t d) noexcept;
void abs_update(std::uint64_t* h, const char* p, std::size_t n) noexcept;
void abs_final(std::uint64_t h, std::uint8_t* out) noexcept;
void abs_digest(std::size_t b, std::size_t d, const char* p, std::size_t n, std::uint8_t* out) noexcept;
}
namespace vh {
struct AbsState { std::uint64_t h = 0; };
template<std::size_t B, std::size_t D> struct Abs {
  static constexpr std::size_t kDigestSize = D;
  static constexpr std::size_t kBlockSize = B;
  using DigestType = std::array<std::uint8_t, D>;
  using StreamState = AbsState;
  static constexpr StreamState StreamInit() noexcept { return {abs_init(B, D)}; }
  static constexpr void StreamUpdate(StreamState& s, std::string_view d) noexcept { abs_update(&s.h, d.data(), d.size()); }
  static constexpr DigestType StreamFinalize(StreamState s) noexcept { DigestType r; abs_final(s.h, r.data()); return r; }
  static constexpr DigestType Digest(std::string_view d) noexcept { DigestType r; abs_digest(B, D, d.data(), d.size(), r.data()); return r; }
};
}  // namespace vh
#define VH_HMAC(N, ...)                                                                                    \
  using N##_A = __VA_ARGS__;                                                                               \
  using N##_H = mbo::digest::Hmac<N##_A>;                                                                  \
  using N##_S = N##_H::StreamState;                                                                        \
  using N##_W = mbo::digest::HmacStreamer<N##_A>;                                                          \
  static_assert(sizeof(N##_W) == sizeof(N##_S));                                                           \
  extern "C" {                                                                                             \
  std::size_t N##_size() { return sizeof(N##_S); }                                                         \
  void vh_##N##_init(N##_S* s, const char* k, size_t kn) { *s = N##_H::StreamInit(std::string_view(k, kn)); } \
  void vh_##N##_update(N##_S* s, const char* p, size_t n) { N##_H::StreamUpdate(*s, std::string_view(p, n)); } \
  void vh_##N##_final(const N##_S* s, uint8_t* out) { auto d = N##_H::StreamFinalize(*s); __builtin_memcpy(out, d.data(), d.size()); } \
  void vh_##N##_winit(N##_W* s, const char* k, size_t kn) { new (s) N##_W(std::string_view(k, kn)); }      \
  void vh_##N##_wupdate(N##_W* s, const char* p, size_t n) { s->Update(std::string_view(p, n)); }          \
  void vh_##N##_wfinal(const N##_W* s, uint8_t* out) { auto d = s->Finalize(); __builtin_memcpy(out, d.data(), d.size()); } \
  void vh_##N##_digest(const char* k, size_t kn, const char* p, size_t n, uint8_t* out) { auto d = N##_H::Digest(std::string_view(k, kn), std::string_view(p, n)); __builtin_memcpy(out, d.data(), d.size()); } \
  }
#ifdef HMAC_NATIVE
#define VH_REAL(N, NS) VH_HMAC(N, mbo::digest::NS::Algorithm)
VH_REAL(md5, md5) VH_REAL(sha1, sha1) VH_REAL(sha224, sha224) VH_REAL(sha256, sha256) VH_REAL(sha384, sha384) VH_REAL(sha512, sha512)
VH_REAL(sha512_224, sha512_224) VH_REAL(sha512_256, sha512_256) VH_REAL(sha3_224, sha3_224) VH_REAL(sha3_256, sha3_256) VH_REAL(sha3_384, sha3_384)
VH_REAL(sha3_512, sha3_512) VH_REAL(blake2b, blake2b) VH_REAL(blake2b_256, blake2b_256) VH_REAL(blake3, blake3)
#else
#define VH_ABS(B, D) VH_HMAC(a##B##_##D, vh::Abs<B, D>) \
  extern "C" void lay_a##B##_##D(std::size_t* l) { a##B##_##D##_S s{}; l[0] = sizeof(s); auto& [x, y] = s; \
    auto go = [&](auto& f) { l[std::is_same_v<std::remove_cvref_t<decltype(f)>, vh::AbsState> ? 1 : 2] = reinterpret_cast<const char*>(&f) - reinterpret_cast<const char*>(&s); }; go(x); go(y); }
VH_ABS(64, 16) VH_ABS(64, 20) VH_ABS(64, 28) VH_ABS(64, 32) VH_ABS(128, 28) VH_ABS(128, 32) VH_ABS(128, 48) VH_ABS(128, 64)
VH_ABS(144, 28) VH_ABS(136, 32) VH_ABS(104, 48) VH_ABS(72, 64)
#ifdef HMAC_STUBS
std::uint64_t abs_init(std::size_t, std::size_t) noexcept { return 0; }
void abs_update(std::uint64_t*, const char*, std::size_t) noexcept {}
void abs_final(std::uint64_t, std::uint8_t*) noexcept {}
void abs_digest(std::size_t, std::size_t, const char*, std::size_t, std::uint8_t*) noexcept {}
#endif
#endif
