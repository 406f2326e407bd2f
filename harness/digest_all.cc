// Entry points of the message digests for the verifier (and, compiled natively, for replay).
// Every entry only forwards to the public interface of the library.
#include <cstddef>
#include <new>
#include <string_view>
#include "mbo/digest/digest.h"
#include "layout.h"
#define VH_CORE(N, ALG)                                                                                    \
  using N##_A = mbo::digest::ALG;                                                                          \
  using N##_S = N##_A::StreamState;                                                                        \
  using N##_W = mbo::digest::Streamer<N##_A>;                                                              \
  static_assert(sizeof(N##_W) == sizeof(N##_S));                                                           \
  extern "C" {                                                                                             \
  void vh_##N##_init(N##_S* s) { *s = N##_A::StreamInit(); }                                               \
  void vh_##N##_update(N##_S* s, const char* p, size_t n) { N##_A::StreamUpdate(*s, std::string_view(p, n)); } \
  void vh_##N##_final(const N##_S* s, uint8_t* out) { auto d = N##_A::StreamFinalize(*s); __builtin_memcpy(out, d.data(), d.size()); } \
  void vh_##N##_winit(N##_W* s) { new (s) N##_W(); }                                                       \
  void vh_##N##_wupdate(N##_W* s, const char* p, size_t n) { s->Update(std::string_view(p, n)); }          \
  void vh_##N##_wfinal(const N##_W* s, uint8_t* out) { auto d = s->Finalize(); __builtin_memcpy(out, d.data(), d.size()); } \
  void vh_##N##_adigest(const char* p, size_t n, uint8_t* out) { auto d = N##_A::Digest(std::string_view(p, n)); __builtin_memcpy(out, d.data(), d.size()); } \
  }
#define VH_ALGO(N, NS)                                                                                     \
  VH_CORE(N, NS::Algorithm)                                                                                \
  extern "C" {                                                                                             \
  void vh_##N##_digest(const char* p, size_t n, uint8_t* out) { auto d = mbo::digest::NS::Digest(std::string_view(p, n)); __builtin_memcpy(out, d.data(), d.size()); } \
  }
#define VH_LAY3(N) extern "C" void lay_##N(vh::Lay* l) { vh::Layout3<N##_S>(l); }
#define VH_LAY2(N) extern "C" void lay_##N(vh::Lay* l) { vh::Layout2<N##_S>(l); }
#define VH_SHAKE(N, K)                                                                                     \
  VH_CORE(N##_##K, N::Algorithm<K>)                                                                        \
  extern "C" {                                                                                             \
  void vh_##N##_##K##_digest(const char* p, size_t n, uint8_t* out) { auto d = mbo::digest::N::Digest<K>(std::string_view(p, n)); __builtin_memcpy(out, d.data(), d.size()); } \
  }                                                                                                        \
  VH_LAY2(N##_##K)
#define VH_BLAKE2B(N, NS)                                                                                  \
  VH_ALGO(N, NS)                                                                                           \
  extern "C" {                                                                                             \
  void vh_##N##_kinit(N##_S* s, const char* k, size_t kn) { *s = N##_A::StreamInitKeyed(std::string_view(k, kn)); } \
  void vh_##N##_kdigest(const char* k, size_t kn, const char* p, size_t n, uint8_t* out) { auto d = N##_A::DigestKeyed(std::string_view(k, kn), std::string_view(p, n)); __builtin_memcpy(out, d.data(), d.size()); } \
  void lay_##N(std::size_t* l) { vh::LayoutBlake2b<N##_A>(l); }                                            \
  }
#ifdef W_md5
VH_ALGO(md5, md5) VH_LAY3(md5)
#endif
#ifdef W_sha1
VH_ALGO(sha1, sha1) VH_LAY3(sha1)
#endif
#ifdef W_sha256
VH_ALGO(sha256, sha256) VH_LAY3(sha256)
#endif
#ifdef W_sha224
VH_ALGO(sha224, sha224) VH_LAY3(sha224)
#endif
#ifdef W_sha512
VH_ALGO(sha512, sha512) VH_LAY3(sha512)
#endif
#ifdef W_sha384
VH_ALGO(sha384, sha384) VH_LAY3(sha384)
#endif
#ifdef W_sha512_224
VH_ALGO(sha512_224, sha512_224) VH_LAY3(sha512_224)
#endif
#ifdef W_sha512_256
VH_ALGO(sha512_256, sha512_256) VH_LAY3(sha512_256)
#endif
#ifdef W_sha3_224
VH_ALGO(sha3_224, sha3_224) VH_LAY2(sha3_224)
#endif
#ifdef W_sha3_256
VH_ALGO(sha3_256, sha3_256) VH_LAY2(sha3_256)
#endif
#ifdef W_sha3_384
VH_ALGO(sha3_384, sha3_384) VH_LAY2(sha3_384)
#endif
#ifdef W_sha3_512
VH_ALGO(sha3_512, sha3_512) VH_LAY2(sha3_512)
#endif
#ifdef W_shake128
VH_SHAKE(shake128, 1) VH_SHAKE(shake128, 32) VH_SHAKE(shake128, 167) VH_SHAKE(shake128, 168) VH_SHAKE(shake128, 169) VH_SHAKE(shake128, 400) VH_SHAKE(shake128, 1100)
#endif
#ifdef W_shake256
VH_SHAKE(shake256, 1) VH_SHAKE(shake256, 64) VH_SHAKE(shake256, 135) VH_SHAKE(shake256, 136) VH_SHAKE(shake256, 137) VH_SHAKE(shake256, 300) VH_SHAKE(shake256, 1100)
#endif
#ifdef W_blake2b_512
VH_BLAKE2B(blake2b_512, blake2b)
#endif
#ifdef W_blake2b_256
VH_BLAKE2B(blake2b_256, blake2b_256)
#endif
#ifdef W_blake3
VH_ALGO(blake3, blake3)
using blake3_state = mbo::digest::blake3::Algorithm::StreamState;
#define VH_XOF(K)                                                                                          \
  void vh_blake3_xof##K(const char* p, size_t n, uint8_t* out) { auto d = mbo::digest::blake3::DigestXof<K>(std::string_view(p, n)); __builtin_memcpy(out, d.data(), d.size()); } \
  void vh_blake3_xfinal##K(const blake3_state* s, uint8_t* out) { auto d = mbo::digest::blake3_internal::Finalize<K>(*s); __builtin_memcpy(out, d.data(), d.size()); } \
  void vh_blake3_keyed##K(const char* k, size_t kn, const char* p, size_t n, uint8_t* out) { auto d = mbo::digest::blake3::DigestKeyed<K>(std::string_view(k, kn), std::string_view(p, n)); __builtin_memcpy(out, d.data(), d.size()); } \
  void vh_blake3_derive##K(const char* k, size_t kn, const char* p, size_t n, uint8_t* out) { auto d = mbo::digest::blake3::DeriveKey<K>(std::string_view(k, kn), std::string_view(p, n)); __builtin_memcpy(out, d.data(), d.size()); }
extern "C" {
VH_XOF(1) VH_XOF(32) VH_XOF(64) VH_XOF(65) VH_XOF(131)
void vh_blake3_kinit(blake3_state* s, const char* k, size_t kn) { *s = mbo::digest::blake3::Algorithm::StreamInitKeyed(std::string_view(k, kn)); }
#define O(f) offsetof(blake3_state, f)
void lay_blake3(std::size_t* l) {
  const std::size_t v[] = {sizeof(blake3_state), O(key), O(flags), O(chunk_chaining), O(chunk_counter), O(block), O(block_len), O(blocks_compressed), O(chunk_len), O(stack), std::tuple_size_v<decltype(blake3_state::stack)>, O(stack_len)};
  __builtin_memcpy(l, v, sizeof(v));
}
}
#endif
