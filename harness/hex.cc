// Rendering digests as text and reading checksum lines.
#include <cstddef>
#include <new>
#include <string>
#include <string_view>
#include "mbo/digest/checksum.h"
#include "mbo/digest/digest.h"
#include "mbo/digest/checksum.cc"
extern "C" {
// flag: 1 parsed; out: hex offset, hex length, file offset, file length (offsets relative to the line)
int vh_checksum(const char* p, std::size_t n, std::size_t hl, std::size_t* out) {
  const std::optional<mbo::digest::internal::ChecksumLine> r = mbo::digest::internal::ParseChecksumLine(std::string_view(p, n), hl);
  if (!r.has_value()) return 0;
  out[0] = r->hex.data() - p; out[1] = r->hex.size(); out[2] = r->file_name.data() - p; out[3] = r->file_name.size();
  return 1;
}
#define VH_HEX(N) \
void vh_hex##N(const std::uint8_t* d, char* out, std::size_t* len) { std::array<std::uint8_t, N> a; __builtin_memcpy(a.data(), d, N); \
  const std::string s = mbo::digest::ToHexString(a); *len = s.size(); __builtin_memcpy(out, s.data(), s.size() < 2 * N ? s.size() : 2 * N); }
VH_HEX(16) VH_HEX(20) VH_HEX(28) VH_HEX(32) VH_HEX(48) VH_HEX(64)
VH_HEX(1) VH_HEX(7) VH_HEX(8)
}
