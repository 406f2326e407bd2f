// entry points of mbo/strings (numbers.h, split.h)
#include "mbo/strings/numbers.h"
#include "mbo/strings/split.h"
#include <cstddef>
#include <cstdint>
extern "C" {
#define VH_NUM(N, T)                                                                \
  unsigned vh_len_##N(T v) { return mbo::strings::BigNumberLen<T>(v); }             \
  void vh_big_##N(T v, std::string* out) { new (out) std::string(mbo::strings::BigNumber<T>(v)); } \
  std::size_t vh_text_##N(T v, char* out) {                                         \
    const std::string s = mbo::strings::BigNumber<T>(v);                            \
    for (std::size_t i = 0; i < s.size() && i < 32; ++i) out[i] = s[i];             \
    return s.size();                                                                \
  }
VH_NUM(i8, int8_t)
VH_NUM(u8, uint8_t)
VH_NUM(i16, int16_t)
VH_NUM(u16, uint16_t)
VH_NUM(i32, int32_t)
VH_NUM(u32, uint32_t)
VH_NUM(i64, long)
VH_NUM(u64, unsigned long)
VH_NUM(ill, long long)
VH_NUM(ull, unsigned long long)
const char* vh_atlast(const char* data, std::size_t n, char sep, std::size_t pos, std::size_t* len) {
  const std::string_view r = mbo::strings::AtLast(sep).Find(std::string_view(data, n), pos);
  *len = r.size();
  return r.data();
}
}
