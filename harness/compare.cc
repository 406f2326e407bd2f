// Instances of mbo/types/compare.h: every scalar comparison function over every pair of built-in arithmetic types.
#include <cstdint>
#include <compare>
#include "mbo/types/compare.h"
using namespace mbo::types;
namespace {
enum class e8 : std::uint8_t {};
enum e32 : int {};
inline int code(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 9; }
inline int code(std::partial_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2; }
}
using b8 = bool; using c8 = char; using s8 = signed char; using u8 = unsigned char; using s16 = short; using u16 = unsigned short;
using s32 = int; using u32 = unsigned; using s64 = long; using u64 = unsigned long; using sll = long long; using ull = unsigned long long;
using c8t = char8_t; using c16t = char16_t; using c32t = char32_t; using wct = wchar_t; using f32 = float; using f64 = double; using f80 = long double;
#define INTS(X, ...) X(b8, __VA_ARGS__) X(c8, __VA_ARGS__) X(s8, __VA_ARGS__) X(u8, __VA_ARGS__) X(s16, __VA_ARGS__) X(u16, __VA_ARGS__) X(s32, __VA_ARGS__) X(u32, __VA_ARGS__) X(s64, __VA_ARGS__) X(u64, __VA_ARGS__) X(sll, __VA_ARGS__) X(ull, __VA_ARGS__) X(c8t, __VA_ARGS__) X(c16t, __VA_ARGS__) X(c32t, __VA_ARGS__) X(wct, __VA_ARGS__)
#define ALL(X, ...) INTS(X, __VA_ARGS__) X(f32, __VA_ARGS__) X(f64, __VA_ARGS__) X(f80, __VA_ARGS__)
#define INTS2(X, ...) X(b8, __VA_ARGS__) X(c8, __VA_ARGS__) X(s8, __VA_ARGS__) X(u8, __VA_ARGS__) X(s16, __VA_ARGS__) X(u16, __VA_ARGS__) X(s32, __VA_ARGS__) X(u32, __VA_ARGS__) X(s64, __VA_ARGS__) X(u64, __VA_ARGS__) X(sll, __VA_ARGS__) X(ull, __VA_ARGS__) X(c8t, __VA_ARGS__) X(c16t, __VA_ARGS__) X(c32t, __VA_ARGS__) X(wct, __VA_ARGS__)
#define ALL2(X, ...) INTS2(X, __VA_ARGS__) X(f32, __VA_ARGS__) X(f64, __VA_ARGS__) X(f80, __VA_ARGS__)
#define SCALAR(B, A) extern "C" int vh_S_##A##_##B(const A* a, const B* b) { return code(CompareScalar(*a, *b)); }
#define ARITH(B, A) extern "C" int vh_A_##A##_##B(const A* a, const B* b) { return code(CompareArithmetic(*a, *b)); }
#define INTEGRAL(B, A) extern "C" int vh_I_##A##_##B(const A* a, const B* b) { return code(CompareIntegral(*a, *b)); }
#define ROWS(A, _) ALL2(SCALAR, A) ALL2(ARITH, A)
#define ROWI(A, _) INTS2(INTEGRAL, A)
ALL(ROWS, _)
INTS(ROWI, _)
#define SAME(A) extern "C" int vh_S_##A##_##A(const A* a, const A* b) { return code(CompareScalar(*a, *b)); }
SAME(e8) SAME(e32)
extern "C" int vh_P(const char* a, const char* b) { return code(CompareScalar(a, b)); }
#define FLT(A) extern "C" int vh_F_##A##_##A(const A* a, const A* b) { return code(CompareFloat(*a, *b)); }
FLT(f32) FLT(f64) FLT(f80)
// CompareLess<A>: less and three-way, also against another type B in both positions
#define LESS(A, B) \
  extern "C" int vh_C_##A##_##B(const A* a, const B* b) { return code(CompareLess<A>{}.Compare(*a, *b)); } \
  extern "C" int vh_L_##A##_##B(const A* a, const B* b) { return CompareLess<A>{}(*a, *b); }
#define CROSS(A, B) \
  extern "C" int vh_C1_##A##_##B(const A* a, const B* b) { return code(CompareLess<A>{}.Compare(*a, *b)); } \
  extern "C" int vh_L1_##A##_##B(const A* a, const B* b) { return CompareLess<A>{}(*a, *b); } \
  extern "C" int vh_C2_##B##_##A(const B* b, const A* a) { return code(CompareLess<A>{}.Compare(*b, *a)); } \
  extern "C" int vh_L2_##B##_##A(const B* b, const A* a) { return CompareLess<A>{}(*b, *a); }
LESS(s8, s8) LESS(u8, u8) LESS(s16, s16) LESS(u16, u16) LESS(s32, s32) LESS(u32, u32) LESS(s64, s64) LESS(u64, u64) LESS(c8, c8) LESS(b8, b8) LESS(f32, f32) LESS(f64, f64)
CROSS(s64, s32) CROSS(s64, u32) CROSS(u64, u32) CROSS(u64, u8) CROSS(s32, u16) CROSS(s32, s8) CROSS(f64, f32)
extern "C" int vh_W(int a, int b) { return code(WeakToStrong(std::weak_ordering(a <=> b))); }
