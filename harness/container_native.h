#include <csetjmp>
namespace { std::jmp_buf vh_jb; int vh_code; struct { const char* p; u64 n; } vh_reg[16]; int vh_nreg; }
extern "C" {
void vh_fatal() { std::longjmp(vh_jb, 1); }
void vh_bad(int w) { vh_code = w; std::longjmp(vh_jb, 2); }
void vh_watch(const void* p, u64 n) { if (vh_nreg < 16) { vh_reg[vh_nreg++] = {static_cast<const char*>(p), n}; } }
bool vh_inslot(const void* p) { auto* c = static_cast<const char*>(p); for (int k = 0; k < vh_nreg; ++k) { if (c >= vh_reg[k].p && c < vh_reg[k].p + vh_reg[k].n) { return true; } } return false; }
// 0: returned, 1: failed requirement, 2 + code: contract of the element type violated
int vn_call(void (*f)(const i32*, u64, u64, u64, u64, i32, i32, i64*), const i32* in, u64 n, u64 m, u64 i, u64 j, i32 x, i32 y, i64* out) {
  vh_nreg = 0; tr_live = 0;
  switch (setjmp(vh_jb)) { case 0: f(in, n, m, i, j, x, y, out); return 0; case 1: return 1; default: return 2 + vh_code; }
}
}
