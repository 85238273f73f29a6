// Harness interface: the same source is compiled to LLVM IR for the symbolic executor
// and natively (with ASan/UBSan) to replay a counterexample on the real code.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>
extern "C" {
void sx_symbolic(void *p, size_t n, const char *name);
void sx_assume(int c);
void sx_assert_(int c, const char *msg);
void sx_reach(const char *label);
uint64_t sx_concretize(uint64_t v);
long long sx_param(int i);
void sx_print(const char *msg, uint64_t v);
void sx_merge_begin();
void sx_merge_end();
void sx_fp_abstract(int on);
int sx_is_symbolic(uint64_t v);
[[noreturn]] void sx_fail(const char *msg);
[[noreturn]] void sx_end();
[[noreturn]] void sx_bound();
extern int sx_qassert_ends; // 1: a failing Q_assert ends the path (a diagnosed stop), 0: it is a violation, 2: it throws
}
#define sx_assert(c, m) sx_assert_((c) ? 1 : 0, m)
#define SX_ENTRY(n) extern "C" __attribute__((used, noinline)) void n()
template<class T> static inline T sx_any(const char *name)
{
    T v;
    sx_symbolic(&v, sizeof v, name);
    return v;
}
// any value in [lo, hi]
template<class T> static inline T sx_range(T lo, T hi, const char *name)
{
    T v;
    sx_symbolic(&v, sizeof v, name);
    sx_assume((v >= lo) & (v <= hi));
    return v;
}
static inline bool sx_bool(const char *name)
{
    uint8_t v;
    sx_symbolic(&v, 1, name);
    return v & 1;
}
// fork into every value of [0, n)
static inline uint32_t sx_choice(uint32_t n, const char *name)
{
    uint8_t v;
    sx_symbolic(&v, 1, name);
    sx_assume(v < n);
    return (uint32_t)sx_concretize(v);
}
