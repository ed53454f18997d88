// Contract language.  A contract is a C++ function that draws arbitrary inputs (the quantified variables), states
// preconditions with nvc_assume, calls the real functions of /repo, and states postconditions with nvc_ensure.
//  * proof mode: clang -> LLVM IR -> nvc (every draw is a symbol, every nvc_ensure an obligation for all inputs);
//  * native mode (NVC_NATIVE): the very same function is compiled with g++/clang++ and linked with the real code to
//    replay a counterexample or to search for one after an obligation failed.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <list>
#include <map>
#include <set>
#include <deque>
#include <queue>
#include <memory>
#include <functional>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <iomanip>
#include <bitset>
#include <chrono>
#include <thread>
#include <mutex>
#include <unordered_map>
#include <initializer_list>
#include <stdexcept>
#include <cstdio>
#include <cstdlib>
#include <cfloat>
#include <climits>
#include <cmath>
#include <ctime>
#include <random>
#include <cstdarg>
#include <atomic>
#include <condition_variable>
#include <typeinfo>
#include <cxxabi.h>
#include <limits>

extern "C" {
bool nvc_bool(const char *name);
signed char nvc_schar(const char *name);
char nvc_char(const char *name);
unsigned char nvc_byte(const char *name);
short nvc_short(const char *name);
int nvc_int(const char *name);
long nvc_long(const char *name);
float nvc_float(const char *name);
double nvc_double(const char *name);
void nvc_string(std::string *out, const char *name);            // any bytes
void nvc_text(std::string *out, const char *name);              // any bytes except NUL
void nvc_ints(std::vector<int> *out, const char *name);
void nvc_longs(std::vector<long> *out, const char *name);
void nvc_bytes(std::vector<unsigned char> *out, const char *name);
void nvc_chars(std::vector<char> *out, const char *name);
void nvc_assume(bool c);
void nvc_ensure(const char *name, bool c);
long nvc_pick(long lo, long hi);
void nvc_forall_end();
long nvc_cases(long v, long lo, long hi);                      // proof by cases: v, on one separate path per value lo..hi-1
// equality of two byte ranges
bool nvc_eqrange(const char *a, const char *b, long n);
void nvc_known(const char *id, bool c);                         // inputs of a listed known finding are excluded
void nvc_reach(const char *name);
int nvc_any_int();                                              // an arbitrary value (function contracts)
long nvc_any_long();
bool nvc_any_bool();
int nvc_opaque(long x);                                         // some fixed function (function contracts)
void nvc_assume_forall(long lo, long hi, bool (*f)(void *, long), void *c);
}

#ifdef NVC_NATIVE
struct NvcReject {};
#define FORALL(i, lo, hi) for (long i = (lo), i##_e = (hi); i < i##_e; ++i)
struct NvcReg { NvcReg(const char *prop, const char *name, void (*f)()); };
#define CONTRACT(P, name) static void nvc__##P##__##name(); static NvcReg nvcreg_##P##_##name(#P, #name, nvc__##P##__##name); static void nvc__##P##__##name()
#define BOUNDED(P, name, N) CONTRACT(P, name)
#define LEMMA(P, name) CONTRACT(P, name)
#define SPEC(ret, P, name) static ret nvcspec__##P##__##name
#define REQUIRES(m, c) ((void) 0)
#define ASSUME_FORALL(k, lo, hi, ...) do { for (long k = (lo), k##_e = (hi); k < k##_e; ++k) nvc_assume(__VA_ARGS__); } while (0)
#define NVC_BOUND(x, n) do { if ((long)(x) > (long)(n)) throw NvcReject(); } while (0)
#else
// an arbitrary i of the range is checked on a separate path, which ends there
#define FORALL(i, lo, hi) if (!nvc_any_bool()) ; else for (long i = nvc_pick((lo), (hi)), i##_o = 1; i##_o; nvc_forall_end(), i##_o = 0)
#define CONTRACT(P, name) extern "C" void nvc__##P##__##name()
template <class F> static bool nvc_tramp(void *p, long k) { return (*(F *) p)(k); }
template <class F> static inline void nvc_assume_all(long lo, long hi, F f) { nvc_assume_forall(lo, hi, nvc_tramp<F>, &f); }
#define ASSUME_FORALL(k, lo, hi, ...) nvc_assume_all((lo), (hi), [&](long k) -> bool { return __VA_ARGS__; })
#define LEMMA(P, name) extern "C" void nvcL__##P##__##name()
#define SPEC(ret, P, name) extern "C" ret nvcspec__##P##__##name
#define REQUIRES(m, c) nvc_ensure(m, (c))
#define BOUNDED(P, name, N) extern "C" void nvcB##N##__##P##__##name()
#define NVC_BOUND(x, n) nvc_assume((long)(x) <= (long)(n))
#endif
#define ENSURE(c) nvc_ensure(#c, (c))
#define ENSURE_MSG(m, c) nvc_ensure(m, (c))
typedef __int128 wide;
