// P02  bit manipulation and unsigned arithmetic of Integer and Long
#include "../nvc/lib.hpp"
typedef unsigned int u32;
typedef unsigned long u64;
static inline bool bit(u64 x, long i) { return (x >> i) & 1; }

#define TOPBITS(CLS, T, U, W) \
CONTRACT(P02, CLS##_numberOfLeadingZeros) { \
    T x = nvc_##T("x"); \
    int n = CLS::numberOfLeadingZeros(x); \
    ENSURE_MSG("between 0 and the width", n >= 0 && n <= W); \
    ENSURE_MSG("the width exactly for zero", (n == W) == (x == 0)); \
    if (x != 0) ENSURE_MSG("the bit below the leading zeros is one", bit((U) x, W - 1 - n)); \
    FORALL(i, 0, n) ENSURE_MSG("the leading bits are zero", !bit((U) x, W - 1 - i)); } \
CONTRACT(P02, CLS##_highestOneBit) { \
    T x = nvc_##T("x"); \
    U h = (U) CLS::highestOneBit(x); \
    ENSURE_MSG("zero exactly for zero", (h == 0) == (x == 0)); \
    ENSURE_MSG("a single bit of the argument", (h & (h - 1)) == 0 && (h & (U) x) == h); \
    ENSURE_MSG("no higher bit is set", h == 0 || ((U) x ^ h) < h); } \
CONTRACT(P02, CLS##_lowestOneBit) { \
    T x = nvc_##T("x"); \
    U h = (U) CLS::lowestOneBit(x); \
    ENSURE_MSG("zero exactly for zero", (h == 0) == (x == 0)); \
    ENSURE_MSG("a single bit of the argument", (h & (h - 1)) == 0 && (h & (U) x) == h); \
    ENSURE_MSG("no lower bit is set", h == 0 || ((U) x & (h - 1)) == 0); } \
CONTRACT(P02, CLS##_reverse) { \
    T x = nvc_##T("x"); \
    U r = (U) CLS::reverse(x); \
    FORALL(i, 0, W) ENSURE_MSG("bit i of the result is bit W-1-i of the argument", bit(r, i) == bit((U) x, W - 1 - i)); } \
CONTRACT(P02, CLS##_reverseBytes) { \
    T x = nvc_##T("x"); \
    U r = (U) CLS::reverseBytes(x); \
    FORALL(i, 0, W / 8) ENSURE_MSG("byte i of the result is byte W/8-1-i of the argument", ((r >> (8 * i)) & 255) == (((U) x >> (8 * (W / 8 - 1 - i))) & 255)); } \
CONTRACT(P02, CLS##_rotate) { \
    T x = nvc_##T("x"); int d = nvc_int("d"); \
    U l = (U) CLS::rotateLeft(x, d), r = (U) CLS::rotateRight(x, d); \
    FORALL(i, 0, W) { \
        ENSURE_MSG("rotateLeft moves bit i to bit (i+d) mod W", bit(l, (i + (u32) d) & (W - 1)) == bit((U) x, i)); \
        ENSURE_MSG("rotateRight moves bit (i+d) mod W to bit i", bit(r, i) == bit((U) x, (i + (u32) d) & (W - 1))); } } \
CONTRACT(P02, CLS##_signum) { \
    T x = nvc_##T("x"); \
    ENSURE_MSG("signum is -1, 0 or 1 as the argument is negative, zero or positive", CLS::signum(x) == (x < 0 ? -1 : x > 0 ? 1 : 0)); } \
CONTRACT(P02, CLS##_compare) { \
    T x = nvc_##T("x"), y = nvc_##T("y"); \
    ENSURE_MSG("compare orders numerically", CLS::compare(x, y) == (x < y ? -1 : x > y ? 1 : 0)); }

TOPBITS(Integer, int, u32, 32)
TOPBITS(Long, long, u64, 64)

CONTRACT(P02, Long_numberOfTrailingZeros) {
    long x = nvc_long("x");
    int n = Long::numberOfTrailingZeros(x);
    ENSURE_MSG("between 0 and the width", n >= 0 && n <= 64);
    ENSURE_MSG("the width exactly for zero", (n == 64) == (x == 0));
    if (x != 0) ENSURE_MSG("the bit above the trailing zeros is one", bit((u64) x, n));
    FORALL(i, 0, n) ENSURE_MSG("the trailing bits are zero", !bit((u64) x, i));
}
// characterised inductively: zero has no one bits, and setting a clear bit adds exactly one
#define BITCOUNT(LO) CONTRACT(P02, Long_bitCount_##LO) { \
    long x = nvc_long("x"), j = nvc_long("i"); \
    nvc_assume(j >= LO && j < LO + 16); \
    long i = nvc_cases(j, LO, LO + 16); \
    nvc_assume(!bit((u64) x, i)); \
    ENSURE_MSG("no bits in zero", Long::bitCount(0) == 0); \
    ENSURE_MSG("setting a clear bit adds one", Long::bitCount((long) ((u64) x | 1ul << i)) == Long::bitCount(x) + 1); }
BITCOUNT(0) BITCOUNT(16) BITCOUNT(32) BITCOUNT(48)

// the Integer versions walk the binary text of the number: one path per position of the highest one bit
static long topbit(u32 x) { long n = 0; for (int k = 1; k <= 32; k++) if (x >> (k - 1)) n = k; return n; }
CONTRACT(P02, Integer_bitCount) {
    int x = nvc_int("x");
    long k = nvc_cases(topbit((u32) x), 0, 33);
    int c = 0;
    for (int i = k - 1; i >= 0; i--) if (bit((u32) x, i)) c++;
    ENSURE_MSG("the number of one bits", Integer::bitCount(x) == c);
}
static long lowbit(u32 x) { long n = 32; for (int k = 31; k >= 0; k--) if ((x >> k) & 1) n = k; return n; }
CONTRACT(P02, Integer_numberOfTrailingZeros) {
    int x = nvc_int("x");
    long k = nvc_cases(topbit((u32) x), 0, 33);
    int n = Integer::numberOfTrailingZeros(x);
    ENSURE_MSG("the number of trailing zero bits", n == lowbit((u32) x));
}
CONTRACT(P02, Integer_unsigned) {
    int a = nvc_int("a"), b = nvc_int("b");
    u32 x = (u32) a, y = (u32) b;
    ENSURE_MSG("toUnsignedLong zero-extends", Integer::toUnsignedLong(a) == (long) (u64) x);
    ENSURE_MSG("compareUnsigned orders as unsigned", Integer::compareUnsigned(a, b) == (x < y ? -1 : x > y ? 1 : 0));
    bool t1 = false, t2 = false; u32 q = 0, r = 0;
    try { q = (u32) Integer::divideUnsigned(a, b); } catch (ArithmeticException &) { t1 = true; }
    try { r = (u32) Integer::remainderUnsigned(a, b); } catch (ArithmeticException &) { t2 = true; }
    ENSURE_MSG("divideUnsigned throws ArithmeticException exactly for a zero divisor", t1 == (b == 0));
    ENSURE_MSG("remainderUnsigned throws ArithmeticException exactly for a zero divisor", t2 == (b == 0));
    if (b != 0) {
        ENSURE_MSG("divideUnsigned is the unsigned quotient", q == x / y);
        ENSURE_MSG("remainderUnsigned is the unsigned remainder", r == x % y);
    }
    ENSURE_MSG("sum wraps", Integer::sum(a, b) == (int) (x + y));
    ENSURE_MSG("max", Integer::max(a, b) == (a > b ? a : b));
    ENSURE_MSG("min", Integer::min(a, b) == (a < b ? a : b));
}
CONTRACT(P02, Long_hashCode) {
    long x = nvc_long("x");
    Long l(x);
    ENSURE_MSG("hash folds the high half into the low half", l.hashCode() == (int) ((u64) x ^ ((u64) x >> 32)));
    ENSURE_MSG("Integer hash is the value", Integer((int) x).hashCode() == (int) x);
}
