// P17  Random: the documented 48-bit linear congruential generator
#include "../nvc/lib.hpp"
#include "library/Java/Util/Random/Random.hpp"

static const long M = 0x5DEECE66DL, A = 0xBL, K = (1L << 48) - 1;
static inline long step(long s) { return (long) (((unsigned long) s * M + A) & K); }
static inline int out(long s, int bits) { return (int) (s >> (48 - bits)); }
// a generator in the state s
#define RANDOM(r, s) long s = nvc_long(#s); nvc_assume(0 <= s && s <= K); Random r(0L); r.seed.store(s);

CONTRACT(P17, construct) {
    long v = nvc_long("v");
    Random r(v);
    ENSURE_MSG("the seed is scrambled as documented", r.seed.load() == ((v ^ M) & K)); ENSURE(!r.haveNextGaussianNumber);
}
CONTRACT(P17, setSeed) {
    RANDOM(r, s) long v = nvc_long("v"); r.haveNextGaussianNumber = nvc_bool("have");
    r.setSeed(v);
    ENSURE_MSG("setSeed puts the generator into the state of a new one", r.seed.load() == ((v ^ M) & K) && !r.haveNextGaussianNumber);
}
CONTRACT(P17, copy) {
    RANDOM(r, s)
    Random c(r);
    ENSURE_MSG("a copy continues the same sequence", c.seed.load() == s && r.seed.load() == s);
    r.nextInt();
    ENSURE_MSG("and is independent of the original", c.seed.load() == s);
}
CONTRACT(P17, next) {
    RANDOM(r, s) int b = nvc_int("bits"); nvc_assume(1 <= b && b <= 32);
    int x = r.next(b);
    ENSURE_MSG("next advances the state by one step", r.seed.load() == step(s));
    ENSURE_MSG("next gives the high bits of the new state", x == out(step(s), b));
}
CONTRACT(P17, nextInt) {
    RANDOM(r, s)
    ENSURE_MSG("nextInt gives the 32 high bits", r.nextInt() == out(step(s), 32)); ENSURE(r.seed.load() == step(s));
}
CONTRACT(P17, nextBoolean) {
    RANDOM(r, s)
    ENSURE_MSG("nextBoolean gives the high bit", r.nextBoolean() == (out(step(s), 1) != 0)); ENSURE(r.seed.load() == step(s));
}
CONTRACT(P17, nextLong) {
    RANDOM(r, s)
    long x = r.nextLong(), s1 = step(s), s2 = step(s1);
    ENSURE_MSG("nextLong joins two steps", x == (long) (((unsigned long) (long) out(s1, 32) << 32) + (unsigned long) (long) out(s2, 32))); ENSURE(r.seed.load() == s2);
}
CONTRACT(P17, nextIntBound) {
    RANDOM(r, s) int b = nvc_int("bound");
    bool threw = false; int x = 0;
    try { x = r.nextInt(b); } catch (InterruptedException &) { threw = true; }
    ENSURE_MSG("a bound that is not positive is rejected", threw == (b <= 0));
    if (threw) ENSURE_MSG("state unchanged when it throws", r.seed.load() == s);
    else {
        ENSURE_MSG("the result is between 0 and bound - 1", 0 <= x && x < b);
        int u = out(step(s), 31);
        if ((b & (b - 1)) == 0) ENSURE_MSG("a power of two takes the high bits", x == (int) (((long) b * u) >> 31) && r.seed.load() == step(s));
        else {
            int v = out(r.seed.load(), 31);
            ENSURE_MSG("the result comes from the last state", x == v % b && (long) v - x + (b - 1) <= 2147483647L);
        }
    }
}
CONTRACT(P17, nextIntBoundFirst) {
    RANDOM(r, s) int b = nvc_int("bound"); nvc_assume(b > 0 && (b & (b - 1)) != 0);
    int u = out(step(s), 31);
    nvc_assume((long) u - u % b + (b - 1) <= 2147483647L);
    int x = r.nextInt(b);
    ENSURE_MSG("the first value is taken unless it is in the incomplete last interval", x == u % b && r.seed.load() == step(s));
}
CONTRACT(P17, nextDouble) {
    RANDOM(r, s)
    double x = r.nextDouble(); long s1 = step(s), s2 = step(s1);
    ENSURE_MSG("nextDouble is the 53-bit fraction of two steps", x == (double) (((long) out(s1, 26) << 27) + out(s2, 27)) * (1.0 / (1L << 53)));
    ENSURE_MSG("nextDouble is between 0 (inclusive) and 1 (exclusive)", x >= 0 && x < 1); ENSURE(r.seed.load() == s2);
}
CONTRACT(P17, nextFloat) {
    RANDOM(r, s)
    float x = r.nextFloat();
    ENSURE_MSG("nextFloat is the 24-bit fraction of one step", x == (float) out(step(s), 24) / (float) (1 << 24));
    ENSURE_MSG("nextFloat is between 0 (inclusive) and 1 (exclusive)", x >= 0 && x < 1); ENSURE(r.seed.load() == step(s));
}
CONTRACT(P17, nextBytes) {
    RANDOM(r, s) Array<byte> a; nvc_bytes(&a.original, "a"); a.length = (int) a.original.size(); int n = a.length;
    r.nextBytes(&a);
    ENSURE_MSG("nextBytes fills the array without changing its length", a.length == n && (int) a.original.size() == n);
    if (n > 0) ENSURE_MSG("the first byte comes from the first step", a.original[0] == (byte) (out(step(s), 32) >> 8));
}
CONTRACT(P17, gaussianCached) {
    RANDOM(r, s) double g = nvc_double("g"); nvc_assume(g == g);
    r.haveNextGaussianNumber = true; r.nextGaussianNumber = g;
    double x = r.nextGaussian();
    ENSURE_MSG("the kept second value is returned once", x == g && !r.haveNextGaussianNumber && r.seed.load() == s);
}
