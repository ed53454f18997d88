// P13  BitSet: a set of non-negative bit indices
#include "../nvc/lib.hpp"
#include "library/Java/Util/BitSet/BitSet.hpp"
#include "library/Java/Util/Arrays/Arrays.hpp"
using namespace Java::Util;

// A bit set in any reachable representation: the words in use (the last of them not zero) and any number of zero words behind.
static inline bool same(const std::vector<long> &a, const std::vector<long> &b) { return a.size() == b.size() && nvc_eqrange((const char *) a.data(), (const char *) b.data(), (long) (8 * a.size())); }
struct Src {
    std::vector<long> w; int extra; bool sticky;
    void draw(const char *n, const char *e, const char *st) {
        nvc_longs(&w, n); extra = nvc_int(e); sticky = nvc_bool(st);
        nvc_assume(w.size() < (1u << 25) && extra >= 0 && extra < (1 << 20));
        nvc_assume(w.empty() || w[w.size() - 1] != 0);
    }
    bool has(int i) const { return i >= 0 && (size_t) (i >> 6) < w.size() && ((unsigned long) w[i >> 6] >> (i & 63) & 1); }
};
static void put(BitSet &b, const Src &s) {
    b.words.original = s.w; b.words.original.resize(s.w.size() + s.extra);
    b.words.length = (int) (s.w.size() + s.extra); b.wordsInUse = (int) s.w.size(); b.sizeIsSticky = s.sticky;
}
static inline bool bit(const BitSet &b, int i) { return (i >> 6) < b.wordsInUse && ((unsigned long) b.words.original[i >> 6] >> (i & 63) & 1); }
// the representation invariant
static inline void consistent(const BitSet &b) {
    ENSURE_MSG("length is the number of words", b.words.length == (int) b.words.original.size());
    ENSURE_MSG("words in use within the array", b.wordsInUse >= 0 && b.wordsInUse <= b.words.length);
    ENSURE_MSG("the last word in use is not zero", b.wordsInUse == 0 || b.words.original[b.wordsInUse - 1] != 0);
    FORALL(z, b.wordsInUse, b.words.length) ENSURE_MSG("words behind are zero", b.words.original[z] == 0);
}

#ifndef NVC_NO_LEMMAS
// ---- contracts of the helper functions: proved below, used in place of the bodies at every call
#ifndef NVC_NATIVE
SPEC(Array<long>, P13, copyOf)(const Array<long> &a, int n) {
    REQUIRES("copyOf: size not negative", n >= 0 && a.length == (int) a.original.size());
    Array<long> r; r.original = a.original; r.original.resize(n); r.length = n; return r;
}
SPEC(void, P13, ensureCapacity)(BitSet *b, int n) {
    REQUIRES("ensureCapacity: length is the number of words", b->words.length == (int) b->words.original.size());
    REQUIRES("ensureCapacity: size in range", n >= 0 && n < (1 << 30) && b->words.length < (1 << 30));
    if (b->words.length >= n) return;
    int m = 2 * b->words.length > n ? 2 * b->words.length : n;
    b->words.original.resize(m); b->words.length = m; b->sizeIsSticky = false;
}
SPEC(void, P13, recalculate)(BitSet *b) {
    REQUIRES("recalculateWordsInUse: words in use within the array", b->wordsInUse >= 0 && b->wordsInUse <= (int) b->words.original.size());
    int old = b->wordsInUse, w = nvc_any_int();
    nvc_assume(w >= 0 && w <= old && (w == 0 || b->words.original[w - 1] != 0));
    const long *p = b->words.original.data();
    ASSUME_FORALL(k, w, old, p[k] == 0);
    b->wordsInUse = w;
}
SPEC(int, P13, trailing)(long w) {
    int r = nvc_any_int();
    nvc_assume(r >= 0 && r <= 64 && (r < 64 || w == 0));
    nvc_assume(r == 64 || (((unsigned long) w >> r & 1) && ((unsigned long) w & ((1UL << r) - 1)) == 0));
    return r;
}
SPEC(int, P13, leading)(long w) {
    int r = nvc_any_int();
    nvc_assume(r >= 0 && r <= 64 && (r < 64 || w == 0));
    nvc_assume(r == 64 || (unsigned long) w >> (63 - r) == 1);
    return r;
}
// what bitCount counts is decided by P02; here only that it is a function of the word with a value of 0 to 64
SPEC(int, P13, bits)(long w) { int r = nvc_opaque(w); nvc_assume(r >= 0 && r <= 64); return r; }
#endif
LEMMA(P13, lemmaBitCount) {
    long w = nvc_long("w");
    int a = Long::bitCount(w), b = Long::bitCount(w);
    ENSURE(a >= 0 && a <= 64 && a == b);
}
LEMMA(P13, lemmaTrailing) {
    long w = nvc_long("w");
    int r = Long::numberOfTrailingZeros(w);
    ENSURE(r >= 0 && r <= 64 && (r < 64 || w == 0));
    ENSURE(r == 64 || (((unsigned long) w >> r & 1) && ((unsigned long) w & ((1UL << r) - 1)) == 0));
}
LEMMA(P13, lemmaLeading) {
    long w = nvc_long("w");
    int r = Long::numberOfLeadingZeros(w);
    ENSURE(r >= 0 && r <= 64 && (r < 64 || w == 0));
    ENSURE(r == 64 || (unsigned long) w >> (63 - r) == 1);
}
LEMMA(P13, lemmaCopyOf) {
    Array<long> a; nvc_longs(&a.original, "a"); a.length = (int) a.original.size(); int n = nvc_int("n");
    nvc_assume(n >= 0 && n < (1 << 30));
    Array<long> r = Arrays::copyOf(a, n);
    ENSURE(r.length == n && r.original.size() == (size_t) n);
    FORALL(k, 0, n) ENSURE(r.original[k] == (k < a.length ? a.original[k] : 0));
}
LEMMA(P13, lemmaEnsureCapacity) {
    std::vector<long> a; nvc_longs(&a, "a"); int n = nvc_int("n"), u = nvc_int("u"); bool st = nvc_bool("st");
    nvc_assume(n >= 0 && n < (1 << 29) && a.size() < (1u << 29));
    BitSet b; b.words.original = a; b.words.length = (int) a.size(); b.wordsInUse = u; b.sizeIsSticky = st;
    b.ensureCapacity(n);
    int l = (int) a.size(), m = l >= n ? l : 2 * l > n ? 2 * l : n;
    ENSURE(b.words.length == m && b.words.original.size() == (size_t) m && b.wordsInUse == u && b.sizeIsSticky == (l >= n && st));
    FORALL(k, 0, m) ENSURE(b.words.original[k] == (k < l ? a[k] : 0));
}
LEMMA(P13, lemmaRecalculate) {
    std::vector<long> a; nvc_longs(&a, "a"); int u = nvc_int("u"); bool st = nvc_bool("st");
    nvc_assume(u >= 0 && u <= (int) a.size());
    BitSet b; b.words.original = a; b.words.length = (int) a.size(); b.wordsInUse = u; b.sizeIsSticky = st;
    b.recalculateWordsInUse();
    int w = b.wordsInUse;
    ENSURE(w >= 0 && w <= u && (w == 0 || a[w - 1] != 0) && b.sizeIsSticky == st && b.words.length == (int) a.size());
    FORALL(k, w, u) ENSURE(a[k] == 0);
    ENSURE(same(b.words.original, a));
}
#endif

CONTRACT(P13, getBit) {
    Src s; s.draw("s", "extra", "sticky"); int i = nvc_int("i");
    BitSet b; put(b, s);
    bool threw = false, g = false;
    try { g = b.get(i); } catch (IndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("get throws exactly for a negative index", threw == (i < 0));
    if (i >= 0) ENSURE_MSG("get tells whether the bit is set", g == s.has(i));
    ENSURE_MSG("isEmpty exactly without a set bit", b.isEmpty() == s.w.empty());
}
CONTRACT(P13, setBit) {
    Src s; s.draw("s", "extra", "sticky"); int i = nvc_int("i"), k = nvc_int("k"); bool v = nvc_bool("v");
    nvc_assume(k >= 0 && i < (1 << 30));
    BitSet b; put(b, s);
    bool threw = false;
    try { b.set(i, v); } catch (IndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("set throws exactly for a negative index", threw == (i < 0));
    ENSURE_MSG("set changes exactly the given bit", bit(b, k) == (k == i ? v : s.has(k)));
    consistent(b);
}
CONTRACT(P13, clearBit) {
    Src s; s.draw("s", "extra", "sticky"); int i = nvc_int("i"), k = nvc_int("k");
    nvc_assume(k >= 0);
    BitSet b; put(b, s);
    bool threw = false;
    try { b.clear(i); } catch (IndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("clear throws exactly for a negative index", threw == (i < 0));
    ENSURE_MSG("clear changes exactly the given bit", bit(b, k) == (k != i && s.has(k)));
    consistent(b);
}
CONTRACT(P13, flipBit) {
    Src s; s.draw("s", "extra", "sticky"); int i = nvc_int("i"), k = nvc_int("k");
    nvc_assume(k >= 0 && i < (1 << 30));
    BitSet b; put(b, s);
    bool threw = false;
    try { b.flip(i); } catch (IndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("flip throws exactly for a negative index", threw == (i < 0));
    ENSURE_MSG("flip changes exactly the given bit", bit(b, k) == (s.has(k) != (k == i)));
    consistent(b);
}
CONTRACT(P13, clearAll) {
    Src s; s.draw("s", "extra", "sticky"); int k = nvc_int("k");
    nvc_assume(k >= 0);
    BitSet b; put(b, s);
    b.clear();
    ENSURE(!bit(b, k) && b.isEmpty() && b.length() == 0 && b.cardinality() == 0);
    consistent(b);
}
CONTRACT(P13, setRange) {
    Src s; s.draw("s", "extra", "sticky"); int f = nvc_int("from"), t = nvc_int("to"), k = nvc_int("k");
    nvc_assume(k >= 0 && t < (1 << 30));
    BitSet b; put(b, s);
    bool threw = false;
    try { b.set(f, t); } catch (IndexOutOfBoundsException &) { threw = true; }
    bool bad = f < 0 || t < 0 || f > t;
    ENSURE_MSG("set(from, to) throws exactly for a bad range", threw == bad);
    ENSURE_MSG("set(from, to) sets exactly the bits of the range", bit(b, k) == ((!bad && f <= k && k < t) || s.has(k)));
    consistent(b);
}
CONTRACT(P13, clearRange) {
    Src s; s.draw("s", "extra", "sticky"); int f = nvc_int("from"), t = nvc_int("to"), k = nvc_int("k");
    nvc_assume(k >= 0);
    BitSet b; put(b, s);
    bool threw = false;
    try { b.clear(f, t); } catch (IndexOutOfBoundsException &) { threw = true; }
    bool bad = f < 0 || t < 0 || f > t;
    ENSURE_MSG("clear(from, to) throws exactly for a bad range", threw == bad);
    ENSURE_MSG("clear(from, to) clears exactly the bits of the range", bit(b, k) == (s.has(k) && (bad || k < f || k >= t)));
    consistent(b);
}
CONTRACT(P13, flipRange) {
    Src s; s.draw("s", "extra", "sticky"); int f = nvc_int("from"), t = nvc_int("to"), k = nvc_int("k");
    nvc_assume(k >= 0 && t < (1 << 30));
    BitSet b; put(b, s);
    bool threw = false;
    try { b.flip(f, t); } catch (IndexOutOfBoundsException &) { threw = true; }
    bool bad = f < 0 || t < 0 || f > t;
    ENSURE_MSG("flip(from, to) throws exactly for a bad range", threw == bad);
    ENSURE_MSG("flip(from, to) flips exactly the bits of the range", bit(b, k) == (s.has(k) != (!bad && f <= k && k < t)));
    consistent(b);
}
// word i of the bits from..to-1 moved to 0
static inline unsigned long wordAt(const Src &s, long i) { return (size_t) i < s.w.size() ? (unsigned long) s.w[i] : 0; }
static inline unsigned long moved(const Src &s, int f, int t, long i) {
    unsigned long v = wordAt(s, i + (f >> 6)) >> (f & 63);
    if (f & 63) v |= wordAt(s, i + (f >> 6) + 1) << (64 - (f & 63));
    long left = (long) t - f - 64 * i;
    return left >= 64 ? v : left <= 0 ? 0 : v & (~0UL >> (64 - left));
}
CONTRACT(P13, getRangeNone) {
    Src s; s.draw("s", "extra", "sticky"); int f = nvc_int("from"), t = nvc_int("to"), h = nvc_int("h");
    nvc_assume(f >= 0 && f <= t && h >= 0 && h < 64);
    nvc_assume(s.w.empty() || (unsigned long) s.w[s.w.size() - 1] >> h == 1);
    int n = s.w.empty() ? 0 : 64 * ((int) s.w.size() - 1) + h + 1;     // the length of the set
    nvc_assume(f >= n || f == t);
    BitSet b; put(b, s);
    BitSet r = b.get(f, t);
    FORALL(j, 0, 1 << 25) ENSURE_MSG("nothing set from the length on", moved(s, f, t, j) == 0);
    ENSURE_MSG("get(from, to) is empty from the length on", r.isEmpty()); consistent(r);
}
BOUNDED(P13, getRange, 2) {
    Src s; s.draw("s", "extra", "sticky"); int f = nvc_int("from"), t = nvc_int("to"), i = nvc_int("i");
    nvc_assume(f >= 0 && f <= t && i >= 0);
    NVC_BOUND(s.w.size(), 2); nvc_assume(s.extra == 0);
    BitSet b; put(b, s);
    BitSet r = b.get(f, t);
    ENSURE_MSG("get(from, to) holds the bits of the range, moved to 0", (i < r.wordsInUse ? (unsigned long) r.words.original[i] : 0) == moved(s, f, t, i));
    consistent(r);
}
CONTRACT(P13, getRangeBits) {
    Src s; s.draw("s", "extra", "sticky"); int f = nvc_int("from"), t = nvc_int("to"), k = nvc_int("k");
    nvc_assume(f >= 0 && f <= t && k >= 0);
    ENSURE_MSG("bit k of the moved words is bit from + k", (moved(s, f, t, k >> 6) >> (k & 63) & 1) == (k < t - f && f + k >= 0 && s.has(f + k)));
}
static inline void andCase(bool longer) {
    Src s, u; s.draw("s", "extra", "sticky"); u.draw("u", "extra2", "sticky2"); int k = nvc_int("k");
    nvc_assume(k >= 0); nvc_assume(longer == (s.w.size() > u.w.size()));
    BitSet b, c; put(b, s); put(c, u);
    b.bitAnd(c);
    ENSURE_MSG("and", bit(b, k) == (s.has(k) && u.has(k)));
    ENSURE_MSG("the argument is unchanged", bit(c, k) == u.has(k));
    consistent(b);
}
CONTRACT(P13, bitAndLonger) { andCase(true); }
CONTRACT(P13, bitAnd) { andCase(false); }
static inline void orCase(bool shorter) {
    Src s, u; s.draw("s", "extra", "sticky"); u.draw("u", "extra2", "sticky2"); int k = nvc_int("k");
    nvc_assume(k >= 0); nvc_assume(shorter == (s.w.size() < u.w.size()));
    BitSet b, c; put(b, s); put(c, u);
    b.bitOr(c);
    ENSURE_MSG("or", bit(b, k) == (s.has(k) || u.has(k)));
    ENSURE_MSG("the argument is unchanged", bit(c, k) == u.has(k));
    consistent(b);
}
CONTRACT(P13, bitOrShorter) { orCase(true); }
CONTRACT(P13, bitOr) { orCase(false); }
CONTRACT(P13, bitXor) {
    Src s, u; s.draw("s", "extra", "sticky"); u.draw("u", "extra2", "sticky2"); int k = nvc_int("k");
    nvc_assume(k >= 0);
    BitSet b, c; put(b, s); put(c, u);
    b.bitXor(c);
    ENSURE_MSG("xor", bit(b, k) == (s.has(k) != u.has(k)));
    ENSURE_MSG("the argument is unchanged", bit(c, k) == u.has(k));
    consistent(b);
}
CONTRACT(P13, andNot) {
    Src s, u; s.draw("s", "extra", "sticky"); u.draw("u", "extra2", "sticky2"); int k = nvc_int("k");
    nvc_assume(k >= 0);
    BitSet b, c; put(b, s); put(c, u);
    b.andNot(c);
    ENSURE_MSG("and not", bit(b, k) == (s.has(k) && !u.has(k)));
    ENSURE_MSG("the argument is unchanged", bit(c, k) == u.has(k));
    consistent(b);
}
CONTRACT(P13, intersects) {
    Src s, u; s.draw("s", "extra", "sticky"); u.draw("u", "extra2", "sticky2"); int k = nvc_int("k");
    nvc_assume(k >= 0);
    BitSet b, c; put(b, s); put(c, u);
    bool r = b.intersects(c);
    if (!r) ENSURE_MSG("intersects is false only without a common bit", !(s.has(k) && u.has(k)));
    long n = s.w.size() < u.w.size() ? s.w.size() : u.w.size(), m = 0;
    while (m < n && (s.w[m] & u.w[m]) == 0) m++;
    if (r) ENSURE_MSG("intersects is true only with a common bit", m < n);
    consistent(b);
}
CONTRACT(P13, equals) {
    Src s, u; s.draw("s", "extra", "sticky"); u.draw("u", "extra2", "sticky2"); int k = nvc_int("k");
    nvc_assume(k >= 0);
    BitSet b, c; put(b, s); put(c, u);
    bool r = b.equals(c);
    if (r) ENSURE_MSG("equal sets have the same bits", s.has(k) == u.has(k));
    if (!r) ENSURE_MSG("unequal sets differ", s.w.size() != u.w.size() || !nvc_eqrange((const char *) s.w.data(), (const char *) u.w.data(), (long) (8 * s.w.size())));
}
CONTRACT(P13, length) {
    Src s; s.draw("s", "extra", "sticky"); int k = nvc_int("k");
    nvc_assume(k >= 0);
    BitSet b; put(b, s);
    int n = b.length();
    ENSURE_MSG("length is 0 exactly for the empty set", (n == 0) == s.w.empty() && n >= 0);
    if (n > 0) ENSURE_MSG("the highest set bit is length() - 1", s.has(n - 1));
    if (k >= n) ENSURE_MSG("no bit is set from length() on", !s.has(k));
    ENSURE_MSG("size is the number of bits of space", b.size() == 64 * b.words.length);
}
CONTRACT(P13, nextSet) {
    Src s; s.draw("s", "extra", "sticky"); int f = nvc_int("from"), k = nvc_int("k");
    BitSet b; put(b, s);
    bool threw = false; int n = 0;
    try { n = b.nextSetBit(f); } catch (IndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("nextSetBit throws exactly for a negative index", threw == (f < 0));
    if (f >= 0) {
        ENSURE_MSG("nextSetBit is -1 or a set bit from the index on", n == -1 || (n >= f && s.has(n)));
        if (k >= f && (n == -1 || k < n)) ENSURE_MSG("no set bit before nextSetBit", !s.has(k));
    }
}
CONTRACT(P13, nextClear) {
    Src s; s.draw("s", "extra", "sticky"); int f = nvc_int("from"), k = nvc_int("k");
    BitSet b; put(b, s);
    bool threw = false; int n = 0;
    try { n = b.nextClearBit(f); } catch (IndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("nextClearBit throws exactly for a negative index", threw == (f < 0));
    if (f >= 0) {
        ENSURE_MSG("nextClearBit is a clear bit from the index on", n >= f && !s.has(n));
        if (k >= f && k < n) ENSURE_MSG("no clear bit before nextClearBit", s.has(k));
    }
}
CONTRACT(P13, previousSet) {
    Src s; s.draw("s", "extra", "sticky"); int f = nvc_int("from"), k = nvc_int("k");
    BitSet b; put(b, s);
    bool threw = false; int n = 0;
    try { n = b.previousSetBit(f); } catch (IndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("previousSetBit throws exactly below -1", threw == (f < -1));
    if (f >= -1) {
        ENSURE_MSG("previousSetBit is -1 or a set bit up to the index", n == -1 || (n <= f && s.has(n)));
        if (k > n && k <= f) ENSURE_MSG("no set bit between previousSetBit and the index", !s.has(k));
    }
}
CONTRACT(P13, previousClear) {
    Src s; s.draw("s", "extra", "sticky"); int f = nvc_int("from"), k = nvc_int("k");
    BitSet b; put(b, s);
    bool threw = false; int n = 0;
    try { n = b.previousClearBit(f); } catch (IndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("previousClearBit throws exactly below -1", threw == (f < -1));
    if (f >= -1) {
        ENSURE_MSG("previousClearBit is -1 or a clear bit up to the index", n == -1 || (n >= 0 && n <= f && !s.has(n)));
        if (k > n && k <= f) ENSURE_MSG("no clear bit between previousClearBit and the index", s.has(k));
    }
}
CONTRACT(P13, cardinality) {
    Src s; s.draw("s", "extra", "sticky");
    BitSet b; put(b, s);
    int c = 0;
    for (size_t i = 0; i < s.w.size(); i++) c += Long::bitCount(s.w[i]);
    ENSURE_MSG("cardinality is the sum of the bit counts of the words", b.cardinality() == c);
}
CONTRACT(P13, copies) {
    Src s, u; s.draw("s", "extra", "sticky"); u.draw("u", "extra2", "sticky2"); int k = nvc_int("k");
    nvc_assume(k >= 0);
    BitSet b, c; put(b, s); put(c, u);
    BitSet d(b);
    ENSURE_MSG("a copy has the same bits", bit(d, k) == s.has(k)); consistent(d);
    c = b;
    ENSURE_MSG("assignment copies the bits", bit(c, k) == s.has(k)); consistent(c);
    d.clear(); c.clear();
    ENSURE_MSG("copies are independent", bit(b, k) == s.has(k)); consistent(b);
}
CONTRACT(P13, clone) {
    Src s; s.draw("s", "extra", "sticky"); int k = nvc_int("k");
    nvc_assume(k >= 0);
    BitSet b; put(b, s);
    BitSet d = b.clone();
    ENSURE_MSG("a clone has the same bits", bit(d, k) == s.has(k)); consistent(d);
    ENSURE(bit(b, k) == s.has(k)); consistent(b);
}
CONTRACT(P13, construct) {
    int n = nvc_int("n"), k = nvc_int("k"); bool threw = false;
    nvc_assume(k >= 0 && n < (1 << 30));
    try {
        BitSet b(n);
        ENSURE_MSG("a new set is empty", !bit(b, k) && b.isEmpty());
        ENSURE_MSG("a new set has space for the bits asked for", b.size() >= n && b.size() < n + 64 && b.size() % 64 == 0);
        consistent(b);
    } catch (NegativeArraySizeException &) { threw = true; }
    ENSURE_MSG("a negative size is refused", threw == (n < 0));
    BitSet d;
    ENSURE(d.size() == 64 && d.isEmpty()); consistent(d);
}
CONTRACT(P13, words) {
    Src s; s.draw("s", "extra", "sticky"); int k = nvc_int("k");
    nvc_assume(k >= 0);
    BitSet b; put(b, s);
    Array<long> a = b.toLongArray();
    ENSURE_MSG("toLongArray has the words in use", a.length == (int) s.w.size() && nvc_eqrange((const char *) a.original.data(), (const char *) s.w.data(), (long) (8 * s.w.size())));
}
CONTRACT(P13, valueOfWords) {
    Array<long> v; nvc_longs(&v.original, "v"); v.length = v.original.size(); int k = nvc_int("k");
    nvc_assume(k >= 0);
    BitSet c = BitSet::valueOf(v);
    ENSURE_MSG("valueOf(long[]) has the bits of the words", bit(c, k) == ((k >> 6) < v.length && ((unsigned long) v.original[k >> 6] >> (k & 63) & 1)));
    consistent(c);
}
