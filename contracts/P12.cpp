// P12  Arrays: copying, comparing, filling, hashing, searching and sorting arrays
#include "../nvc/lib.hpp"
#include "library/Java/Util/Arrays/Arrays.hpp"
using Java::Util::Arrays;

#define INTS(a) Array<int> a; nvc_ints(&a.original, #a); a.length = (int) a.original.size();
#define LONGS(a) Array<long> a; nvc_longs(&a.original, #a); a.length = (int) a.original.size();
#define CHARS(a) Array<char> a; nvc_chars(&a.original, #a); a.length = (int) a.original.size();
#define BYTES(a) Array<byte> a; nvc_bytes(&a.original, #a); a.length = (int) a.original.size();
template<class E> static inline bool sized(const Array<E> &a, long n) { return a.length == (int) n && (long) a.original.size() == n; }
template<class E> static inline bool equal(const Array<E> &a, long from, const std::vector<E> &b, long at, long n) { return nvc_eqrange((const char *) (a.original.data() + from), (const char *) (b.data() + at), n * (long) sizeof(E)); }

#define COPYOF(T, DRAW) CONTRACT(P12, copyOf_##T) { \
    DRAW(a) std::vector<T> old = a.original; int n = nvc_int("n"); nvc_assume(n < (1 << 29)); \
    Array<T> r = Arrays::copyOf(a, n); \
    long m = n < 0 ? 0 : n, c = m < (long) old.size() ? m : (long) old.size(); \
    ENSURE_MSG("copyOf has the requested length", sized(r, m)); \
    ENSURE_MSG("copyOf keeps the elements", equal(r, 0, old, 0, c)); \
    FORALL(k, c, m) ENSURE_MSG("copyOf pads with zeros", r.original[k] == 0); \
    ENSURE_MSG("the array is unchanged", sized(a, (long) old.size()) && equal(a, 0, old, 0, (long) old.size())); }
COPYOF(int, INTS) COPYOF(long, LONGS) COPYOF(char, CHARS)
#define COPYRANGE(T, DRAW) CONTRACT(P12, copyOfRange_##T) { \
    DRAW(a) std::vector<T> old = a.original; int x = nvc_int("from"), y = nvc_int("to"); \
    Array<T> r = Arrays::copyOfRange(a, x, y); \
    bool ok = 0 <= x && x <= y && y <= (long) old.size(); \
    ENSURE_MSG("copyOfRange has to - from elements, none for a bad range", sized(r, ok ? y - x : 0)); \
    if (ok) ENSURE_MSG("copyOfRange holds from..to-1", equal(r, 0, old, x, y - x)); }
COPYRANGE(int, INTS) COPYRANGE(long, LONGS) COPYRANGE(char, CHARS) COPYRANGE(byte, BYTES)
#define EQUAL(T, DRAW) CONTRACT(P12, equals_##T) { \
    DRAW(a) DRAW(b) \
    bool r = Arrays::equals(a, b); \
    ENSURE_MSG("equals exactly for the same elements", r == (a.length == b.length && nvc_eqrange((const char *) a.original.data(), (const char *) b.original.data(), (long) a.length * (long) sizeof(T)))); }
EQUAL(int, INTS) EQUAL(long, LONGS) EQUAL(char, CHARS) EQUAL(byte, BYTES)
#define FILLS(T, DRAW, VAL) CONTRACT(P12, fill_##T) { \
    DRAW(a) std::vector<T> old = a.original; T v = VAL("v"); \
    Arrays::fill(&a, v); \
    ENSURE(sized(a, (long) old.size())); \
    FORALL(k, 0, old.size()) ENSURE_MSG("every element is the value", a.original[k] == v); } \
CONTRACT(P12, fillByIndex_##T) { \
    DRAW(a) std::vector<T> old = a.original; T v = VAL("v"); int x = nvc_int("from"), y = nvc_int("to"); \
    Arrays::fillByIndex(&a, x, y, v); \
    bool ok = 0 <= x && x <= y && y < (long) old.size(); \
    ENSURE(sized(a, (long) old.size())); \
    FORALL(k, 0, old.size()) ENSURE_MSG("exactly from..to get the value", a.original[k] == (ok && x <= k && k <= y ? v : old[k])); }
FILLS(int, INTS, nvc_int) FILLS(long, LONGS, nvc_long) FILLS(char, CHARS, nvc_char) FILLS(byte, BYTES, nvc_byte)
#define HASHES(T, DRAW, H) CONTRACT(P12, hashCode_##T) { \
    DRAW(a) int e = 1; \
    for (size_t k = 0; k < a.original.size(); k++) { T x = a.original[k]; e = 31 * e + (int) (H); } \
    ENSURE_MSG("hashCode is the polynomial hash, 0 for an empty array", Arrays::hashCode(a) == (a.length == 0 ? 0 : e)); }
HASHES(int, INTS, x) HASHES(char, CHARS, x) HASHES(byte, BYTES, x) HASHES(long, LONGS, x ^ (x >> 32))
// sorted order, as far as a search for key needs it: smaller elements, then the ones equal to key, then larger ones
#ifdef NVC_NATIVE
#define SPLIT(p, x, b, c, y, key) do { std::sort(p + x, p + y + 1); b = (int) (std::lower_bound(p + x, p + y + 1, key) - p); c = (int) (std::upper_bound(p + x, p + y + 1, key) - p); } while (0)
#else
#define SPLIT(p, x, b, c, y, key) do { nvc_assume(x <= b && b <= c && c <= y + 1); ASSUME_FORALL(k, x, b, p[k] < key); ASSUME_FORALL(k, b, c, p[k] == key); ASSUME_FORALL(k, c, (long) y + 1, p[k] > key); } while (0)
#endif
#define SEARCH(T, DRAW, VAL) CONTRACT(P12, binarySearchByIndex_##T) { \
    DRAW(a) T key = VAL("key"); int x = nvc_int("from"), y = nvc_int("to"), b = nvc_int("ghost_b"), c = nvc_int("ghost_c"); \
    T *p = a.original.data(); \
    nvc_assume(0 <= x && x <= y && y < a.length); \
    SPLIT(p, x, b, c, y, key); \
    nvc_cases(b <= y ? 0 : 1, 0, 2); \
    int r = Arrays::binarySearchByIndex(p, x, y, key); \
    ENSURE_MSG("the first position of the key, -1 when absent", r == (b < c ? b : -1)); } \
CONTRACT(P12, binarySearchByKey_##T) { \
    DRAW(a) T key = VAL("key"); int y = a.length - 1, b = nvc_int("ghost_b"), c = nvc_int("ghost_c"); \
    T *p = a.original.data(); \
    SPLIT(p, 0, b, c, y, key); \
    nvc_cases(b <= y ? 0 : 1, 0, 2); \
    int r = Arrays::binarySearchByKey(p, key, a.length); \
    ENSURE_MSG("the first position of the key, -1 when absent", r == (b < c ? b : -1)); }
SEARCH(int, INTS, nvc_int) SEARCH(long, LONGS, nvc_long) SEARCH(char, CHARS, nvc_char)
CONTRACT(P12, binarySearchRange_int) {
    INTS(a) int key = nvc_int("key"); int x = nvc_int("from"), y = nvc_int("to"), b = nvc_int("ghost_b"), c = nvc_int("ghost_c");
    int *p = a.original.data();
    nvc_assume(0 <= x && x <= y && y < a.length);
    SPLIT(p, x, b, c, y, key);
    nvc_cases(b <= y ? 0 : 1, 0, 2);
    int r = Arrays::binarySearch(a, x, y, key);
    ENSURE_MSG("the first position of the key in the range, -1 when absent", r == (b < c ? b : -1));
}
CONTRACT(P12, binarySearchRangePlain_int) {
    INTS(a) int key = nvc_int("key"); int x = nvc_int("from"), y = nvc_int("to"), b = nvc_int("ghost_b"), c = nvc_int("ghost_c");
    int *p = a.original.data();
    nvc_assume(0 <= x && x <= y && y < a.length);
    SPLIT(p, x, b, c, y, key);
    nvc_cases(b <= y ? 0 : 1, 0, 2);
    int r = Arrays::binarySearch(p, x, y, key);
    ENSURE_MSG("the first position of the key in the range, -1 when absent", r == (b < c ? b : -1));
}
CONTRACT(P12, binarySearchArray_long) {
    LONGS(a) long key = nvc_long("key"); int y = a.length - 1, b = nvc_int("ghost_b"), c = nvc_int("ghost_c");
    long *p = a.original.data();
    SPLIT(p, 0, b, c, y, key);
    nvc_cases(b <= y ? 0 : 1, 0, 2);
    int r = Arrays::binarySearch(a, key, a.length);
    ENSURE_MSG("the first position of the key, -1 when absent", r == (b < c ? b : -1));
}
// sorting, for up to 4 elements
BOUNDED(P12, sort_int, 4) {
    INTS(a) std::vector<int> old = a.original; int n = a.length;
    NVC_BOUND(n, 4); nvc_assume(n > 0); nvc_cases(n, 1, 5);
    int v = nvc_int("v");
    Arrays::sort(a.original.data(), n);
    int x = 0, y = 0;
    for (int k = 0; k < n; k++) { x += old[k] == v; y += a.original[k] == v; }
    ENSURE_MSG("no element lost or invented", x == y);
    for (int k = 0; k + 1 < n; k++) ENSURE_MSG("ascending", a.original[k] <= a.original[k + 1]);
}
BOUNDED(P12, sortRange_long, 3) {
    LONGS(a) std::vector<long> old = a.original; int n = a.length, x = nvc_int("from"), y = nvc_int("to");
    NVC_BOUND(n, 3); nvc_assume(n > 0 && 0 <= x && x <= y && y < n); nvc_cases(n, 1, 4); nvc_cases(x, 0, 3); nvc_cases(y, 0, 3);
    long v = nvc_long("v");
    Arrays::sort(&a, x, y);
    int c = 0, d = 0;
    for (int k = 0; k < n; k++) { c += old[k] == v; d += a.original[k] == v; }
    ENSURE_MSG("no element lost or invented", c == d);
    for (int k = 0; k < n; k++) if (k < x || k > y) ENSURE_MSG("elements outside the range stay", a.original[k] == old[k]); else if (k < y) ENSURE_MSG("ascending in the range", a.original[k] <= a.original[k + 1]);
}
