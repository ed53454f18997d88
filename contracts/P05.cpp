// P05  String: reading, searching and comparing
#include "../nvc/lib.hpp"
#include "library/Java/Lang/StringIndexOutOfBoundsException/StringIndexOutOfBoundsException.hpp"

CONTRACT(P05, charAt) {
    std::string s; nvc_string(&s, "s"); int i = nvc_int("i");
    String j(s);
    bool threw = false; char c = 0;
    try { c = j.charAt(i); } catch (StringIndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("charAt throws StringIndexOutOfBoundsException exactly outside 0..length-1", threw == (i < 0 || i >= (int) s.size()));
    if (!threw) ENSURE_MSG("charAt returns the character at the index", c == s[i]);
    ENSURE_MSG("length is the number of characters", j.length() == (int) s.size() && j.getSize() == (int) s.size());
    ENSURE_MSG("isEmpty exactly for length 0", j.isEmpty() == s.empty());
    ENSURE_MSG("the string is unchanged", is(j, s));
}
CONTRACT(P05, startsWith) {
    std::string s, p; nvc_string(&s, "s"); nvc_string(&p, "p");
    String j(s), q(p);
    bool e = p.size() <= s.size() && nvc_eqrange(s.data(), p.data(), p.size());
    ENSURE_MSG("startsWith exactly when the prefix is there", j.startsWith(q) == e);
}
CONTRACT(P05, startsWithOffset) {
    std::string s, p; nvc_string(&s, "s"); nvc_string(&p, "p"); int off = nvc_int("off");
    String j(s), q(p);
    bool e = off >= 0 && (long) off + (long) p.size() <= (long) s.size() && nvc_eqrange(s.data() + off, p.data(), p.size());
    ENSURE_MSG("startsWith(prefix, offset) exactly when the prefix is at the offset", j.startsWith(q, off) == e);
}
CONTRACT(P05, endsWith) {
    std::string s, p; nvc_string(&s, "s"); nvc_string(&p, "p");
    String j(s), q(p);
    bool e = p.size() <= s.size() && nvc_eqrange(s.data() + (s.size() - p.size()), p.data(), p.size());
    ENSURE_MSG("endsWith exactly when the suffix is there", j.endsWith(q) == e);
}
CONTRACT(P05, indexOfChar) {
    std::string s; nvc_string(&s, "s"); char c = nvc_char("c");
    String j(s);
    int r = j.indexOf(c);
    ENSURE(r >= -1 && r < (int) s.size());
    if (r >= 0) ENSURE_MSG("indexOf finds the character", s[r] == c);
    FORALL(i, 0, r < 0 ? (long) s.size() : r) ENSURE_MSG("no earlier occurrence", s[i] != c);
}
CONTRACT(P05, indexOfCharFrom) {
    std::string s; nvc_string(&s, "s"); char c = nvc_char("c"); int f = nvc_int("from");
    String j(s);
    int r = j.indexOf(c, f);
    ENSURE(r >= -1 && r < (int) s.size());
    if (r >= 0) ENSURE_MSG("indexOf finds the character at or after fromIndex", s[r] == c && r >= f);
    FORALL(i, f < 0 ? 0 : f, r < 0 ? (long) s.size() : r) ENSURE_MSG("no earlier occurrence", s[i] != c);
}
CONTRACT(P05, lastIndexOfChar) {
    std::string s; nvc_string(&s, "s"); char c = nvc_char("c");
    String j(s);
    int r = j.lastIndexOf(c);
    ENSURE(r >= -1 && r < (int) s.size());
    if (r >= 0) ENSURE_MSG("lastIndexOf finds the character", s[r] == c);
    FORALL(i, r + 1, s.size()) ENSURE_MSG("no later occurrence", s[i] != c);
}
CONTRACT(P05, lastIndexOfCharFrom) {
    std::string s; nvc_string(&s, "s"); char c = nvc_char("c"); int f = nvc_int("from");
    String j(s);
    int r = j.lastIndexOf(c, f);
    ENSURE(r >= -1 && r < (int) s.size());
    if (r >= 0) ENSURE_MSG("lastIndexOf finds the character at or before fromIndex", s[r] == c && r <= f);
    FORALL(i, r + 1, f < 0 ? 0 : f >= (int) s.size() ? (long) s.size() : f + 1) ENSURE_MSG("no later occurrence up to fromIndex", s[i] != c);
}
static inline bool occurs(const std::string &s, const std::string &p, long i) { return i >= 0 && i + (long) p.size() <= (long) s.size() && nvc_eqrange(s.data() + i, p.data(), p.size()); }
CONTRACT(P05, indexOfString) {
    std::string s, p; nvc_string(&s, "s"); nvc_string(&p, "p");
    nvc_assume(!p.empty());
    String j(s), q(p);
    int r = j.indexOf(q);
    ENSURE(r >= -1 && r < (int) s.size());
    if (r >= 0) ENSURE_MSG("indexOf finds the substring", occurs(s, p, r));
    FORALL(i, 0, r < 0 ? (long) s.size() : r) ENSURE_MSG("no earlier occurrence", !occurs(s, p, i));
    ENSURE_MSG("contains exactly when there is an occurrence", j.contains(q) == (r >= 0));
}
CONTRACT(P05, indexOfStringFrom) {
    std::string s, p; nvc_string(&s, "s"); nvc_string(&p, "p"); int f = nvc_int("from");
    nvc_assume(!p.empty());
    nvc_cases(f < 0 ? 0 : f < (long) s.size() ? 1 : 2, 0, 3);
    String j(s), q(p);
    int r = j.indexOf(q, f);
    ENSURE(r >= -1 && r < (int) s.size());
    if (r >= 0) ENSURE_MSG("indexOf finds the substring at or after fromIndex", occurs(s, p, r) && r >= f);
    FORALL(i, f < 0 ? 0 : f, r < 0 ? (long) s.size() : r) ENSURE_MSG("no earlier occurrence", !occurs(s, p, i));
}
CONTRACT(P05, lastIndexOfString) {
    std::string s, p; nvc_string(&s, "s"); nvc_string(&p, "p");
    nvc_assume(!p.empty());
    String j(s), q(p);
    int r = j.lastIndexOf(q);
    ENSURE(r >= -1 && r < (int) s.size());
    if (r >= 0) ENSURE_MSG("lastIndexOf finds the substring", occurs(s, p, r));
    FORALL(i, r + 1, s.size()) ENSURE_MSG("no later occurrence", !occurs(s, p, i));
}
// The test suite pins -1 for a start index inside the last possible occurrence, where the occurrence should be found:
// for those inputs the contract only holds with the known finding excluded.
CONTRACT(P05, lastIndexOfStringFrom) {
    std::string s, p; nvc_text(&s, "s"); nvc_text(&p, "p"); int f = nvc_int("from");
    nvc_assume(!p.empty());
    long hi = f < (long) s.size() ? f : (long) s.size();        // last admissible start
    nvc_known("lastIndexOf-from-near-end", f >= 0 && f < (long) s.size() && (long) f + (long) p.size() > (long) s.size());
    nvc_cases(f < 0 ? 0 : f < (long) s.size() ? 1 : 2, 0, 3);
    String j(s), q(p);
    int r = j.lastIndexOf(q, f);
    ENSURE(r >= -1 && r < (int) s.size());
    if (r >= 0) ENSURE_MSG("lastIndexOf finds the substring at or before fromIndex", occurs(s, p, r) && r <= f);
    FORALL(i, r + 1, hi + 1) ENSURE_MSG("no later occurrence up to fromIndex", !occurs(s, p, i));
}
// the order of two texts as bytes, independent of strcmp
static int order(const std::string &a, const std::string &b) {
    size_t k = 0;
    while (k < a.size() && k < b.size() && a[k] == b[k]) k++;
    if (k < a.size() && k < b.size()) return (unsigned char) a[k] < (unsigned char) b[k] ? -1 : 1;
    return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
CONTRACT(P05, compareTo) {
    std::string s, p; nvc_text(&s, "s"); nvc_text(&p, "p");
    String j(s), q(p);
    int r = j.compareTo(q), e = order(s, p);
    ENSURE_MSG("compareTo orders by the first difference, then by length", (r < 0) == (e < 0) && (r > 0) == (e > 0));
    ENSURE((j < q) == (e < 0)); ENSURE((j > q) == (e > 0)); ENSURE((j <= q) == (e <= 0)); ENSURE((j >= q) == (e >= 0));
}
CONTRACT(P05, equals) {
    std::string s, p; nvc_string(&s, "s"); nvc_string(&p, "p");
    String j(s), q(p);
    bool e = s.size() == p.size() && nvc_eqrange(s.data(), p.data(), p.size());
    ENSURE(j.equals(q) == e); ENSURE((j == q) == e); ENSURE((j != q) == !e);
}
static inline int low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
CONTRACT(P05, equalsIgnoreCase) {
    std::string s, p; nvc_text(&s, "s"); nvc_text(&p, "p");
    String j(s), q(p);
    bool r = j.equalsIgnoreCase(q);
    if (r) { ENSURE(s.size() == p.size()); FORALL(i, 0, s.size()) ENSURE_MSG("equal up to ASCII case", low(s[i]) == low(p[i])); }
    bool e = s.size() == p.size();
    if (e) for (size_t i = 0; i < s.size(); i++) if (low(s[i]) != low(p[i])) { e = false; break; }
    ENSURE_MSG("equalsIgnoreCase exactly when equal up to ASCII case", r == e);
    ENSURE((j.compareToIgnoreCase(q) == 0) == e);
}
CONTRACT(P05, hashCode) {
    std::string s; nvc_string(&s, "s");
    String j(s);
    int h = 0;
    for (size_t i = 0; i < s.size(); i++) h = 31 * h + s[i];
    ENSURE_MSG("hashCode is the polynomial hash of the characters", j.hashCode() == h);
    ENSURE_MSG("hashCode is stable", j.hashCode() == h);
}
CONTRACT(P05, hashCodeAfterChange) {
    std::string s, t; nvc_string(&s, "s"); nvc_string(&t, "t");
    String j(s), k(t);
    j.hashCode();
    j = k;
    ENSURE_MSG("equal strings have equal hash codes after assignment", j.hashCode() == k.hashCode());
}
CONTRACT(P05, regionMatches) {
    std::string s, p; nvc_text(&s, "s"); nvc_text(&p, "p"); int a = nvc_int("a"), b = nvc_int("b"), n = nvc_int("n");
    nvc_assume(a >= 0 && b >= 0 && n >= 0 && (long) a + n <= (long) s.size() && (long) b + n <= (long) p.size());
    String j(s), q(p);
    ENSURE_MSG("regionMatches exactly when the regions are equal", j.regionMatches(a, q, b, n) == nvc_eqrange(s.data() + a, p.data() + b, n));
}
