// P07  StringBuilder: every operation acts on the character sequence as its documentation says
#include "../nvc/lib.hpp"
#include "library/Java/Lang/StringBuilder/StringBuilder.hpp"
#include "library/Java/Lang/NegativeArraySizeException/NegativeArraySizeException.hpp"
#include "library/Java/Lang/IndexOutOfBoundsException/IndexOutOfBoundsException.hpp"
#include "library/Java/Lang/StringIndexOutOfBoundsException/StringIndexOutOfBoundsException.hpp"

// an arbitrary builder holding s: any capacity that can hold it, arbitrary bytes behind the text
#define BUILDER(b, s) std::string s; nvc_text(&s, #s); int cap_##s = nvc_int("capacity"); \
    nvc_assume(cap_##s >= (int) s.size() && cap_##s < (1 << 29)); \
    StringBuilder b(cap_##s); memcpy(b.original, s.data(), s.size()); b.currentLength = (int) s.size();
// b has n characters, inside its capacity, inside its memory
static inline bool sized(StringBuilder &b, long n) {
    if (b.currentLength != n || b.length() != n || b.currentCapacity < n || b.capacity() != b.currentCapacity) return false;
    if (b.currentCapacity > 0) { volatile char c = b.original[b.currentCapacity - 1]; (void) c; }
    return true;
}
static inline bool at(const StringBuilder &b, long from, const char *p, long n) { return nvc_eqrange(b.original + from, p, n); }
static inline bool holds(StringBuilder &b, const std::string &s) { return sized(b, (long) s.size()) && at(b, 0, s.data(), (long) s.size()); }

CONTRACT(P07, constructEmpty) {
    StringBuilder b;
    ENSURE_MSG("a new builder is empty", sized(b, 0)); ENSURE_MSG("its capacity is 16", b.capacity() == 16);
}
CONTRACT(P07, constructCapacity) {
    int n = nvc_int("n");
    bool threw = false;
    try { StringBuilder b(n); ENSURE(sized(b, 0)); ENSURE_MSG("capacity() is the requested capacity", b.capacity() == n); }
    catch (NegativeArraySizeException &) { threw = true; }
    ENSURE_MSG("a negative capacity is rejected", threw == (n < 0));
}
CONTRACT(P07, constructString) {
    std::string t; nvc_text(&t, "t");
    String j(t);
    StringBuilder b(j);
    ENSURE_MSG("holds the characters of the string", holds(b, t)); ENSURE_MSG("capacity is at least 16 more", b.capacity() >= (long) t.size() + 16);
}
CONTRACT(P07, constructSequence) {
    std::string t; nvc_text(&t, "t");
    String j(t); const CharSequence &c = j;
    StringBuilder b(c);
    ENSURE_MSG("holds the characters of the sequence", holds(b, t));
}
CONTRACT(P07, copy) {
    BUILDER(b, s)
    int k = nvc_int("k"); nvc_assume(0 <= k && k < (int) s.size());
    StringBuilder c(b);
    ENSURE_MSG("the copy holds the same characters", holds(c, s)); ENSURE_MSG("the original is unchanged", holds(b, s));
    c.setCharAt(k, '#');
    ENSURE_MSG("changing the copy leaves the original alone", holds(b, s));
}
CONTRACT(P07, assign) {
    BUILDER(b, s) BUILDER(c, t)
    b = c;
    ENSURE_MSG("assignment gives the same characters", holds(b, t)); ENSURE_MSG("the source is unchanged", holds(c, t));
    ENSURE_MSG("separate memory", b.original != c.original || b.capacity() == 0);
}
CONTRACT(P07, appendString) {
    BUILDER(b, s) std::string t; nvc_text(&t, "t");
    String j(t);
    StringBuilder &r = b.append(j);
    ENSURE(&r == &b);
    ENSURE(sized(b, (long) s.size() + (long) t.size()));
    ENSURE_MSG("append keeps the old characters", at(b, 0, s.data(), s.size())); ENSURE_MSG("append adds the string at the end", at(b, s.size(), t.data(), t.size()));
}
CONTRACT(P07, appendSequence) {
    BUILDER(b, s) std::string t; nvc_text(&t, "t"); int x = nvc_int("start"), y = nvc_int("end");
    String j(t); const CharSequence &c = j;
    bool threw = false;
    try { b.append(c, x, y); } catch (IndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("append(sequence, start, end) throws exactly for a bad range", threw == !(0 <= x && x <= y && y <= (long) t.size()));
    if (threw) ENSURE_MSG("unchanged when it throws", holds(b, s));
    else { ENSURE(sized(b, (long) s.size() + y - x)); ENSURE(at(b, 0, s.data(), s.size())); ENSURE_MSG("appends start..end-1", at(b, s.size(), t.data() + x, y - x)); }
}
CONTRACT(P07, appendChar) {
    BUILDER(b, s) char c = nvc_char("c");
    b.append(c);
    ENSURE(sized(b, (long) s.size() + 1)); ENSURE(at(b, 0, s.data(), s.size())); ENSURE_MSG("the character is last", b.original[s.size()] == c);
}
CONTRACT(P07, appendBoolean) {
    BUILDER(b, s) bool v = nvc_bool("v");
    b.append((boolean) v);
    std::string t = v ? "true" : "false";
    ENSURE(sized(b, (long) s.size() + (long) t.size())); ENSURE(at(b, 0, s.data(), s.size())); ENSURE_MSG("appends true or false", at(b, s.size(), t.data(), t.size()));
}
CONTRACT(P07, charAt) {
    BUILDER(b, s) int i = nvc_int("i");
    bool threw = false; char c = 0;
    try { c = b.charAt(i); } catch (IndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("charAt throws exactly outside 0..length()-1", threw == (i < 0 || i >= (int) s.size()));
    if (!threw) ENSURE_MSG("charAt gives the character", c == s[i]);
    ENSURE(holds(b, s));
}
CONTRACT(P07, setCharAt) {
    BUILDER(b, s) int i = nvc_int("i"); char c = nvc_char("c");
    bool threw = false;
    try { b.setCharAt(i, c); } catch (StringIndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("setCharAt throws exactly outside 0..length()-1", threw == (i < 0 || i >= (int) s.size()));
    ENSURE(sized(b, s.size()));
    FORALL(k, 0, s.size()) ENSURE_MSG("only that character changes", b.original[k] == (!threw && k == i ? c : s[k]));
}
CONTRACT(P07, deleteRange) {
    BUILDER(b, s) int x = nvc_int("start"), y = nvc_int("end");
    long n = s.size(), e = y > n ? n : y;
    bool threw = false;
    try { StringBuilder r = b.deleteRange(x, y); ENSURE_MSG("returns a builder with the result", r.length() == b.length()); } catch (StringIndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("deleteRange throws exactly for a bad range", threw == (x < 0 || x > e));
    if (threw) ENSURE(holds(b, s));
    else { ENSURE(sized(b, n - (e - x))); ENSURE_MSG("the head stays", at(b, 0, s.data(), x)); ENSURE_MSG("the tail moves up", at(b, x, s.data() + e, n - e)); }
}
CONTRACT(P07, deleteCharAt) {
    BUILDER(b, s) int x = nvc_int("i");
    long n = s.size();
    bool threw = false;
    try { b.deleteCharAt(x); } catch (StringIndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("deleteCharAt throws exactly outside 0..length()-1", threw == (x < 0 || x >= n));
    if (threw) ENSURE(holds(b, s));
    else { ENSURE(sized(b, n - 1)); ENSURE_MSG("the head stays", at(b, 0, s.data(), x)); ENSURE_MSG("the tail moves up", at(b, x, s.data() + x + 1, n - x - 1)); }
}
CONTRACT(P07, ensureCapacity) {
    BUILDER(b, s) int m = nvc_int("m");
    b.ensureCapacity(m);
    ENSURE_MSG("the text stays", holds(b, s)); ENSURE_MSG("capacity reaches the minimum", b.capacity() >= m && b.capacity() >= cap_s);
}
CONTRACT(P07, trimToSize) {
    BUILDER(b, s)
    b.trimToSize();
    ENSURE_MSG("the text stays", holds(b, s)); ENSURE_MSG("no spare capacity", b.capacity() == (int) s.size());
}
CONTRACT(P07, setLength) {
    BUILDER(b, s) int m = nvc_int("m"); nvc_assume(m < (1 << 29));
    bool threw = false; long n = s.size();
    try { b.setLength(m); } catch (IndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("setLength throws exactly for a negative length", threw == (m < 0));
    if (threw) ENSURE(holds(b, s));
    else {
        ENSURE(sized(b, m)); ENSURE_MSG("the common part stays", at(b, 0, s.data(), m < n ? m : n));
        FORALL(k, n, m) ENSURE_MSG("new characters are NUL", b.original[k] == 0);
    }
}
static inline void insertedAt(StringBuilder &b, const std::string &s, long o, const char *t, long n) {
    ENSURE(sized(b, (long) s.size() + n));
    ENSURE_MSG("the head stays", at(b, 0, s.data(), o)); ENSURE_MSG("the new characters stand at the offset", at(b, o, t, n));
    ENSURE_MSG("the tail moves behind them", at(b, o + n, s.data() + o, (long) s.size() - o));
}
CONTRACT(P07, insertString) {
    BUILDER(b, s) std::string t; nvc_text(&t, "t"); int o = nvc_int("offset");
    String j(t);
    bool threw = false;
    try { b.insert(o, j); } catch (StringIndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("insert throws exactly outside 0..length()", threw == (o < 0 || o > (long) s.size()));
    if (threw) ENSURE(holds(b, s)); else insertedAt(b, s, o, t.data(), t.size());
}
CONTRACT(P07, insertChar) {
    BUILDER(b, s) char c = nvc_char("c"); int o = nvc_int("offset");
    bool threw = false;
    try { b.insert(o, c); } catch (IndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("insert throws exactly outside 0..length()", threw == (o < 0 || o > (long) s.size()));
    if (threw) ENSURE(holds(b, s)); else insertedAt(b, s, o, &c, 1);
}
CONTRACT(P07, insertSequenceRejects) {
    BUILDER(b, s) std::string t; nvc_text(&t, "t"); int o = nvc_int("offset"), x = nvc_int("start"), y = nvc_int("end");
    nvc_assume(!(0 <= o && o <= (long) s.size() && 0 <= x && x <= y && y <= (long) t.size()));
    String j(t); const CharSequence &c = j;
    bool threw = false;
    try { b.insert(o, c, x, y); } catch (IndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("insert throws for a bad offset or range", threw); ENSURE(holds(b, s));
}
CONTRACT(P07, insertSequence) {
    BUILDER(b, s) std::string t; nvc_text(&t, "t"); int o = nvc_int("offset"), x = nvc_int("start"), l = nvc_int("count");
    nvc_assume(0 <= o && o <= (int) s.size() && 0 <= x && x <= (int) t.size() && 0 <= l && l <= (int) t.size() - x);
    String j(t); const CharSequence &c = j;
    b.insert(o, c, x, x + l);
    insertedAt(b, s, o, t.data() + x, l);
}
#define ARRAY(a) Array<char> a; nvc_chars(&a.original, #a); a.length = (int) a.original.size();
CONTRACT(P07, insertArray) {
    BUILDER(b, s) ARRAY(a) int o = nvc_int("index"), x = nvc_int("offset"), l = nvc_int("length");
    bool threw = false;
    try { b.insert(o, a, x, l); } catch (StringIndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("insert throws exactly for a bad index or range", threw == !(0 <= o && o <= (long) s.size() && 0 <= x && 0 <= l && (long) x + l <= (long) a.length));
    if (threw) ENSURE(holds(b, s)); else insertedAt(b, s, o, a.original.data() + x, l);
}
CONTRACT(P07, appendArray) {
    BUILDER(b, s) ARRAY(a) int x = nvc_int("offset"), l = nvc_int("length");
    bool threw = false;
    try { b.append(a, x, l); } catch (StringIndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("append(array, offset, length) throws exactly for a bad range", threw == !(0 <= x && 0 <= l && (long) x + l <= (long) a.length));
    if (threw) ENSURE(holds(b, s)); else insertedAt(b, s, s.size(), a.original.data() + x, l);
}
CONTRACT(P07, appendWholeArray) {
    BUILDER(b, s) ARRAY(a)
    b.append(a);
    insertedAt(b, s, s.size(), a.original.data(), a.length);
}
static inline void replaced(StringBuilder &b, const std::string &s, long x, long e, const std::string &t) {
    long n = s.size(), m = t.size();
    ENSURE(sized(b, n - (e - x) + m)); ENSURE_MSG("the head stays", at(b, 0, s.data(), x)); ENSURE_MSG("the replacement stands at start", at(b, x, t.data(), m));
    ENSURE_MSG("the tail follows", at(b, x + m, s.data() + e, n - e));
}
CONTRACT(P07, replaceRejects) {
    BUILDER(b, s) std::string t; nvc_text(&t, "t"); int x = nvc_int("start"), y = nvc_int("end");
    nvc_assume(x < 0 || x > (int) s.size() || x > y);
    String j(t);
    bool threw = false;
    try { b.replace(x, y, j); } catch (StringIndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("replace throws for a bad range", threw); ENSURE(holds(b, s));
}
CONTRACT(P07, replace) {
    BUILDER(b, s) std::string t; nvc_text(&t, "t"); int x = nvc_int("start"), l = nvc_int("count");
    nvc_assume(0 <= x && x <= (int) s.size() && 0 <= l && l <= (int) s.size() - x);
    String j(t);
    b.replace(x, x + l, j);
    long n = s.size(), m = t.size();
    ENSURE(sized(b, n - l + m)); ENSURE_MSG("the head stays", at(b, 0, s.data(), x)); ENSURE_MSG("the replacement stands at start", at(b, x, t.data(), m));
}
BOUNDED(P07, replaceTail, 5) {
    BUILDER(b, s) std::string t; nvc_text(&t, "t"); int x = nvc_int("start"), l = nvc_int("count");
    int n = s.size(), m = t.size();
    NVC_BOUND(n, 5); NVC_BOUND(m, 5); nvc_assume(0 <= x && x <= n && 0 <= l && l <= n - x); nvc_cases(n, 0, 6); nvc_cases(m, 0, 6);
    String j(t);
    b.replace(x, x + l, j);
    replaced(b, s, x, x + l, t);
}
CONTRACT(P07, replaceToEnd) {
    BUILDER(b, s) std::string t; nvc_text(&t, "t"); int x = nvc_int("start"), y = nvc_int("end");
    nvc_assume(0 <= x && x <= (int) s.size() && y > (int) s.size());
    String j(t);
    b.replace(x, y, j);
    replaced(b, s, x, s.size(), t);
}
CONTRACT(P07, reverse) {
    BUILDER(b, s)
    long n = s.size();
    b.reverse();
    ENSURE(sized(b, n));
    FORALL(k, 0, n) ENSURE_MSG("reversed", b.original[k] == s[n - 1 - k]);
}
CONTRACT(P07, substring) {
    BUILDER(b, s) int x = nvc_int("start"), y = nvc_int("end");
    long n = s.size();
    bool threw = false; String r;
    try { r = b.substring(x, y); } catch (StringIndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("substring throws exactly for a bad range", threw == !(0 <= x && x <= y && y <= n));
    if (!threw) { ENSURE(r.length() == y - x); ENSURE_MSG("holds start..end-1", nvc_eqrange(r.original.data(), s.data() + x, y - x)); }
    ENSURE(holds(b, s));
}
CONTRACT(P07, substringFrom) {
    BUILDER(b, s) int x = nvc_int("start");
    long n = s.size();
    bool threw = false; String r;
    try { r = b.substring(x); } catch (StringIndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("substring(start) throws exactly outside 0..length()", threw == !(0 <= x && x <= n));
    if (!threw) { ENSURE(r.length() == n - x); ENSURE_MSG("holds the tail", nvc_eqrange(r.original.data(), s.data() + x, n - x)); }
}
CONTRACT(P07, toString) {
    BUILDER(b, s)
    String r = b.toString();
    ENSURE_MSG("toString gives the characters", is(r, s)); ENSURE(holds(b, s));
}
static inline bool occurs(const std::string &s, const std::string &p, long i) { return i >= 0 && i + (long) p.size() <= (long) s.size() && nvc_eqrange(s.data() + i, p.data(), p.size()); }
#ifndef NVC_NO_LEMMAS
// ---- contracts of the helper functions: proved below, used in place of the bodies at every call
#ifndef NVC_NATIVE
SPEC(String, P07, text)(const StringBuilder *b) {
    const char *p = b->original; long n = b->currentLength;
    FORALL(k, 0, n) REQUIRES("toString: no NUL character", p[k] != 0);
    return String(std::string(p, (size_t) n));
}
SPEC(void, P07, grow)(StringBuilder *b, int m) {
    REQUIRES("ensureCapacity: sane capacity", 0 <= b->currentCapacity && b->currentCapacity <= (1 << 30) + 64);
    int c = nvc_any_int();
    nvc_assume(c >= m && c >= b->currentCapacity && (c <= m || c <= 2L * b->currentCapacity + 2));
    b->original = (string) realloc(b->original, (size_t) c); b->currentCapacity = c;
}
SPEC(int, P07, matches)(const StringBuilder *, const String *s, const String *q, int f) {
    const std::string &t = s->original, &p = q->original;
    REQUIRES("stringMatches: a pattern", !p.empty());
    int r = nvc_any_int(); long n = t.size();
    nvc_assume(r >= -1 && r < n && (r == -1 || (r >= f && occurs(t, p, r))));
    ASSUME_FORALL(i, f < 0 ? 0 : f, r < 0 ? n : r, !occurs(t, p, i));
    return r;
}
SPEC(int, P07, matchesReverse)(const StringBuilder *, const String *s, const String *q, int f) {
    const std::string &t = s->original, &p = q->original;
    REQUIRES("stringMatchesReverse: a pattern", !p.empty());
    int r = nvc_any_int(); long n = t.size(), m = p.size(), hi = (f < n ? (long) f + 1 : n) - m;
    nvc_assume(r >= -1 && r < n && (r == -1 || (r <= hi && occurs(t, p, r))));
    ASSUME_FORALL(i, r + 1, hi + 1, !occurs(t, p, i));
    return r;
}
#endif
LEMMA(P07, lemmaText) {
    BUILDER(b, s)
    String r = b.toString();
    ENSURE_MSG("toString gives the characters", is(r, s)); ENSURE(holds(b, s));
}
LEMMA(P07, lemmaGrow) {
    int cap = nvc_int("capacity"), n = nvc_int("length"), m = nvc_int("m"), k = nvc_int("k");
    nvc_assume(0 <= n && n <= cap && cap <= (1 << 30) + 64);
    StringBuilder b(cap); b.currentLength = n; char *p = b.original; char v = nvc_char("v");
    if (0 <= k && k < cap) p[k] = v;
    b.ensureCapacity(m);
    ENSURE_MSG("capacity reaches the minimum", b.currentCapacity >= m && b.currentCapacity >= cap);
    ENSURE_MSG("capacity at most doubles or is the minimum", b.currentCapacity <= m || b.currentCapacity <= 2L * cap + 2);
    ENSURE(sized(b, n)); if (0 <= k && k < cap) ENSURE_MSG("every byte stays", b.original[k] == v);
}
LEMMA(P07, lemmaMatches) {
    std::string s, p; nvc_text(&s, "s"); nvc_text(&p, "p"); nvc_assume(!p.empty()); int f = nvc_int("from");
    nvc_cases(f < 0 ? 0 : f < (long) s.size() ? 1 : 2, 0, 3);
    StringBuilder b; String t(s), q(p);
    int r = b.stringMatches(t, q, f);
    ENSURE(r >= -1 && r < (int) s.size());
    if (r >= 0) ENSURE_MSG("stringMatches finds the pattern at or after the start", occurs(s, p, r) && r >= f);
    FORALL(i, f < 0 ? 0 : f, r < 0 ? (long) s.size() : r) ENSURE_MSG("no earlier occurrence", !occurs(s, p, i));
}
LEMMA(P07, lemmaMatchesReverse) {
    std::string s, p; nvc_text(&s, "s"); nvc_text(&p, "p"); nvc_assume(!p.empty()); int f = nvc_int("from");
    long n = s.size(), m = p.size(), hi = (f < n ? (long) f + 1 : n) - m;     // the last start of an occurrence that ends at or before f
    nvc_cases(f < 0 ? 0 : f < n ? 1 : 2, 0, 3);
    StringBuilder b; String t(s), q(p);
    int r = b.stringMatchesReverse(t, q, f);
    ENSURE(r >= -1 && r < (int) s.size());
    if (r >= 0) ENSURE_MSG("stringMatchesReverse finds the pattern, ending at or before the start", occurs(s, p, r) && r <= hi);
    FORALL(i, r + 1, hi + 1) ENSURE_MSG("no later occurrence", !occurs(s, p, i));
}
#endif
CONTRACT(P07, indexOf) {
    BUILDER(b, s) std::string p; nvc_text(&p, "p"); nvc_assume(!p.empty());
    String q(p);
    int r = b.indexOf(q);
    ENSURE(r >= -1 && r < (int) s.size());
    if (r >= 0) ENSURE_MSG("indexOf finds the substring", occurs(s, p, r));
    FORALL(i, 0, r < 0 ? (long) s.size() : r) ENSURE_MSG("no earlier occurrence", !occurs(s, p, i));
}
CONTRACT(P07, indexOfFrom) {
    BUILDER(b, s) std::string p; nvc_text(&p, "p"); nvc_assume(!p.empty()); int f = nvc_int("from");
    nvc_cases(f < 0 ? 0 : f < (long) s.size() ? 1 : 2, 0, 3);
    String q(p);
    int r = b.indexOf(q, f);
    ENSURE(r >= -1 && r < (int) s.size());
    if (r >= 0) ENSURE_MSG("indexOf finds the substring at or after fromIndex", occurs(s, p, r) && r >= f);
    FORALL(i, f < 0 ? 0 : f, r < 0 ? (long) s.size() : r) ENSURE_MSG("no earlier occurrence", !occurs(s, p, i));
}
CONTRACT(P07, lastIndexOf) {
    BUILDER(b, s) std::string p; nvc_text(&p, "p"); nvc_assume(!p.empty());
    String q(p);
    int r = b.lastIndexOf(q);
    ENSURE(r >= -1 && r < (int) s.size());
    if (r >= 0) ENSURE_MSG("lastIndexOf finds the substring", occurs(s, p, r));
    FORALL(i, r + 1, s.size()) ENSURE_MSG("no later occurrence", !occurs(s, p, i));
}
CONTRACT(P07, lastIndexOfFrom) {
    BUILDER(b, s) std::string p; nvc_text(&p, "p"); nvc_assume(!p.empty()); int f = nvc_int("from");
    long n = s.size(), m = p.size(), hi = (f < n ? (long) f + 1 : n) - m;     // the last start of an occurrence that ends at or before fromIndex
    nvc_cases(f < 0 ? 0 : f < n ? 1 : 2, 0, 3);
    String q(p);
    int r = b.lastIndexOf(q, f);
    ENSURE(r >= -1 && r < (int) s.size());
    if (r >= 0) ENSURE_MSG("lastIndexOf finds the substring, ending at or before fromIndex", occurs(s, p, r) && r <= hi);
    FORALL(i, r + 1, hi + 1) ENSURE_MSG("no later occurrence", !occurs(s, p, i));
}
