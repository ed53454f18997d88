// P06  String: building new strings
#include "../nvc/lib.hpp"
#include "library/Java/Lang/StringIndexOutOfBoundsException/StringIndexOutOfBoundsException.hpp"

static inline bool at(const String &j, long from, const std::string &e) { return nvc_eqrange(j.original.data() + from, e.data(), (long) e.size()); }
// the array holds exactly these elements
template<class E> static inline bool holds(const Array<E> &a, const std::string &e) { return a.length == (int) e.size() && a.original.size() == e.size() && nvc_eqrange((const char *) a.original.data(), e.data(), (long) e.size()); }

CONTRACT(P06, subString) {
    std::string s; nvc_string(&s, "s"); int b = nvc_int("b"), e = nvc_int("e");
    String j(s);
    String r = j.subString(b, e);
    bool ok = 0 <= b && b <= e && e <= (int) s.size();
    if (ok) {
        ENSURE_MSG("subString has endIndex - beginIndex characters", r.length() == e - b);
        ENSURE_MSG("subString holds the characters from beginIndex on", nvc_eqrange(r.original.data(), s.data() + b, e - b));
    } else ENSURE_MSG("subString with an invalid range is empty", r.length() == 0);
    ENSURE_MSG("the string is unchanged", is(j, s));
}
CONTRACT(P06, subStringFrom) {
    std::string s; nvc_string(&s, "s"); int b = nvc_int("b");
    String j(s);
    String r = j.subString(b);
    bool ok = 0 <= b && b <= (int) s.size();
    if (ok) {
        ENSURE(r.length() == (int) s.size() - b);
        ENSURE_MSG("subString(begin) is the tail from begin", nvc_eqrange(r.original.data(), s.data() + b, (long) s.size() - b));
    } else ENSURE(r.length() == 0);
    ENSURE_MSG("the string is unchanged", is(j, s));
}
CONTRACT(P06, getStringFromIndex) {
    std::string s; nvc_string(&s, "s"); int b = nvc_int("b");
    String j(s), r;
    bool threw = false;
    try { r = j.getStringFromIndex(b); } catch (StringIndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("getStringFromIndex throws exactly outside 0..length()-1", threw == (b < 0 || b >= (int) s.size()));
    if (!threw) {
        ENSURE(r.length() == (int) s.size() - b);
        ENSURE_MSG("getStringFromIndex is the tail", nvc_eqrange(r.original.data(), s.data() + b, (long) s.size() - b));
    }
}
CONTRACT(P06, concat) {
    std::string s, t; nvc_string(&s, "s"); nvc_string(&t, "t");
    String j(s), k(t);
    String r = j.concat(k);
    ENSURE_MSG("concat has the sum of the lengths", r.length() == (int) (s.size() + t.size()));
    ENSURE_MSG("concat starts with this string", at(r, 0, s));
    ENSURE_MSG("concat continues with the argument", at(r, s.size(), t));
    const String cj(s);
    String p = cj + k;
    ENSURE(p.length() == (int) (s.size() + t.size())); ENSURE(at(p, 0, s)); ENSURE(at(p, s.size(), t));
    ENSURE_MSG("operands unchanged", is(j, s) && is(k, t) && is(cj, s));
}
CONTRACT(P06, append) {
    std::string s, t; nvc_string(&s, "s"); nvc_string(&t, "t");
    String j(s), k(t);
    j += k;
    ENSURE(j.length() == (int) (s.size() + t.size()));
    ENSURE_MSG("+= keeps the old characters", at(j, 0, s)); ENSURE_MSG("+= appends the argument", at(j, s.size(), t));
    ENSURE_MSG("operand unchanged", is(k, t));
}
CONTRACT(P06, appendSelf) {
    std::string s; nvc_string(&s, "s");
    String j(s);
    j += j;
    ENSURE(j.length() == (int) (2 * s.size())); ENSURE(at(j, 0, s)); ENSURE(at(j, s.size(), s));
}
CONTRACT(P06, appendChars) {
    std::string s, t; nvc_string(&s, "s"); nvc_text(&t, "t"); char c = nvc_char("c");
    String j(s), k(s);
    j += t.c_str();
    ENSURE(j.length() == (int) (s.size() + t.size())); ENSURE(at(j, 0, s)); ENSURE(at(j, s.size(), t));
    k += c;
    ENSURE(k.length() == (int) s.size() + 1); ENSURE(at(k, 0, s)); ENSURE(k.original[s.size()] == c);
}
CONTRACT(P06, replaceChar) {
    std::string s; nvc_string(&s, "s"); char a = nvc_char("a"), b = nvc_char("b");
    String j(s);
    String r = j.replace(a, b);
    ENSURE_MSG("replace keeps the length", r.length() == (int) s.size());
    FORALL(i, 0, s.size()) ENSURE_MSG("every occurrence is replaced and nothing else", r.original[i] == (s[i] == a ? b : s[i]));
    ENSURE_MSG("the string is unchanged", is(j, s));
}
CONTRACT(P06, trim) {
    std::string s; nvc_string(&s, "s");
    String j(s);
    String r = j.trim();
    long b = 0, e = s.size();
    while (b < e && s[b] == ' ') b++;
    while (e > b && s[e - 1] == ' ') e--;
    ENSURE_MSG("trim drops exactly the spaces at both ends", r.length() == e - b);
    ENSURE_MSG("trim keeps the text between", nvc_eqrange(r.original.data(), s.data() + b, e - b));
    ENSURE_MSG("the string is unchanged", is(j, s));
}
CONTRACT(P06, toCharArray) {
    std::string s; nvc_string(&s, "s");
    String j(s);
    Array<char> a = j.toCharArray();
    ENSURE_MSG("toCharArray holds the characters", holds(a, s));
    ENSURE(is(j, s));
}
CONTRACT(P06, getBytes) {
    std::string s; nvc_string(&s, "s");
    String j(s);
    Array<byte> a = j.getBytes();
    ENSURE_MSG("getBytes holds the bytes", holds(a, s));
    ENSURE(is(j, s));
}
CONTRACT(P06, fromArrays) {
    Array<char> a; nvc_chars(&a.original, "a"); a.length = a.original.size();
    String j(a), k = String::copyValueOf(a), m = String::fromCharArray(a);
    ENSURE(j.length() == a.length && k.length() == a.length && m.length() == a.length);
    ENSURE_MSG("String(Array<char>) holds the characters", nvc_eqrange(j.original.data(), a.original.data(), a.length));
    ENSURE(nvc_eqrange(k.original.data(), a.original.data(), a.length));
    ENSURE(nvc_eqrange(m.original.data(), a.original.data(), a.length));
}
CONTRACT(P06, fromBytes) {
    Array<byte> a; nvc_chars((std::vector<char> *) &a.original, "a"); a.length = a.original.size();
    String j(a);
    ENSURE(j.length() == a.length);
    ENSURE_MSG("String(Array<byte>) holds the bytes", nvc_eqrange(j.original.data(), (const char *) a.original.data(), a.length));
}
CONTRACT(P06, fromArrayRange) {
    Array<char> a; nvc_chars(&a.original, "a"); a.length = a.original.size(); int off = nvc_int("off"), n = nvc_int("n");
    bool bad = off < 0 || n < 0 || (long) off + n > (long) a.length, threw = false, threw2 = false;
    String j("old"), k("old");
    try { j = String(a, off, n); } catch (StringIndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("String(Array, offset, count) throws exactly for a range outside the array", threw == bad);
    try { k = String::copyValueOf(a, off, n); } catch (StringIndexOutOfBoundsException &) { threw2 = true; }
    ENSURE(threw2 == bad);
    if (!bad) {
        ENSURE(j.length() == n && k.length() == n);
        ENSURE_MSG("String(Array, offset, count) holds the range", nvc_eqrange(j.original.data(), a.original.data() + off, n));
        ENSURE(nvc_eqrange(k.original.data(), a.original.data() + off, n));
    }
}
CONTRACT(P06, fromByteRange) {
    Array<byte> a; nvc_chars((std::vector<char> *) &a.original, "a"); a.length = a.original.size(); int off = nvc_int("off"), n = nvc_int("n");
    bool bad = off < 0 || n < 0 || (long) off + n > (long) a.length, threw = false;
    String j("old");
    try { j = String(a, off, n); } catch (StringIndexOutOfBoundsException &) { threw = true; }
    ENSURE(threw == bad);
    if (!bad) {
        ENSURE(j.length() == n);
        ENSURE(nvc_eqrange(j.original.data(), (const char *) a.original.data() + off, n));
    }
}
CONTRACT(P06, fromPointer) {
    std::string s; nvc_text(&s, "s"); int n = nvc_int("n");
    nvc_assume(n >= 0 && n <= (int) s.size());
    String j(s.c_str()), k(s.c_str(), n), e((const char *) nullptr), z;
    ENSURE_MSG("String(char*) holds the text", is(j, s));
    ENSURE(k.length() == n && nvc_eqrange(k.original.data(), s.data(), n));
    ENSURE(e.length() == 0 && z.length() == 0);
}
CONTRACT(P06, getChars) {
    std::string s; nvc_string(&s, "s"); Array<char> d; nvc_chars(&d.original, "d"); d.length = d.original.size();
    std::vector<char> old = d.original;
    int b = nvc_int("b"), e = nvc_int("e"), db = nvc_int("db");
    String j(s);
    bool bad = b < 0 || b > e || e > (int) s.size() || db < 0 || (long) db + ((long) e - b) > (long) d.length, threw = false;
    try { j.getChars(b, e, d, db); } catch (StringIndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("getChars throws exactly for an invalid range", threw == bad);
    ENSURE(d.length == (int) old.size() && d.original.size() == old.size());
    if (bad) ENSURE_MSG("a failed getChars leaves the destination", nvc_eqrange(d.original.data(), old.data(), old.size()));
    else FORALL(i, 0, d.length) ENSURE_MSG("getChars copies the range and leaves the rest of the destination", d.original[i] == (i >= db && i < db + (e - b) ? s[b + (i - db)] : old[i]));
}
CONTRACT(P06, copies) {
    std::string s, t; nvc_string(&s, "s"); nvc_string(&t, "t");
    String j(s), k(j), a(t), c = j.clone(), v = j.toString();
    a = j;
    ENSURE(is(k, s) && is(a, s) && is(c, s) && is(v, s));
    j += String(t);
    ENSURE_MSG("a copy is independent of the original", is(k, s) && is(a, s) && is(c, s) && is(v, s));
    a = a;
    ENSURE_MSG("self-assignment keeps the value", is(a, s));
    std::string back = k.toSTLString();
    ENSURE(back.size() == s.size() && nvc_eqrange(back.data(), s.data(), s.size()));
}
CONTRACT(P06, valueOfNumbers) {
    int i = nvc_int("i"); long l = nvc_long("l"); short h = nvc_short("h");
    ENSURE_MSG("valueOf(int) is the decimal text", is(String::valueOf(i), std::to_string(i)));
    ENSURE_MSG("valueOf(long) is the decimal text", is(String::valueOf(l), std::to_string(l)));
    ENSURE_MSG("valueOf(short) is the decimal text", is(String::valueOf(h), std::to_string((int) h)));
}
CONTRACT(P06, valueOfOther) {
    bool b = nvc_bool("b"); char c = nvc_char("c"); std::string s; nvc_text(&s, "s");
    ENSURE(is(String::valueOf((boolean) b), b ? "true" : "false"));
    String r = String::valueOf(c);
    if (c) ENSURE(r.length() == 1 && r.original[0] == c);
    else ENSURE(r.length() == 0);
    ENSURE_MSG("valueOf(char*) is the text", is(String::valueOf((string) s.c_str()), s));
    ENSURE(String::valueOf((string) nullptr).length() == 0);
}
CONTRACT(P06, contentEquals) {
    std::string s, p; nvc_text(&s, "s"); nvc_text(&p, "p");
    String j(s), q(p);
    ENSURE_MSG("contentEquals exactly for equal characters", j.contentEquals(q) == (s.size() == p.size() && nvc_eqrange(s.data(), p.data(), s.size())));
}
CONTRACT(P06, replaceFirstNone) {
    std::string s, t, r; nvc_text(&s, "s"); nvc_text(&t, "t"); nvc_text(&r, "r");
    nvc_assume(!t.empty() && s.find(t) == std::string::npos);
    String j(s), k(t), m(r);
    ENSURE_MSG("replaceFirst without an occurrence is the string itself", is(j.replaceFirst(k, m), s));
}
CONTRACT(P06, replaceEmpty) {
    std::string s; nvc_text(&s, "s"); char c = nvc_char("c");
    nvc_assume(c != 0);
    String j(s), k, m(std::string(1, c));
    String r = j.replace(k, m);
    ENSURE_MSG("replacing the empty text inserts before every character and at the end", r.length() == 2 * (long) s.size() + 1);
    FORALL(i, 0, s.size()) ENSURE(r.original[2 * i] == c && r.original[2 * i + 1] == s[i]);
    ENSURE(r.original[2 * s.size()] == c);
}
