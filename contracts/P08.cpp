// P08  ArrayList, Vector and Stack: sequences of elements
#include "../nvc/lib.hpp"
#include "library/Java/Util/ArrayList/ArrayList.hpp"
#include "library/Java/Util/Vector/Vector.hpp"
#include "library/Java/Util/Stack/Stack.hpp"
using namespace Java::Util;

typedef std::vector<long> seq;
static inline bool same(const seq &a, const seq &b) { return a.size() == b.size() && nvc_eqrange((const char *) a.data(), (const char *) b.data(), (long) (8 * a.size())); }
static ArrayList<long> list(const seq &s) { ArrayList<long> a; a.original = s; return a; }
static void fill(Vector<long> &v, const seq &s) { v.original = s; }
struct ilist { const long *p; size_t n; };

CONTRACT(P08, listGetSet) {
    seq s; nvc_longs(&s, "s"); int i = nvc_int("i"); long x = nvc_long("x");
    ArrayList<long> a; a.original = s;
    bool bad = i < 0 || i >= (int) s.size(), t1 = false, t2 = false; long g = 0;
    ENSURE_MSG("size is the number of elements", a.size() == (long) s.size()); ENSURE(a.isEmpty() == s.empty());
    try { g = a.get(i); } catch (IndexOutOfBoundsException &) { t1 = true; }
    ENSURE_MSG("get throws exactly outside 0..size()-1", t1 == bad);
    if (!bad) ENSURE_MSG("get returns the element", g == s[i]);
    ENSURE_MSG("get changes nothing", same(a.original, s));
    try { a.set(i, x); } catch (IndexOutOfBoundsException &) { t2 = true; }
    ENSURE_MSG("set throws exactly outside 0..size()-1", t2 == bad);
    ENSURE_MSG("set keeps the size", a.size() == (long) s.size());
    FORALL(k, 0, s.size()) ENSURE_MSG("set changes exactly the element at the index", a.original[k] == (k == i ? x : s[k]));
}
CONTRACT(P08, listAdd) {
    seq s; nvc_longs(&s, "s"); long x = nvc_long("x");
    ArrayList<long> a; a.original = s;
    ENSURE(a.add(x));
    ENSURE_MSG("add appends one element", a.size() == (long) s.size() + 1);
    FORALL(k, 0, s.size()) ENSURE_MSG("add keeps the elements before", a.original[k] == s[k]);
    ENSURE_MSG("add puts the element at the end", a.original[s.size()] == x);
}
CONTRACT(P08, listInsert) {
    seq s; nvc_longs(&s, "s"); int i = nvc_int("i"); long x = nvc_long("x");
    ArrayList<long> a; a.original = s;
    bool bad = i < 0 || i > (int) s.size(), threw = false;
    try { a.add(i, x); } catch (IndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("add(index, e) throws exactly outside 0..size()", threw == bad);
    if (bad) ENSURE_MSG("a failed add changes nothing", same(a.original, s));
    else {
        ENSURE(a.size() == (long) s.size() + 1);
        FORALL(k, 0, s.size() + 1) ENSURE_MSG("add(index, e) inserts at the index and shifts the rest", a.original[k] == (k < i ? s[k] : k == i ? x : s[k - 1]));
    }
}
CONTRACT(P08, listRemove) {
    seq s; nvc_longs(&s, "s"); int i = nvc_int("i");
    ArrayList<long> a; a.original = s;
    bool bad = i < 0 || i >= (int) s.size(), threw = false; long r = 0;
    try { r = a.remove(i); } catch (IndexOutOfBoundsException &) { threw = true; }
    ENSURE_MSG("remove(index) throws exactly outside 0..size()-1", threw == bad);
    if (bad) ENSURE(same(a.original, s));
    else {
        ENSURE_MSG("remove(index) returns the removed element", r == s[i]);
        ENSURE(a.size() == (long) s.size() - 1);
        FORALL(k, 0, s.size() - 1) ENSURE_MSG("remove(index) closes the gap", a.original[k] == (k < i ? s[k] : s[k + 1]));
    }
}
CONTRACT(P08, listSearch) {
    seq s; nvc_longs(&s, "s"); long x = nvc_long("x");
    ArrayList<long> a; a.original = s;
    int f = a.indexOf(x);
    ENSURE(f >= -1 && f < (int) s.size());
    if (f >= 0) ENSURE_MSG("indexOf finds the element", s[f] == x);
    FORALL(k, 0, f < 0 ? (long) s.size() : f) ENSURE_MSG("indexOf finds the first one", s[k] != x);
    ENSURE_MSG("contains exactly when there is an occurrence", a.contains(x) == (f >= 0));
    ENSURE(same(a.original, s));
}
CONTRACT(P08, listLast) {
    seq s; nvc_longs(&s, "s"); long x = nvc_long("x");
    ArrayList<long> a; a.original = s;
    int l = a.lastIndexOf(x);
    ENSURE(l >= -1 && l < (int) s.size());
    if (l >= 0) ENSURE_MSG("lastIndexOf finds the element", s[l] == x);
    FORALL(k, l + 1, s.size()) ENSURE_MSG("lastIndexOf finds the last one", s[k] != x);
    ENSURE(same(a.original, s));
}
CONTRACT(P08, listRemoveElement) {
    seq s; nvc_longs(&s, "s"); long x = nvc_long("x");
    ArrayList<long> a; a.original = s;
    bool r = a.remove((const long &) x);
    if (r) {
        ENSURE(a.size() == (long) s.size() - 1);
        long f = 0;
        while (f < (long) s.size() && s[f] != x) f++;
        ENSURE_MSG("remove(e) removes only a present element", f < (long) s.size());
        FORALL(k, 0, s.size() - 1) ENSURE_MSG("remove(e) removes the first occurrence", a.original[k] == (k < f ? s[k] : s[k + 1]));
    } else {
        ENSURE(same(a.original, s));
        FORALL(k, 0, s.size()) ENSURE_MSG("remove(e) returns false only without an occurrence", s[k] != x);
    }
}
CONTRACT(P08, listCopies) {
    seq s; nvc_longs(&s, "s"); long x = nvc_long("x");
    ArrayList<long> a; a.original = s;
    ArrayList<long> c = a.clone();
    Array<long> r = a.toArray();
    ENSURE_MSG("clone holds the elements", same(c.original, s));
    ENSURE_MSG("toArray holds the elements", r.length == (int) s.size() && same(r.original, s));
    c.add(x);
    ENSURE_MSG("a clone is independent", same(a.original, s));
    a.clear();
    ENSURE_MSG("clear empties the list", a.size() == 0 && a.isEmpty());
    ENSURE(c.size() == (long) s.size() + 1);
}
CONTRACT(P08, listFromArray) {
    Array<long> v; nvc_longs(&v.original, "v"); v.length = v.original.size();
    ArrayList<long> a(v);
    ENSURE_MSG("ArrayList(Array) holds the elements", same(a.original, v.original));
}
CONTRACT(P08, listFromInitializer) {
    seq s; nvc_longs(&s, "s");
    ilist il = { s.data(), s.size() };
    ArrayList<long> a((const std::initializer_list<long> &) il);
    ENSURE_MSG("ArrayList{...} holds the elements", same(a.original, s));
}
// ---- Vector
CONTRACT(P08, vectorGetSet) {
    seq s; nvc_longs(&s, "s"); int i = nvc_int("i"); long x = nvc_long("x");
    Vector<long> a; a.original = s;
    bool bad = i < 0 || i >= (int) s.size(), t1 = false, t2 = false, t3 = false; long g = 0, o = 0;
    ENSURE(a.size() == (int) s.size() && a.isEmpty() == s.empty());
    try { g = a.get(i); } catch (IllegalArgumentException &) { t1 = true; }
    ENSURE_MSG("Vector::get throws exactly outside 0..size()-1", t1 == bad);
    if (!bad) ENSURE(g == s[i] && a.elementAt(i) == s[i] && a[i] == s[i]);
    try { a[i]; } catch (IllegalArgumentException &) { t3 = true; }
    ENSURE(t3 == bad);
    try { o = a.set(i, x); } catch (IllegalArgumentException &) { t2 = true; }
    ENSURE(t2 == bad);
    if (!bad) ENSURE_MSG("Vector::set returns the old element", o == s[i]);
    ENSURE(a.size() == (int) s.size());
    FORALL(k, 0, s.size()) ENSURE_MSG("Vector::set changes exactly the element at the index", a.original[k] == (k == i ? x : s[k]));
}
CONTRACT(P08, vectorEnds) {
    seq s; nvc_longs(&s, "s");
    Vector<long> a; a.original = s;
    bool t1 = false, t2 = false; long f = 0, l = 0;
    try { f = a.firstElement(); } catch (Exception &) { t1 = true; }
    try { l = a.lastElement(); } catch (Exception &) { t2 = true; }
    ENSURE_MSG("firstElement and lastElement throw exactly on an empty vector", t1 == s.empty() && t2 == s.empty());
    if (!s.empty()) ENSURE(f == s[0] && l == s[s.size() - 1]);
    ENSURE(same(a.original, s));
}
CONTRACT(P08, vectorAdd) {
    seq s; nvc_longs(&s, "s"); long x = nvc_long("x");
    Vector<long> a, b; a.original = s; b.original = s;
    ENSURE(a.add(x));
    b.addElement(x);
    ENSURE(a.size() == (int) s.size() + 1 && b.size() == (int) s.size() + 1);
    FORALL(k, 0, s.size()) ENSURE(a.original[k] == s[k] && b.original[k] == s[k]);
    ENSURE(a.original[s.size()] == x && b.original[s.size()] == x);
}
CONTRACT(P08, vectorInsert) {
    seq s; nvc_longs(&s, "s"); int i = nvc_int("i"); long x = nvc_long("x");
    Vector<long> a; a.original = s;
    bool bad = i < 0 || i > (int) s.size(), threw = false;
    try { a.insertElementAt(x, i); } catch (IllegalArgumentException &) { threw = true; }
    ENSURE_MSG("Vector::add(index, e) throws exactly outside 0..size()", threw == bad);
    if (bad) ENSURE(same(a.original, s));
    else {
        ENSURE(a.size() == (int) s.size() + 1);
        FORALL(k, 0, s.size() + 1) ENSURE_MSG("Vector::add(index, e) inserts at the index", a.original[k] == (k < i ? s[k] : k == i ? x : s[k - 1]));
    }
}
CONTRACT(P08, vectorRemove) {
    seq s; nvc_longs(&s, "s"); int i = nvc_int("i");
    Vector<long> a, b; a.original = s; b.original = s;
    bool bad = i < 0 || i >= (int) s.size(), threw = false, t2 = false; long r = 0;
    try { r = a.remove(i); } catch (IllegalArgumentException &) { threw = true; }
    try { b.removeElementAt(i); } catch (IllegalArgumentException &) { t2 = true; }
    ENSURE(threw == bad && t2 == bad);
    if (bad) ENSURE(same(a.original, s) && same(b.original, s));
    else {
        ENSURE(r == s[i]);
        ENSURE(a.size() == (int) s.size() - 1 && b.size() == (int) s.size() - 1);
        FORALL(k, 0, s.size() - 1) ENSURE_MSG("Vector::remove(index) closes the gap", a.original[k] == (k < i ? s[k] : s[k + 1]) && b.original[k] == a.original[k]);
    }
}
CONTRACT(P08, vectorSearch) {
    seq s; nvc_longs(&s, "s"); long x = nvc_long("x");
    Vector<long> a; a.original = s;
    int f = a.indexOf(x);
    ENSURE(f >= -1 && f < (int) s.size());
    if (f >= 0) ENSURE(s[f] == x);
    FORALL(k, 0, f < 0 ? (long) s.size() : f) ENSURE_MSG("Vector::indexOf finds the first one", s[k] != x);
    ENSURE(a.contains(x) == (f >= 0));
}
CONTRACT(P08, vectorSearchFrom) {
    seq s; nvc_longs(&s, "s"); long x = nvc_long("x"); int i = nvc_int("i");
    Vector<long> a; a.original = s;
    bool bad = i < 0 || i >= (int) s.size(), threw = false; int f = -1;
    try { f = a.indexOf(x, i); } catch (IllegalArgumentException &) { threw = true; }
    ENSURE(threw == bad);
    if (!bad) {
        ENSURE(f == -1 || (f >= i && f < (int) s.size()));
        if (f >= 0) ENSURE(s[f] == x);
        FORALL(k, i, f < 0 ? (long) s.size() : f) ENSURE_MSG("Vector::indexOf(e, index) finds the first one from the index on", s[k] != x);
    }
}
CONTRACT(P08, vectorLast) {
    seq s; nvc_longs(&s, "s"); long x = nvc_long("x");
    Vector<long> a; a.original = s;
    int l = a.lastIndexOf(x);
    ENSURE(l >= -1 && l < (int) s.size());
    if (l >= 0) ENSURE(s[l] == x);
    FORALL(k, l + 1, s.size()) ENSURE_MSG("Vector::lastIndexOf finds the last one", s[k] != x);
}
CONTRACT(P08, vectorLastFrom) {
    seq s; nvc_longs(&s, "s"); long x = nvc_long("x"); int i = nvc_int("i");
    Vector<long> a; a.original = s;
    bool bad = i < 0 || i >= (int) s.size(), threw = false; int l = -1;
    try { l = a.lastIndexOf(x, i); } catch (IllegalArgumentException &) { threw = true; }
    ENSURE(threw == bad);
    if (!bad) {
        ENSURE(l >= -1 && l <= i);
        if (l >= 0) ENSURE(s[l] == x);
        FORALL(k, l + 1, i + 1) ENSURE_MSG("Vector::lastIndexOf(e, index) finds the last one up to the index", s[k] != x);
    }
}
CONTRACT(P08, vectorCopies) {
    seq s, t; nvc_longs(&s, "s"); nvc_longs(&t, "t"); long x = nvc_long("x");
    Vector<long> a, b; a.original = s; b.original = t;
    Vector<long> c(a), d = a.clone();
    ENSURE_MSG("a copy holds the elements", same(c.original, s));
    ENSURE_MSG("a clone holds the elements", same(d.original, s));
    c.original.push_back(x); d.clear();
    ENSURE(d.size() == 0 && d.isEmpty());
    ENSURE_MSG("copies are independent", same(a.original, s));
    b = a;
    ENSURE_MSG("assignment copies the elements", same(b.original, s));
}
CONTRACT(P08, vectorArrays) {
    seq s; nvc_longs(&s, "s"); Array<long> r; nvc_longs(&r.original, "r"); r.length = r.original.size();
    seq old = r.original;
    Vector<long> a; a.original = s;
    Array<long> q = a.toArray();
    ENSURE_MSG("Vector::toArray holds the elements", q.length == (int) s.size() && same(q.original, s));
    a.copyInto(r);
    ENSURE(r.length == (int) (old.size() + s.size()));
    FORALL(k, 0, old.size()) ENSURE(r.original[k] == old[k]);
    FORALL(m, 0, s.size()) ENSURE_MSG("copyInto appends the elements", r.original[old.size() + m] == s[m]);
}
CONTRACT(P08, vectorEquals) {
    seq s, t; nvc_longs(&s, "s"); nvc_longs(&t, "t");
    Vector<long> a, b; a.original = s; b.original = t;
    ENSURE_MSG("Vector::equals exactly for equal sequences", a.equals(b) == same(s, t));
}
CONTRACT(P08, vectorSetSize) {
    seq s; nvc_longs(&s, "s"); int n = nvc_int("n");
    nvc_assume(n < (1 << 30));
    Vector<long> a; a.original = s;
    bool threw = false;
    try { a.setSize(n); } catch (IllegalArgumentException &) { threw = true; }
    ENSURE_MSG("setSize throws exactly for a negative size", threw == (n < 0));
    if (n >= 0) {
        ENSURE(a.size() == n);
        FORALL(k, 0, n) ENSURE_MSG("setSize truncates or pads with default elements", a.original[k] == (k < (long) s.size() ? s[k] : 0));
    } else ENSURE(same(a.original, s));
}
CONTRACT(P08, vectorRemoveRange) {
    seq s; nvc_longs(&s, "s"); int b = nvc_int("b"), e = nvc_int("e"); int n = (int) s.size();
    Vector<long> a; a.original = s;
    bool bad = b < 0 || b >= n || e < 0 || e >= n || b > e, threw = false;
    try { a.removeRange(b, e); } catch (IllegalArgumentException &) { threw = true; }
    ENSURE(threw == bad);
    if (bad) ENSURE(same(a.original, s));
    else {
        int d = b == e ? 1 : e - b;
        ENSURE(a.size() == n - d);
        FORALL(k, 0, n - d) ENSURE_MSG("removeRange removes exactly the range", a.original[k] == (k < b ? s[k] : s[k + d]));
    }
}
CONTRACT(P08, vectorFromInitializer) {
    seq s, t; nvc_longs(&s, "s"); nvc_longs(&t, "t");
    ilist il = { s.data(), s.size() };
    Vector<long> a((const std::initializer_list<long> &) il), b;
    ENSURE_MSG("Vector{...} holds the elements", same(a.original, s));
    b.original = t;
    b = (const std::initializer_list<long> &) il;
    ENSURE(same(b.original, s));
}
CONTRACT(P08, vectorAddAll) {
    seq s, t; nvc_longs(&s, "s"); nvc_longs(&t, "t"); int i = nvc_int("i");
    nvc_assume(i >= 0 && i <= (int) s.size());
    ilist il = { t.data(), t.size() };
    Vector<long> a; a.original = s;
    ENSURE(a.addAll(i, (const std::initializer_list<long> &) il) == !t.empty());
    ENSURE(a.size() == (int) (s.size() + t.size()));
    FORALL(k, 0, s.size() + t.size()) ENSURE_MSG("addAll inserts the elements in order at the index", a.original[k] == (k < i ? s[k] : k < i + (long) t.size() ? t[k - i] : s[k - t.size()]));
}
// ---- Stack
CONTRACT(P08, stack) {
    seq s; nvc_longs(&s, "s"); long x = nvc_long("x");
    Stack<long> a; a.original = s;
    ENSURE(a.empty() == s.empty());
    ENSURE_MSG("push returns the element", a.push(x) == x);
    ENSURE(a.size() == (int) s.size() + 1 && !a.empty());
    ENSURE_MSG("peek is the element pushed last", a.peek() == x);
    ENSURE(a.size() == (int) s.size() + 1);
    ENSURE_MSG("pop takes the element pushed last", a.pop() == x);
    ENSURE_MSG("pop undoes push", same(a.original, s));
}
CONTRACT(P08, stackEmpty) {
    seq s; nvc_longs(&s, "s");
    Stack<long> a; a.original = s;
    bool t1 = false, t2 = false; long p = 0, q = 0;
    try { p = a.peek(); } catch (EmptyStackException &) { t1 = true; }
    ENSURE_MSG("peek throws EmptyStackException exactly on an empty stack", t1 == s.empty());
    ENSURE(same(a.original, s));
    try { q = a.pop(); } catch (EmptyStackException &) { t2 = true; }
    ENSURE_MSG("pop throws EmptyStackException exactly on an empty stack", t2 == s.empty());
    if (!s.empty()) {
        ENSURE(p == s[s.size() - 1] && q == p);
        ENSURE(a.size() == (int) s.size() - 1);
        FORALL(k, 0, s.size() - 1) ENSURE(a.original[k] == s[k]);
    }
}
CONTRACT(P08, stackSearch) {
    seq s; nvc_longs(&s, "s"); long x = nvc_long("x");
    Stack<long> a; a.original = s;
    int l = a.search(x);
    ENSURE(l >= -1 && l < (int) s.size());
    if (l >= 0) ENSURE(s[l] == x);
    FORALL(k, l + 1, s.size()) ENSURE_MSG("search finds the occurrence nearest the top", s[k] != x);
}
