// P03  arithmetic, comparison and text form of the integral wrapper classes
#include "../nvc/lib.hpp"

#define DIV0(T, expr, zero) T r = 0; bool threw = false; try { r = (expr); } catch (ArithmeticException &) { threw = true; } \
    ENSURE_MSG("throws ArithmeticException exactly for a zero divisor", threw == (zero));

#define WRAP(CLS, T, U, val, MIN) \
CONTRACT(P03, CLS##_arith) { \
    T a = nvc_##T("a"), b = nvc_##T("b"); \
    CLS x(a), y(b); \
    ENSURE_MSG("sum", (x + y).val() == (T) ((U) a + (U) b)); \
    ENSURE_MSG("difference", (x - y).val() == (T) ((U) a - (U) b)); \
    ENSURE_MSG("product", (x * y).val() == (T) (U) ((U) a * (U) b)); \
    ENSURE_MSG("operands are unchanged", x.val() == a && y.val() == b); } \
CONTRACT(P03, CLS##_div) { \
    T a = nvc_##T("a"), b = nvc_##T("b"); \
    CLS x(a), y(b); \
    DIV0(T, (x / y).val(), b == 0) \
    if (!threw) ENSURE_MSG("quotient truncated towards zero, wrapped", (a == MIN && b == -1) ? r == MIN : r == (T) (a / b)); } \
CONTRACT(P03, CLS##_rem) { \
    T a = nvc_##T("a"), b = nvc_##T("b"); \
    CLS x(a), y(b); \
    DIV0(T, (x % y).val(), b == 0) \
    if (!threw) ENSURE_MSG("remainder", (a == MIN && b == -1) ? r == 0 : r == (T) (a % b)); } \
CONTRACT(P03, CLS##_compare) { \
    T a = nvc_##T("a"), b = nvc_##T("b"); \
    CLS x(a), y(b); \
    ENSURE((x == y) == (a == b)); ENSURE((x != y) == (a != b)); \
    ENSURE((x < y) == (a < b)); ENSURE((x > y) == (a > b)); \
    ENSURE((x <= y) == (a <= b)); ENSURE((x >= y) == (a >= b)); } \
CONTRACT(P03, CLS##_text) { \
    T a = nvc_##T("a"), b = nvc_##T("b"); \
    CLS x(a), z(x), w, y(b); \
    ENSURE_MSG("a new wrapper holds the value and its decimal text", x.val() == a && is(x.toString(), std::to_string(a))); \
    ENSURE_MSG("a copy holds the value and its decimal text", z.val() == a && is(z.toString(), std::to_string(a))); \
    ENSURE_MSG("a default wrapper holds 0", w.val() == 0 && is(w.toString(), "0")); \
    z = y; w = z; \
    ENSURE_MSG("assignment copies the value and the text", z.val() == b && is(z.toString(), std::to_string(b)) && w.val() == b && is(w.toString(), std::to_string(b))); \
    ENSURE_MSG("the copied-from wrapper is unchanged", x.val() == a && is(x.toString(), std::to_string(a)) && y.val() == b); \
    CLS *p = &z; z = *p; \
    ENSURE_MSG("self-assignment changes nothing", z.val() == b && is(z.toString(), std::to_string(b))); }

WRAP(Integer, int, unsigned, intValue, INT_MIN)
WRAP(Long, long, unsigned long, longValue, LONG_MIN)
WRAP(Short, short, unsigned, shortValue, -32769)

#define COMPOUND(CLS, T, U, val, MIN) \
CONTRACT(P03, CLS##_compound) { \
    T a = nvc_##T("a"), b = nvc_##T("b"); \
    CLS x(a), y(b), z(a), w(a); \
    x += y; z -= y; w *= y; \
    T s = (T) ((U) a + (U) b), d = (T) ((U) a - (U) b), p = (T) ((U) a * (U) b); \
    ENSURE_MSG("+= adds and updates the text", x.val() == s && is(x.toString(), std::to_string(s))); \
    ENSURE_MSG("-= subtracts and updates the text", z.val() == d && is(z.toString(), std::to_string(d))); \
    ENSURE_MSG("*= multiplies and updates the text", w.val() == p && is(w.toString(), std::to_string(p))); } \
CONTRACT(P03, CLS##_compound_div) { \
    T a = nvc_##T("a"), b = nvc_##T("b"); \
    CLS x(a), y(b), z(a); bool t1 = false, t2 = false; \
    try { x /= y; } catch (ArithmeticException &) { t1 = true; } \
    try { z %= y; } catch (ArithmeticException &) { t2 = true; } \
    ENSURE_MSG("/= throws ArithmeticException exactly for a zero divisor", t1 == (b == 0)); \
    ENSURE_MSG("%= throws ArithmeticException exactly for a zero divisor", t2 == (b == 0)); \
    T q = b == 0 ? a : a == MIN && b == -1 ? MIN : a / b, r = b == 0 ? a : b == -1 ? 0 : a % b; \
    ENSURE_MSG("/= divides and updates the text, or leaves the wrapper unchanged", x.val() == q && is(x.toString(), std::to_string(q))); \
    ENSURE_MSG("%= takes the remainder and updates the text, or leaves the wrapper unchanged", z.val() == r && is(z.toString(), std::to_string(r))); }
COMPOUND(Integer, int, unsigned, intValue, INT_MIN)
COMPOUND(Long, long, unsigned long, longValue, LONG_MIN)

CONTRACT(P03, Integer_convert) {
    int a = nvc_int("a"), b = nvc_int("b");
    Integer x(a), y(b);
    ENSURE(x.shortValue() == (short) a); ENSURE(x.longValue() == (long) a); ENSURE(x.byteValue() == (byte) a);
    ENSURE(x.doubleValue() == (double) a); ENSURE(x.floatValue() == (float) a);
    ENSURE(x.compareTo(y) == (a < b ? -1 : a > b ? 1 : 0));
    ENSURE(x.equals(y) == (a == b));
    ENSURE(Integer::valueOf(a).intValue() == a);
}
CONTRACT(P03, Long_convert) {
    long a = nvc_long("a"), b = nvc_long("b");
    Long x(a), y(b);
    ENSURE(x.shortValue() == (short) a); ENSURE(x.intValue() == (int) a);
    ENSURE(x.doubleValue() == (double) a); ENSURE(x.floatValue() == (float) a);
    ENSURE(x.compareTo(y) == (a < b ? -1 : a > b ? 1 : 0));
    ENSURE(x.equals(y) == (a == b));
    ENSURE(Long::valueOf(a).longValue() == a);
    ENSURE_MSG("toString(long) is the decimal text", is(Long::toString(a), std::to_string(a)) && is(Long::toString(b), std::to_string(b)));
}
CONTRACT(P03, Short_convert) {
    short a = nvc_short("a");
    Short x(a);
    ENSURE(x.intValue() == a); ENSURE(x.longValue() == (long) a); ENSURE(x.doubleValue() == (double) a); ENSURE(x.floatValue() == (float) a);
}
CONTRACT(P03, Bytes_arith) {
    byte a = nvc_byte("a"), b = nvc_byte("b");
    Bytes x(a), y(b);
    ENSURE_MSG("sum modulo 256", (x + y).byteValue() == (byte) (a + b));
    ENSURE_MSG("difference modulo 256", (x - y).byteValue() == (byte) (a - b));
    ENSURE_MSG("product modulo 256", (x * y).byteValue() == (byte) (a * b));
    ENSURE((x == y) == (a == b)); ENSURE((x != y) == (a != b));
    ENSURE((x < y) == (a < b)); ENSURE((x > y) == (a > b)); ENSURE((x <= y) == (a <= b)); ENSURE((x >= y) == (a >= b));
    ENSURE(Bytes::compare(a, b) == (int) a - (int) b); ENSURE(x.compareTo(y) == (int) a - (int) b);
    ENSURE(x.intValue() == a); ENSURE(x.longValue() == a); ENSURE(x.shortValue() == a); ENSURE(x.hashCode() == a);
    ENSURE(Bytes::toUnsignedInt(a) == a); ENSURE(Bytes::toUnsignedLong(a) == a);
}
CONTRACT(P03, Bytes_div) {
    byte a = nvc_byte("a"), b = nvc_byte("b");
    Bytes x(a), y(b);
    { DIV0(byte, (x / y).byteValue(), b == 0) if (!threw) ENSURE(r == a / b); }
    { DIV0(byte, (x % y).byteValue(), b == 0) if (!threw) ENSURE(r == a % b); }
}
CONTRACT(P03, Bytes_compound) {
    byte a = nvc_byte("a"), b = nvc_byte("b");
    Bytes x(a), y(b), z(a), w(a), c(x);
    x += y; z -= y; w *= y;
    byte s = a + b, d = a - b, p = a * b;
    ENSURE_MSG("+= adds and updates the text", x.byteValue() == s && is(x.toString(), std::to_string((int) s)));
    ENSURE_MSG("-= subtracts and updates the text", z.byteValue() == d && is(z.toString(), std::to_string((int) d)));
    ENSURE_MSG("*= multiplies and updates the text", w.byteValue() == p && is(w.toString(), std::to_string((int) p)));
    ENSURE_MSG("a copy is independent", c.byteValue() == a && is(c.toString(), std::to_string((int) a)));
    c = y;
    ENSURE_MSG("assignment copies value and text", c.byteValue() == b && is(c.toString(), std::to_string((int) b)));
}
CONTRACT(P03, Boolean_) {
    bool a = nvc_bool("a"), b = nvc_bool("b");
    Boolean x(a), y(b), z(x);
    ENSURE(x.booleanValue() == a); ENSURE(z.booleanValue() == a);
    ENSURE(Boolean::compare(a, b) == (int) a - (int) b); ENSURE(x.compareTo(y) == (int) a - (int) b);
    ENSURE(is(x.toString(), a ? "true" : "false")); ENSURE(is(Boolean::toString(b), b ? "true" : "false"));
    ENSURE(Boolean::valueOf(a).booleanValue() == a);
    z = y; ENSURE(z.booleanValue() == b);
}
