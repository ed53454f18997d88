// P01  Math exact and floor arithmetic
#include "../nvc/lib.hpp"

#define EXACT2(name, T, call, expr, LO, HI) CONTRACT(P01, name) { \
    T a = nvc_##T("a"), b = nvc_##T("b"); \
    wide m = (expr); bool fits = m >= LO && m <= HI; bool threw = false; T r = 0; \
    try { r = Math::call(a, b); } catch (ArithmeticException &) { threw = true; } \
    ENSURE_MSG("throws ArithmeticException exactly when the mathematical result does not fit", threw == !fits); \
    ENSURE_MSG("returns the mathematical result", threw || r == m); }
#define EXACT1(name, T, R, call, expr, LO, HI) CONTRACT(P01, name) { \
    T a = nvc_##T("a"); \
    wide m = (expr); bool fits = m >= LO && m <= HI; bool threw = false; R r = 0; \
    try { r = Math::call(a); } catch (ArithmeticException &) { threw = true; } \
    ENSURE_MSG("throws ArithmeticException exactly when the mathematical result does not fit", threw == !fits); \
    ENSURE_MSG("returns the mathematical result", threw || r == m); }

EXACT2(addExact_int, int, addExact, (wide) a + b, INT_MIN, INT_MAX)
EXACT2(addExact_long, long, addExact, (wide) a + b, LONG_MIN, LONG_MAX)
EXACT2(subtractExact_int, int, subtractExact, (wide) a - b, INT_MIN, INT_MAX)
EXACT2(subtractExact_long, long, subtractExact, (wide) a - b, LONG_MIN, LONG_MAX)
EXACT2(multiplyExact_int, int, multiplyExact, (wide) a * b, INT_MIN, INT_MAX)
EXACT2(multiplyExact_long, long, multiplyExact, (wide) a * b, LONG_MIN, LONG_MAX)
EXACT1(incrementExact_int, int, int, incrementExact, (wide) a + 1, INT_MIN, INT_MAX)
EXACT1(incrementExact_long, long, long, incrementExact, (wide) a + 1, LONG_MIN, LONG_MAX)
EXACT1(decrementExact_int, int, int, decrementExact, (wide) a - 1, INT_MIN, INT_MAX)
EXACT1(decrementExact_long, long, long, decrementExact, (wide) a - 1, LONG_MIN, LONG_MAX)
EXACT1(negateExact_int, int, int, negateExact, -(wide) a, INT_MIN, INT_MAX)
EXACT1(negateExact_long, long, long, negateExact, -(wide) a, LONG_MIN, LONG_MAX)
EXACT1(toIntExact, long, int, toIntExact, (wide) a, INT_MIN, INT_MAX)

// floor division: the quotient rounded towards minus infinity, wrapped (MIN / -1 wraps to MIN, as Java specifies)
#define FLOOR(name, T, MIN) CONTRACT(P01, name) { \
    T a = nvc_##T("a"), b = nvc_##T("b"); \
    T d = 0, m = 0; bool t1 = false, t2 = false; \
    try { d = Math::floorDiv(a, b); } catch (ArithmeticException &) { t1 = true; } \
    try { m = Math::floorMod(a, b); } catch (ArithmeticException &) { t2 = true; } \
    ENSURE_MSG("floorDiv throws ArithmeticException exactly when the divisor is zero", t1 == (b == 0)); \
    ENSURE_MSG("floorMod throws ArithmeticException exactly when the divisor is zero", t2 == (b == 0)); \
    nvc_assume(b != 0); \
    if (a == MIN && b == -1) { ENSURE_MSG("floorDiv(MIN,-1) wraps", d == MIN); ENSURE_MSG("floorMod(MIN,-1) is 0", m == 0); return; } \
    T q = a / b, r = (T) (a - q * b); \
    if (r != 0 && (a < 0) != (b < 0)) { q = q - 1; } \
    ENSURE_MSG("floorDiv rounds towards minus infinity", d == q); \
    ENSURE_MSG("floorMod is a - floorDiv(a,b)*b", m == (T) (a - d * b)); }
FLOOR(floor_int, int, INT_MIN)
FLOOR(floor_long, long, LONG_MIN)

#define MINMAX(T) CONTRACT(P01, minmaxabs_##T) { \
    T a = nvc_##T("a"), b = nvc_##T("b"); \
    T x = Math::max(a, b), n = Math::min(a, b); \
    ENSURE_MSG("max is one of its arguments and no smaller than either", (x == a || x == b) && x >= a && x >= b); \
    ENSURE_MSG("min is one of its arguments and no larger than either", (n == a || n == b) && n <= a && n <= b); \
    wide m = a < 0 ? -(wide) a : (wide) a; \
    ENSURE_MSG("abs is the absolute value, wrapped", Math::abs(a) == (T) m); }
MINMAX(int)
MINMAX(long)
