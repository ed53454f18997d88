"""Values: python int / bool for constants, z3 bit-vectors / Bools for symbolic ones, Ptr for addresses."""
import z3
import z3.z3 as _zz
from z3 import z3core as _zc

_zz.Z3_DEBUG = False
for _n in ('Z3_get_ast_kind', 'Z3_inc_ref', 'Z3_dec_ref', 'Z3_get_sort', 'Z3_get_ast_id', 'Z3_get_app_num_args', 'Z3_get_app_arg',
           'Z3_get_app_decl', 'Z3_get_decl_kind', 'Z3_get_sort_kind', 'Z3_is_eq_ast', 'Z3_get_bv_sort_size', 'Z3_is_app', 'Z3_to_app',
           'Z3_is_finite_set_sort', 'Z3_is_char_sort', 'Z3_mk_bvadd', 'Z3_mk_eq', 'Z3_mk_bvsub', 'Z3_mk_select', 'Z3_is_numeral_ast'):
    if hasattr(_zc, _n) and True:
        _f = getattr(_zc, _n).__defaults__[0].f
        setattr(_zc, _n, _f)
        if hasattr(_zz, _n):
            setattr(_zz, _n, _f)


class Unsupported(Exception):
    """the verifier cannot represent this construct"""


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Ptr:
    __slots__ = ('b', 'o')

    def __init__(self, b, o=0):
        self.b = b
        self.o = o

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.b, self.o)

    def __eq__(self, other):
        return isinstance(other, Ptr) and self.b == other.b and same(self.o, other.o)

    def __hash__(self):
        return hash(self.b)


NULL = Ptr(0, 0)


class Flt:
    """floating point value carried as its IEEE bit pattern (int or BV)"""
    __slots__ = ('w', 'bits')

    def __init__(self, w, bits):
        self.w = w
        self.bits = bits

    def fp(self):
        s = z3.Float64() if self.w == 64 else z3.Float32()
        return z3.fpBVToFP(bv(self.bits, self.w), s)


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a == b and type(a) == type(b)
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Flt) and isinstance(b, Flt):
        return a.w == b.w and same(a.bits, b.bits)
    return False


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v


def bv(v, w):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(v, z3.BitVecRef):
        if v.size() != w:
            raise Unsupported('width %d vs %d' % (v.size(), w))
        return v
    if isinstance(v, Flt):
        return bv(v.bits, w)
    raise Unsupported('bv of %r' % (v,))


def bl(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.BoolVal(v & 1 == 1)
    if isinstance(v, z3.BitVecRef):
        return z3.Extract(0, 0, v) == 1
    return v


_simp_cache = {}


def simp(e):
    """simplify; fold to python constants"""
    if not is_sym(e):
        return e
    k = e.get_id()
    r = _simp_cache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    s = z3.simplify(e)
    if z3.is_bv_value(s):
        s = s.as_long()
    elif z3.is_true(s):
        s = True
    elif z3.is_false(s):
        s = False
    if len(_simp_cache) > 200000:
        _simp_cache.clear()
    _simp_cache[k] = (e, s)
    return s


def And(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    if len(xs) == 1:
        return xs[0]
    return z3.And([bl(x) for x in xs])


def Or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    if len(xs) == 1:
        return xs[0]
    return z3.Or([bl(x) for x in xs])


def Not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def ite(c, a, b, w=None):
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        return z3.If(c, bl(a), bl(b))
    if w is None:
        if is_sym(a):
            w = a.size()
        elif is_sym(b):
            w = b.size()
        else:
            raise Unsupported('ite width')
    return z3.If(c, bv(a, w), bv(b, w))


def add(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & mask(w)
    if isinstance(a, int) and a & mask(w) == 0:
        return b
    if isinstance(b, int) and b & mask(w) == 0:
        return a
    return lin_norm(bv(a, w) + bv(b, w), w)


def sub(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & mask(w)
    if isinstance(b, int) and b & mask(w) == 0:
        return a
    if same(a, b):
        return 0
    return lin_norm(bv(a, w) - bv(b, w), w)


def mul(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) & mask(w)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, int):
            if x & mask(w) == 0:
                return 0
            if x & mask(w) == 1:
                return y
    x, y = bv(a, w), bv(b, w)
    # a product of sign-extended (zero-extended) factors is computed at the width that holds it exactly
    for kind, ext in ((z3.Z3_OP_SIGN_EXT, sext), (z3.Z3_OP_ZERO_EXT, zext)):
        if x.decl().kind() == kind and y.decl().kind() == kind:
            k = x.arg(0).size() + y.arg(0).size()
            if k < w:
                return ext(mul(ext(x.arg(0), x.arg(0).size(), k), ext(y.arg(0), y.arg(0).size(), k), k), k, w)
    if x.get_id() > y.get_id() and not z3.is_bv_value(x):
        x, y = y, x
    return x * y


def linear(e, w):
    """linear form of a z3 bv term: (const, {id: (term, coef)})"""
    acc = {}
    c = 0
    st = [(e, 1)]
    n = 0
    while st:
        t, k = st.pop()
        n += 1
        if n > 400:
            return None
        if isinstance(t, int):
            c += k * t
            continue
        if z3.is_bv_value(t):
            c += k * t.as_long()
            continue
        d = t.decl().kind()
        if d == z3.Z3_OP_BADD:
            for x in t.children():
                st.append((x, k))
        elif d == z3.Z3_OP_BSUB:
            ch = t.children()
            st.append((ch[0], k))
            for x in ch[1:]:
                st.append((x, -k))
        elif d == z3.Z3_OP_BNEG:
            st.append((t.arg(0), -k))
        elif d == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
            st.append((t.arg(1), k * sgn(t.arg(0).as_long(), w)))
        elif d == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(1)):
            st.append((t.arg(0), k * sgn(t.arg(1).as_long(), w)))
        elif d == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long() < w:
            st.append((t.arg(0), k << t.arg(1).as_long()))
        else:
            i = t.get_id()
            if i in acc:
                acc[i] = (t, acc[i][1] + k)
            else:
                acc[i] = (t, k)
    acc = {i: (t, k) for i, (t, k) in acc.items() if k & mask(w)}
    return c & mask(w), acc


def from_linear(c, acc, w):
    c &= mask(w)
    if not acc:
        return c
    r = None
    for i in sorted(acc):
        t, k = acc[i]
        k &= mask(w)
        x = t if k == 1 else (-t if k == mask(w) else t * z3.BitVecVal(k, w))
        r = x if r is None else r + x
    if c:
        r = r + z3.BitVecVal(c, w)
    return r


def widen(e, memo=None):
    """64-bit reading of an index expression, ignoring wrap-around of its 32-bit parts (a heuristic for instantiation only)"""
    if memo is None:
        memo = {}
    r = memo.get(e.get_id())
    if r is not None:
        return r[1]
    r = _widen(e, memo)
    memo[e.get_id()] = (e, r)
    return r


def _widen(e, memo):
    d = e.decl().kind()
    w = e.size()
    if z3.is_bv_value(e):
        return z3.BitVecVal(sgn(e.as_long(), w), 64)
    u = unzext(e)
    if u is not None and w == 64 and u.num_args() == 0:
        return e
    if d in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT) and w == 64:
        return widen(e.arg(0), memo)
    if d == z3.Z3_OP_EXTRACT and w < 64 and e.params()[1] == 0:
        x = e.arg(0)
        return widen(x, memo) if x.size() == 64 else (widen(x, memo) if x.size() > w else z3.SignExt(64 - w, e))
    if d == z3.Z3_OP_CONCAT and w == 64:
        ch = e.children()
        last = ch[-1]
        if all(z3.is_bv_value(c) and c.as_long() == 0 for c in ch[:-1]):
            return widen(last, memo)
        if all(c.decl().kind() == z3.Z3_OP_EXTRACT and c.size() == 1 for c in ch[:-1]):
            return widen(last, memo)
    if d in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BSUB):
        ch = [widen(c, memo) for c in e.children()]
        r = ch[0]
        for c in ch[1:]:
            r = r + c if d == z3.Z3_OP_BADD else (r * c if d == z3.Z3_OP_BMUL else r - c)
        return r
    if d == z3.Z3_OP_BNEG:
        return -widen(e.arg(0), memo)
    if w == 64:
        return e
    if u is not None:
        return z3.ZeroExt(64 - u.size(), u)
    return z3.SignExt(64 - w, e)


def unzext(e):
    """the term that e zero-extends, or None"""
    k = e.decl().kind()
    if k == z3.Z3_OP_ZERO_EXT:
        return e.arg(0)
    if k == z3.Z3_OP_CONCAT:
        ch = e.children()
        i = 0
        while i < len(ch) - 1 and z3.is_bv_value(ch[i]) and ch[i].as_long() == 0:
            i += 1
        if i and i == len(ch) - 1:
            return ch[i]
    return None


def interval(v, w, depth=0):
    """signed bounds of a value read from its syntax: (lo, hi), or None when unknown"""
    if isinstance(v, int):
        x = sgn(v, w)
        return x, x
    if z3.is_bv_value(v):
        x = sgn(v.as_long(), w)
        return x, x
    k = v.decl().kind()
    u = unzext(v)
    if u is not None:
        r = interval(u, u.size(), depth + 1) if depth < 12 else None
        return r if r and r[0] >= 0 else (0, mask(u.size()))
    if k == z3.Z3_OP_SIGN_EXT:
        n = v.arg(0).size()
        return (interval(v.arg(0), n, depth + 1) if depth < 12 else None) or (-(1 << (n - 1)), (1 << (n - 1)) - 1)
    if depth > 12:
        return None
    if k == z3.Z3_OP_ITE:
        a, b = interval(v.arg(1), w, depth + 1), interval(v.arg(2), w, depth + 1)
        return (min(a[0], b[0]), max(a[1], b[1])) if a and b else None
    if k == z3.Z3_OP_EXTRACT and v.params()[1] == 0:
        r = interval(v.arg(0), v.arg(0).size(), depth + 1)
        return r if r and -(1 << (w - 1)) <= r[0] and r[1] < 1 << (w - 1) else None
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BMUL):
        l = linear(v, w)
        if l is None or (len(l[1]) == 1 and next(iter(l[1].values()))[0].eq(v)):
            return None
        lo = hi = sgn(l[0], w)
        for t, c in l[1].values():
            r = interval(t, w, depth + 1)
            if r is None:
                return None
            c = sgn(c, w)
            lo += min(c * r[0], c * r[1])
            hi += max(c * r[0], c * r[1])
        return (lo, hi) if -(1 << (w - 1)) <= lo and hi < 1 << (w - 1) else None
    return None


def lin_norm(e, w):
    l = linear(e, w)
    if l is None or len(l[1]) > 12:
        return e
    return from_linear(l[0], l[1], w)


def zext(v, a, b):
    if isinstance(v, (bool,)):
        return int(v)
    if isinstance(v, int):
        return v & mask(a)
    if isinstance(v, z3.BoolRef):
        return bv(v, b)
    if a == b:
        return v
    v = bv(v, a)
    r = narrowed(v, a, b)
    if r is not None and 0 <= r[1]:
        return r[0]
    u = unzext(v)
    if u is not None:
        return z3.ZeroExt(b - u.size(), u)
    return z3.ZeroExt(b - a, v)


def narrowed(v, a, b):
    """v (a bits) is a b-bit term cut down without loss, or a sum whose parts are: (that term at b bits, its least value)"""
    k = v.decl().kind()
    if k == z3.Z3_OP_EXTRACT and v.params()[1] == 0 and v.arg(0).size() == b:
        r = interval(v, a)
        return (v.arg(0), r[0]) if r else None
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BMUL):
        r = interval(v, a)
        if r is None:
            return None
        c, acc = linear(v, a)
        d = {}
        for t, co in acc.values():
            x = sext(t, a, b)
            if isinstance(x, int):
                return None
            d[x.get_id()] = (x, sgn(co, a))
        if len(d) != len(acc):
            return None
        x = from_linear(sgn(c, a) & mask(b), d, b)
        return (x, r[0]) if not isinstance(x, int) else None
    if k == z3.Z3_OP_ITE:
        r = interval(v, a)
        if r is not None:
            x, y = sext(v.arg(1), a, b), sext(v.arg(2), a, b)
            return z3.If(v.arg(0), bv(x, b), bv(y, b)), r[0]
    return None


def sext(v, a, b):
    if isinstance(v, bool):
        return mask(b) if v else 0
    if isinstance(v, int):
        return sgn(v, a) & mask(b)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(mask(b), b), z3.BitVecVal(0, b))
    if a == b:
        return v
    v = bv(v, a)
    r = narrowed(v, a, b)
    if r is not None:
        return r[0]
    u = unzext(v)
    if u is not None:
        return z3.ZeroExt(b - u.size(), u)
    return z3.SignExt(b - a, v)


def trunc(v, a, b):
    if isinstance(v, int):
        return bool(v & 1) if b == 1 else v & mask(b)
    if a == b:
        return v
    if b == 1:
        return z3.Extract(0, 0, v) == 1
    # cheap peepholes
    d = v.decl().kind()
    x = v.arg(0) if d == z3.Z3_OP_SIGN_EXT else unzext(v)
    if x is not None:
        if x.size() == b:
            return x
        if x.size() > b:
            return z3.Extract(b - 1, 0, x)
        return z3.SignExt(b - x.size(), x) if d == z3.Z3_OP_SIGN_EXT else z3.ZeroExt(b - x.size(), x)
    return z3.Extract(b - 1, 0, v)


def eq(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a & mask(w)) == (b & mask(w))
    if same(a, b):
        return True
    return bv(a, w) == bv(b, w)


def ne(a, b, w=64):
    return Not(eq(a, b, w))


def ult(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a & mask(w)) < (b & mask(w))
    return z3.ULT(bv(a, w), bv(b, w))


def ule(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a & mask(w)) <= (b & mask(w))
    if same(a, b):
        return True
    return z3.ULE(bv(a, w), bv(b, w))


def slt(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return sgn(a, w) < sgn(b, w)
    return bv(a, w) < bv(b, w)


def sle(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return sgn(a, w) <= sgn(b, w)
    if same(a, b):
        return True
    return bv(a, w) <= bv(b, w)


# ---------------------------------------------------------------- functional arrays
class Arr:
    """total map BV64 -> BV(w).  read(i) with i an int or BV64 term."""
    w = 8

    def __init__(self):
        self._memo = {}

    def read(self, i):
        if isinstance(i, int):
            i &= mask(64)
            k = ('c', i)
        else:
            i = simp(i)
            k = ('c', i & mask(64)) if isinstance(i, int) else ('t', i.get_id())
        r = self._memo.get(k)
        if r is None:
            r = (i, self._read(i))
            self._memo[k] = r
        return r[1]


class ABase(Arr):
    def __init__(self, name, w):
        super().__init__()
        self.w = w
        self.name = name
        self.a = z3.Array(name, z3.BitVecSort(64), z3.BitVecSort(w))

    def _read(self, i):
        return z3.Select(self.a, bv(i, 64))


class AConst(Arr):
    def __init__(self, v, w):
        super().__init__()
        self.v = v
        self.w = w

    def _read(self, i):
        return self.v


class AFun(Arr):
    """arbitrary python function of the index"""
    def __init__(self, f, w):
        super().__init__()
        self.f = f
        self.w = w

    def _read(self, i):
        return self.f(i)


class AOver(Arr):
    """overlay of constant-index writes"""
    def __init__(self, base, d):
        super().__init__()
        self.base = base
        self.d = d
        self.w = base.w

    def _read(self, i):
        if isinstance(i, int):
            if i in self.d:
                return self.d[i]
            return self.base.read(i)
        r = self.base.read(i)
        for k, v in self.d.items():
            r = ite(i == z3.BitVecVal(k, 64), v, r, self.w)
        return r


class AStore(Arr):
    def __init__(self, base, i, v):
        super().__init__()
        self.base = base
        self.i = i
        self.v = v
        self.w = base.w

    def _read(self, i):
        c = simp(eq(i, self.i))
        if c is True:
            return self.v
        if c is False:
            return self.base.read(i)
        # syntactic difference of linear forms
        return ite(c, self.v, self.base.read(i), self.w)


class ACopy(Arr):
    """[d, d+n) comes from src starting at s; the rest from base"""
    def __init__(self, base, d, n, src, s):
        super().__init__()
        self.base, self.d, self.n, self.src, self.s = base, d, n, src, s
        self.w = base.w

    def _read(self, i):
        c = simp(And(ule(self.d, i), ult(sub(i, self.d), self.n)))
        if c is True:
            return self.src.read(add(sub(i, self.d), self.s))
        if c is False:
            return self.base.read(i)
        return ite(c, self.src.read(add(sub(i, self.d), self.s)), self.base.read(i), self.w)


class AIte(Arr):
    def __init__(self, c, a, b):
        super().__init__()
        self.c, self.a, self.b = c, a, b
        self.w = a.w

    def _read(self, i):
        return ite(self.c, self.a.read(i), self.b.read(i), self.w)


def a_store(arr, i, v):
    if is_sym(i):
        i = simp(i)
    if isinstance(i, int):
        i &= mask(64)
        if isinstance(arr, AOver):
            d = dict(arr.d)
            d[i] = v
            return AOver(arr.base, d)
        return AOver(arr, {i: v})
    return AStore(arr, i, v)
