"""Assumed contracts for functions outside the repository: C library, C++ runtime, libstdc++ containers.

Every contract here is part of the trusted base and is listed in the evidence when it was used."""
import re
import z3
from val import *
from exec import QA, Throw, Stop, Unwind, Block
from ir import iw


class Lib:
    def __init__(self):
        self.exact = {}
        self.rx = []
        self.cache = {}
        self.notes = {}

    def reg(self, *names):
        def d(f):
            for n in names:
                self.exact[n] = f
            return f
        return d

    def regx(self, *pats):
        def d(f):
            for p in pats:
                self.rx.append((re.compile(p), f))
            return f
        return d

    def lookup(self, name, dn):
        k = (name, dn)
        if k in self.cache:
            return self.cache[k]
        r = self.exact.get(name) or self.exact.get(dn)
        if r is None:
            for p, f in self.rx:
                m = p.match(dn) or p.match(name)
                if m:
                    r = f
                    if m.groups():
                        def r(ex, st, args, ins, f=f, m=m):
                            return f(ex, st, args, ins, m)
                    break
        self.cache[k] = r
        return r


lib = Lib()
reg, regx = lib.reg, lib.regx


def noop(ex, st, args, ins):
    return None


# ------------------------------------------------------------------ intrinsics
@reg('llvm.memcpy.p0.p0.i64', 'memcpy', 'llvm.memmove.p0.p0.i64', 'memmove')
def _memcpy(ex, st, a, ins):
    ex.memcpy(st, a[0], a[1], a[2])
    return a[0]


@reg('llvm.memset.p0.i64', 'memset')
def _memset(ex, st, a, ins):
    ex.memset(st, a[0], a[1], a[2])
    return a[0]


@regx(r'llvm\.expect\.', r'llvm\.launder')
def _expect(ex, st, a, ins):
    return a[0]


@reg('llvm.trap')
def _trap(ex, st, a, ins):
    return Stop('trap', 'llvm.trap')


@reg('llvm.is.constant.i64', 'llvm.is.constant.i32', 'llvm.is.constant.i1')
def _isc(ex, st, a, ins):
    return False


@regx(r'llvm\.(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)')
def _ovf(ex, st, a, ins, m):
    w = int(m.group(3))
    sg = m.group(1) == 's'
    f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[m.group(2)]
    if isinstance(a[0], int) and isinstance(a[1], int):
        x, y = (sgn(a[0], w), sgn(a[1], w)) if sg else (a[0], a[1])
        r = f(x, y)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, mask(w))
        return (r & mask(w), not lo <= r <= hi)
    ext = (lambda v: z3.SignExt(w, bv(v, w))) if sg else (lambda v: z3.ZeroExt(w, bv(v, w)))
    wide = f(ext(a[0]), ext(a[1]))
    low = z3.Extract(w - 1, 0, wide)
    back = z3.SignExt(w, low) if sg else z3.ZeroExt(w, low)
    if m.group(2) == 'sub' and not sg:
        return (f(bv(a[0], w), bv(a[1], w)), z3.ULT(bv(a[0], w), bv(a[1], w)))
    return (low, wide != back)


def popcount(x, w):
    r = z3.BitVecVal(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
    return r


@regx(r'llvm\.ctpop\.i(\d+)')
def _ctpop(ex, st, a, ins, m):
    w = int(m.group(1))
    if isinstance(a[0], int):
        return bin(a[0]).count('1')
    return popcount(a[0], w)


def clz(x, w):
    r = z3.BitVecVal(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return r


def ctz(x, w):
    r = z3.BitVecVal(w, w)
    for i in reversed(range(w)):
        r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, w), r)
    return r


@regx(r'llvm\.ctlz\.i(\d+)')
def _ctlz(ex, st, a, ins, m):
    w = int(m.group(1))
    if isinstance(a[0], int):
        return w - a[0].bit_length()
    return clz(a[0], w)


@regx(r'llvm\.cttz\.i(\d+)')
def _cttz(ex, st, a, ins, m):
    w = int(m.group(1))
    if isinstance(a[0], int):
        return w if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
    return ctz(a[0], w)


@regx(r'llvm\.bswap\.i(\d+)')
def _bswap(ex, st, a, ins, m):
    w = int(m.group(1))
    if isinstance(a[0], int):
        return int.from_bytes(a[0].to_bytes(w // 8, 'little'), 'big')
    return z3.Concat([z3.Extract(8 * i + 7, 8 * i, a[0]) for i in range(w // 8)])


@regx(r'llvm\.fsh([lr])\.i(\d+)')
def _fsh(ex, st, a, ins, m):
    w = int(m.group(2))
    s = z3.URem(bv(a[2], w), z3.BitVecVal(w, w))
    cc = z3.Concat(bv(a[0], w), bv(a[1], w))
    se = z3.ZeroExt(w, s)
    r = z3.Extract(2 * w - 1, w, cc << se) if m.group(1) == 'l' else z3.Extract(w - 1, 0, z3.LShR(cc, se))
    return simp(r)


@regx(r'llvm\.(s|u)(max|min)\.i(\d+)')
def _mm(ex, st, a, ins, m):
    w = int(m.group(3))
    c = (slt if m.group(1) == 's' else ult)(a[0], a[1], w)
    return ite(c, a[1], a[0], w) if m.group(2) == 'max' else ite(c, a[0], a[1], w)


@regx(r'llvm\.abs\.i(\d+)')
def _abs(ex, st, a, ins, m):
    w = int(m.group(1))
    return ite(slt(a[0], 0, w), sub(0, a[0], w), a[0], w)


@reg('llvm.fabs.f64', 'llvm.fabs.f32', 'fabs', 'fabsf')
def _fabs(ex, st, a, ins):
    v = a[0]
    m = mask(v.w - 1)
    return Flt(v.w, v.bits & m if isinstance(v.bits, int) else simp(v.bits & m))


@reg('llvm.copysign.f64', 'llvm.copysign.f32', 'copysign', 'copysignf')
def _copysign(ex, st, a, ins):
    v, s = a[0], a[1]
    m = mask(v.w - 1)
    return Flt(v.w, simp((bv(v.bits, v.w) & m) | (bv(s.bits, v.w) & (m ^ mask(v.w)))))


@regx(r'llvm\.stacksave', r'llvm\.stackrestore', r'llvm\.dbg', r'llvm\.lifetime', r'llvm\.invariant', r'llvm\.va_end', r'llvm\.prefetch')
def _skip(ex, st, a, ins):
    return NULL


# ------------------------------------------------------------------ C++ runtime
@reg('__cxa_allocate_exception')
def _cae(ex, st, a, ins):
    return Ptr(ex.new_block(st, a[0], 'heap', 0, 'exception'), 0)


@reg('__cxa_free_exception')
def _cfe(ex, st, a, ins):
    return None


@reg('__cxa_throw')
def _cxa_throw(ex, st, a, ins):
    ti = a[1]
    return Throw(ti.b[2] if ti.b[0] in ('g', 'f') else str(ti), a[0])


@reg('__cxa_rethrow')
def _rethrow(ex, st, a, ins):
    if not st.caught:
        return Stop('terminate', 'rethrow')
    return Throw(st.caught[-1][1], st.caught[-1][0])


@reg('__cxa_begin_catch')
def _bc(ex, st, a, ins):
    st.caught.append(st.exc)
    return a[0]


@reg('__cxa_end_catch')
def _ec(ex, st, a, ins):
    if st.caught:
        st.caught.pop()
    return None


@reg('llvm.eh.typeid.for')
def _tid(ex, st, a, ins):
    return ex.tid(a[0].b[2]) if a[0].b != 0 else ex.tid('...')


@reg('__clang_call_terminate', 'std::terminate()', '_ZSt9terminatev', '__cxa_call_unexpected', 'abort', '__cxa_pure_virtual', '__assert_fail')
def _term(ex, st, a, ins):
    return Stop('terminate', ins.get('callee'))


@reg('_Znwm', '_Znam')
def _new(ex, st, a, ins):
    return Ptr(ex.new_block(st, a[0], 'heap', None, 'new'), 0)


@reg('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free')
def _free(ex, st, a, ins):
    p = a[0]
    if p.b == 0:
        return None
    blk = ex.block(st, p.b)
    if ex.o['safety']:
        if blk.freed:
            ex.oblige(st, 'mem', 'double free', False)
        if blk.kind != 'heap':
            ex.oblige(st, 'mem', 'free of non-heap memory', False)
        ex.oblige(st, 'mem', 'free of start of block', eq(p.o, 0))
    st.wr(p.b).freed = True
    return None


@reg('malloc')
def _malloc(ex, st, a, ins):
    ex.assumed_notes.add('memory allocation succeeds')
    return Ptr(ex.new_block(st, a[0], 'heap', None, 'malloc'), 0)


@reg('calloc')
def _calloc(ex, st, a, ins):
    return Ptr(ex.new_block(st, mul(a[0], a[1]), 'heap', 0, 'calloc'), 0)


@reg('realloc')
def _realloc(ex, st, a, ins):
    p = a[0]
    if p.b == 0:
        return Ptr(ex.new_block(st, a[1], 'heap', None, 'realloc'), 0)
    blk = ex.block(st, p.b)
    if blk.freed:
        ex.oblige(st, 'mem', 'realloc of freed memory', False)
    # modelled as resizing in place
    ex.assumed_notes.add('realloc modelled as in-place resize (stale aliases not detected)')
    st.wr(p.b).size = a[1]
    return p


@regx(r'__cxa_guard_acquire')
def _ga(ex, st, a, ins):
    g = ex.load(st, a[0], 'i8')
    return ite(eq(g, 0, 8), 1, 0, 32) if is_sym(g) else (0 if g else 1)


@regx(r'__cxa_guard_release')
def _gr(ex, st, a, ins):
    ex.store(st, a[0], 'i8', 1)
    return None


@regx(r'__cxa_guard_abort', r'__cxa_atexit', r'__dso_handle', r'__cxa_thread_atexit')
def _ce(ex, st, a, ins):
    return 0


@regx(r'std::ios_base::Init::')
def _iosinit(ex, st, a, ins):
    return None


# exceptions of this library: the object's message is not modelled, only its type matters
@regx(r'^Java::(?:\w+::)*(\w*(?:Exception|Error|Throwable))::(~?)(\w*(?:Exception|Error|Throwable))\(')
def _jexc(ex, st, a, ins, m):
    if m.group(1) != m.group(3):
        return None
    return None


@regx(r'^std::(invalid_argument|out_of_range|logic_error|runtime_error|exception|length_error|bad_alloc)::(~?)\1')
def _sexc(ex, st, a, ins, m):
    return None


STDTHROW = {'invalid_argument': '_ZTISt16invalid_argument', 'out_of_range': '_ZTISt12out_of_range',
            'out_of_range_fmt': '_ZTISt12out_of_range', 'length_error': '_ZTISt12length_error',
            'logic_error': '_ZTISt11logic_error', 'bad_alloc': '_ZTISt9bad_alloc', 'runtime_error': '_ZTISt13runtime_error'}


@regx(r'^std::__throw_(\w+)\(')
def _stdthrow(ex, st, a, ins, m):
    n = m.group(1)
    if n in STDTHROW:
        return Throw(STDTHROW[n])
    return Stop('terminate', n)


# ------------------------------------------------------------------ ctype
def _ctype(f):
    def h(ex, st, a, ins):
        c = a[0]
        if isinstance(c, int):
            return int(bool(f(c)))
        return simp(z3.If(f(c), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
    return h


def rng(c, lo, hi):
    if isinstance(c, int):
        return ord(lo) <= c <= ord(hi)
    return z3.And(c >= ord(lo), c <= ord(hi))


def _or(*xs):
    return Or(*xs)


lib.exact['isdigit'] = _ctype(lambda c: rng(c, '0', '9'))
lib.exact['isupper'] = _ctype(lambda c: rng(c, 'A', 'Z'))
lib.exact['islower'] = _ctype(lambda c: rng(c, 'a', 'z'))
lib.exact['isalpha'] = _ctype(lambda c: _or(rng(c, 'A', 'Z'), rng(c, 'a', 'z')))
lib.exact['isalnum'] = _ctype(lambda c: _or(rng(c, '0', '9'), rng(c, 'A', 'Z'), rng(c, 'a', 'z')))
lib.exact['isxdigit'] = _ctype(lambda c: _or(rng(c, '0', '9'), rng(c, 'A', 'F'), rng(c, 'a', 'f')))
lib.exact['isspace'] = _ctype(lambda c: _or(eq(c, 32, 32), rng(c, '\t', '\r')))


@reg('tolower')
def _tolower(ex, st, a, ins):
    c = a[0]
    return ite(rng(c, 'A', 'Z'), add(c, 32, 32), c, 32)


@reg('toupper')
def _toupper(ex, st, a, ins):
    c = a[0]
    return ite(rng(c, 'a', 'z'), sub(c, 32, 32), c, 32)


@reg('abs')
def _iabs(ex, st, a, ins):
    return ite(slt(a[0], 0, 32), sub(0, a[0], 32), a[0], 32)


@reg('labs')
def _ilabs(ex, st, a, ins):
    return ite(slt(a[0], 0, 64), sub(0, a[0], 64), a[0], 64)


@reg('__errno_location')
def _errno(ex, st, a, ins):
    b = ('errno',)
    if b not in st.mem:
        st.mem[b] = Block(4, 'global', 0, 'errno')
    return Ptr(b, 0)


# ------------------------------------------------------------------ C strings
def cstr(ex, st, p):
    """(arr, start, len) of the NUL-terminated string at p"""
    blk = ex.check_access(st, p, 1, 'C string read')
    if blk is None:
        return AConst(0, 8), 0, 0
    blk = ex.to_arr(st, p.b, 1)
    if blk.arr.w != 8:
        raise Unsupported('C string in non-byte block')
    arr = blk.arr
    o = p.o
    if isinstance(o, int):
        n = 0
        lim = sgn(blk.size, 64) - o if isinstance(blk.size, int) else 4096
        while n < lim:
            c = arr.read(o + n)
            c = simp(c) if is_sym(c) else c
            if not isinstance(c, int):
                break
            if c == 0:
                return arr, o, n
            n += 1
    if isinstance(arr, AView) and isinstance(arr.arr, ABase) and isinstance(o, int) and o == 0:
        t = st.ghost.get(('nonzero', arr.arr.name))
        if t is not None and same(t[1], arr.n):
            return arr, o, arr.n
    key = ('strlen', id(arr), o if isinstance(o, int) else o.get_id())
    hit = st.ghost.get(key)
    if hit is not None:
        return arr, o, hit[1]
    n = z3.ZeroExt(32, ex.fresh('strlen', 32))
    if blk.size is not None:
        # a terminator exists inside the block: the last byte of every string buffer modelled here is NUL
        ex.oblige(st, 'mem', 'C string is terminated inside its block', eq(arr.read(sub(blk.size, 1)), 0, 8))
        st.assume(ult(n, sub(blk.size, o)))
    st.assume(ult(n, 1 << 32))
    st.assume(eq(arr.read(add(o, n)), 0, 8))
    st.assume(QA(o, add(o, n), lambda i, arr=arr: ne(arr.read(i), 0, 8), True, 'strlen'))
    st.ghost[key] = Memo(arr, n)
    return arr, o, n


class Memo(tuple):
    def __new__(cls, *a):
        return tuple.__new__(cls, a)


@reg('strlen')
def _strlen(ex, st, a, ins):
    return cstr(ex, st, a[0])[2]


@reg('strdup')
def _strdup(ex, st, a, ins):
    arr, o, n = cstr(ex, st, a[0])
    b = ex.new_block(st, add(n, 1), 'heap', None, 'strdup', 1)
    nb = st.wr(b)
    nb.arr = ACopy(AConst(0, 8), 0, n, arr, o) if not (o == 0 and isinstance(o, int)) else a_store(AView(arr, n), n, 0)
    return Ptr(b, 0)


class AView(Arr):
    """arr on [0,n), 0 elsewhere"""
    def __init__(self, arr, n):
        super().__init__()
        self.arr, self.n, self.w = arr, n, arr.w

    def _read(self, i):
        c = simp(ult(i, self.n))
        if c is True:
            return self.arr.read(i)
        if c is False:
            return 0
        return ite(c, self.arr.read(i), 0, self.w)


class ASlice(Arr):
    """i -> src[s + i]"""
    def __init__(self, src, s):
        super().__init__()
        self.src, self.s, self.w = src, s, src.w

    def _read(self, i):
        return self.src.read(add(i, self.s))


def sign_result(ex, st, a, b):
    """int result whose sign is that of unsigned byte a - b"""
    r = ex.fresh('cmp', 32)
    st.assume(Implies(ult(a, b, 8), slt(r, 0, 32)))
    st.assume(Implies(ult(b, a, 8), slt(0, r, 32)))
    st.assume(Implies(eq(a, b, 8), eq(r, 0, 32)))
    return r


@reg('strcmp')
def _strcmp(ex, st, a, ins):
    A, ao, an = cstr(ex, st, a[0])
    B, bo, bn = cstr(ex, st, a[1])
    p = ex.fresh('diffpos', 64)
    st.assume(And(ule(p, an), ule(p, bn)))
    x, y = A.read(add(ao, p)), B.read(add(bo, p))
    st.assume(QA(0, p, lambda i: eq(A.read(add(ao, i)), B.read(add(bo, i)), 8), True, 'strcmp-prefix'))
    st.assume(Or(ne(x, y, 8), And(eq(p, an), eq(p, bn))))
    return sign_result(ex, st, x, y)


# ------------------------------------------------------------------ std::string
SS = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
MAXLEN = 0x7fffffff


def s_init(ex, st, S, arr, n):
    """construct a std::string at S"""
    b = ex.new_block(st, add(n, 1), 'heap', None, 'string', 1)
    st.mem[b].arr = arr
    st.mem[b].es = 1
    nb = st.wr(S.b)
    o = S.o & mask(64)
    ex.clear_range(st, S.b, nb, o, 32)
    nb.cells[o] = (8, Ptr(b, 0))
    nb.cells[o + 8] = (8, n)
    return b


def s_get(ex, st, S):
    if not isinstance(S, Ptr) or S.b == 0:
        raise Unsupported('string method on null')
    blk = ex.block(st, S.b)
    if not isinstance(S.o, int):
        raise Unsupported('string object at symbolic offset')
    c = blk.cells.get(S.o & mask(64))
    if c is None or not isinstance(c[1], Ptr):
        raise Unsupported('uninitialised std::string')
    n = blk.cells[(S.o & mask(64)) + 8][1]
    sb = ex.to_arr(st, c[1].b, 1)
    return sb.arr, n, c[1].b


def s_set(ex, st, S, arr, n):
    blk = ex.block(st, S.b)
    c = blk.cells.get(S.o & mask(64))
    b = c[1].b
    sb = st.wr(b)
    sb.arr = arr
    sb.cells = {}
    sb.size = add(n, 1)
    nb = st.wr(S.b)
    nb.cells[(S.o & mask(64)) + 8] = (8, n)


def term(arr, n):
    """normalise: byte n is the terminator"""
    return a_store(arr, n, 0)


def a_slice(arr, s, n):
    """arr[s..s+n) moved to 0, terminated"""
    if isinstance(s, int) and isinstance(n, int) and n <= 256:
        return AOver(AConst(0, 8), {**{i: arr.read(s + i) for i in range(n)}})
    if isinstance(s, int) and s == 0:
        return AView(arr, n)
    return AView(ASlice(arr, s), n)


def a_concat(A, n, B, bo, m):
    """A[0..n) ++ B[bo..bo+m)"""
    if isinstance(n, int) and isinstance(m, int) and n + m <= 256:
        d = {i: A.read(i) for i in range(n)}
        d.update({n + i: B.read(add(bo, i)) for i in range(m)})
        return AOver(AConst(0, 8), d)
    if isinstance(m, int) and m <= 8:
        r = A
        for j in range(m):
            r = a_store(r, add(n, j), B.read(add(bo, j)))
        return a_store(r, add(n, m), 0)
    return AView(ACopy(A, n, m, B, bo), add(n, m))


@regx(SS + r'::basic_string\(\)$', SS + r'::basic_string\(std::allocator<char> const&\)$')
def _s0(ex, st, a, ins):
    s_init(ex, st, a[0], AConst(0, 8), 0)


@regx(SS + r'::basic_string\(' + SS + r' const&\)$', SS + r'::basic_string\(' + SS + r'&&\)$')
def _scopy(ex, st, a, ins):
    arr, n, b = s_get(ex, st, a[1])
    s_init(ex, st, a[0], arr, n)


@regx(SS + r'::basic_string(<[^()]*>)?\(char const\*, std::allocator<char> const&\)$')
def _scstr(ex, st, a, ins, m):
    if a[1].b == 0:
        return Throw('_ZTISt11logic_error')
    arr, o, n = cstr(ex, st, a[1])
    s_init(ex, st, a[0], a_slice(arr, o, n), n)


@regx(SS + r'::basic_string<(?:char\*|char const\*)(?:, void)?>\(char (?:const)?\*, char (?:const)?\*, std::allocator<char> const&\)$',
      SS + r'::basic_string<char(?: const)?\*, void>\(char(?: const)?\*, char(?: const)?\*, std::allocator<char> const&\)$')
def _srange(ex, st, a, ins):
    p, q = a[1], a[2]
    if p.b != q.b:
        raise Unsupported('range constructor of unrelated pointers')
    n = sub(q.o, p.o)
    if p.b == 0:
        s_init(ex, st, a[0], AConst(0, 8), 0)
        return None
    blk = ex.check_access(st, p, 0, 'string range')
    if ex.feasible(st.pc, slt(n, 0)):
        # libstdc++ throws length_error for a negative range
        s2 = st.copy()
        s2.assume(slt(n, 0))
        st.assume(sle(0, n))
        outs = [(s2, Throw('_ZTISt12length_error'))]
    else:
        outs = []
    ex.oblige(st, 'mem', 'string range in bounds', Or(eq(n, 0), And(ule(p.o, blk.size), ule(n, sub(blk.size, p.o)))) if blk.size is not None else True)
    blk = ex.to_arr(st, p.b, 1)
    s_init(ex, st, a[0], a_slice(blk.arr, p.o, n), n)
    return outs + [(st, None)] if outs else None


@regx(SS + r'::basic_string\(char const\*, unsigned long, std::allocator<char> const&\)$')
def _sptrn(ex, st, a, ins):
    p, n = a[1], a[2]
    blk = ex.check_access(st, p, 0, 'string(ptr,n)')
    ex.oblige(st, 'mem', 'string(ptr,n) in bounds', Or(eq(n, 0), And(ule(p.o, blk.size), ule(n, sub(blk.size, p.o)))) if blk.size is not None else True)
    blk = ex.to_arr(st, p.b, 1)
    s_init(ex, st, a[0], a_slice(blk.arr, p.o, n), n)


@regx(SS + r'::basic_string\(unsigned long, char, std::allocator<char> const&\)$')
def _sfill(ex, st, a, ins):
    s_init(ex, st, a[0], AView(AConst(a[2], 8), a[1]), a[1])


@regx(SS + r'::~basic_string\(\)$', r'std::allocator<char>::~?allocator\(', r'std::__new_allocator<\w+>::~?__new_allocator')
def _sdtor(ex, st, a, ins):
    return None


@regx(SS + r'::(size|length)\(\) const$')
def _ssize(ex, st, a, ins, m):
    return s_get(ex, st, a[0])[1]


@regx(SS + r'::empty\(\) const$')
def _sempty(ex, st, a, ins):
    return eq(s_get(ex, st, a[0])[1], 0)


@regx(SS + r'::(c_str|data)\(\)( const)?$', SS + r'::(begin|cbegin)\(\)( const)?$')
def _sdata(ex, st, a, ins, m):
    arr, n, b = s_get(ex, st, a[0])
    return Ptr(b, 0)


@regx(SS + r'::(end|cend)\(\)( const)?$')
def _send(ex, st, a, ins, m):
    arr, n, b = s_get(ex, st, a[0])
    return Ptr(b, n)


@regx(SS + r'::operator\[\]\(unsigned long\)( const)?$')
def _sidx(ex, st, a, ins, m):
    arr, n, b = s_get(ex, st, a[0])
    ex.oblige(st, 'mem', 'string index within [0,size]', ule(a[1], n))
    return Ptr(b, a[1])


@regx(SS + r'::at\(unsigned long\)( const)?$')
def _sat(ex, st, a, ins, m):
    arr, n, b = s_get(ex, st, a[0])
    return branch(ex, st, ult(a[1], n), Ptr(b, a[1]), Throw('_ZTISt12out_of_range'))


def branch(ex, st, c, v1, v2):
    """v1 when c, v2 otherwise"""
    c = simp(c) if is_sym(c) else c
    if c is True:
        return [(st, v1)]
    if c is False:
        return [(st, v2)]
    t, e = ex.feasible(st.pc, c), ex.feasible(st.pc, Not(c))
    if t and e:
        s2 = st.copy()
        s2.assume(Not(c))
        st.assume(c)
        return [(st, v1), (s2, v2)]
    return [(st, v1 if t else v2)]


@regx(SS + r'::(front|back)\(\)( const)?$')
def _sfront(ex, st, a, ins, m):
    arr, n, b = s_get(ex, st, a[0])
    ex.oblige(st, 'mem', 'front/back of non-empty string', ne(n, 0))
    return Ptr(b, 0 if m.group(1) == 'front' else sub(n, 1))


@regx(SS + r'::(clear)\(\)$')
def _sclear(ex, st, a, ins, m):
    s_set(ex, st, a[0], AConst(0, 8), 0)


@regx(SS + r'::(shrink_to_fit|reserve)\(')
def _snop(ex, st, a, ins, m):
    return None


@regx(SS + r'::capacity\(\) const$')
def _scap(ex, st, a, ins):
    arr, n, b = s_get(ex, st, a[0])
    c = ex.fresh('cap', 64)
    st.assume(ule(n, c))
    return c


@regx(SS + r'::(push_back)\(char\)$', SS + r'::(operator\+=)\(char\)$')
def _spush(ex, st, a, ins, m):
    arr, n, b = s_get(ex, st, a[0])
    s_set(ex, st, a[0], a_store(a_store(arr, n, a[1]), add(n, 1), 0), add(n, 1))
    return a[0]


@regx(SS + r'::pop_back\(\)$')
def _spop(ex, st, a, ins):
    arr, n, b = s_get(ex, st, a[0])
    ex.oblige(st, 'mem', 'pop_back of non-empty string', ne(n, 0))
    s_set(ex, st, a[0], a_store(arr, sub(n, 1), 0), sub(n, 1))


@regx(SS + r'::(append|operator\+=)\(' + SS + r' const&\)$')
def _sapp(ex, st, a, ins, m):
    A, n, b = s_get(ex, st, a[0])
    B, k, _ = s_get(ex, st, a[1])
    s_set(ex, st, a[0], a_concat(A, n, B, 0, k), add(n, k))
    return a[0]


@regx(SS + r'::(append|operator\+=)\(char const\*\)$')
def _sappc(ex, st, a, ins, m):
    A, n, b = s_get(ex, st, a[0])
    B, o, k = cstr(ex, st, a[1])
    s_set(ex, st, a[0], a_concat(A, n, B, o, k), add(n, k))
    return a[0]


@regx(SS + r'::append\(char const\*, unsigned long\)$')
def _sappn(ex, st, a, ins):
    A, n, b = s_get(ex, st, a[0])
    blk = ex.check_access(st, a[1], 0, 'append(ptr,n)')
    k = a[2]
    if blk.size is not None:
        ex.oblige(st, 'mem', 'append(ptr,n) in bounds', Or(eq(k, 0), And(ule(a[1].o, blk.size), ule(k, sub(blk.size, a[1].o)))))
    blk = ex.to_arr(st, a[1].b, 1)
    s_set(ex, st, a[0], a_concat(A, n, blk.arr, a[1].o, k), add(n, k))
    return a[0]


@regx(SS + r'::append\(unsigned long, char\)$')
def _sappf(ex, st, a, ins):
    A, n, b = s_get(ex, st, a[0])
    s_set(ex, st, a[0], a_concat(A, n, AConst(a[2], 8), 0, a[1]), add(n, a[1]))
    return a[0]


@regx(SS + r'::(operator=|assign)\(' + SS + r'( const&|&&)\)$')
def _sassign(ex, st, a, ins, m):
    arr, n, b = s_get(ex, st, a[1])
    s_set(ex, st, a[0], arr, n)
    return a[0]


@regx(SS + r'::(operator=|assign)\(char const\*\)$')
def _sassignc(ex, st, a, ins, m):
    arr, o, n = cstr(ex, st, a[1])
    s_set(ex, st, a[0], a_slice(arr, o, n), n)
    return a[0]


@regx(SS + r'::substr\(unsigned long, unsigned long\) const$')
def _ssubstr(ex, st, a, ins):
    # sret, this, pos, n
    arr, n, b = s_get(ex, st, a[1])
    pos, cnt = a[2], a[3]
    out = []
    for s, v in branch(ex, st, ule(pos, n), True, False):
        if not v:
            out.append((s, Throw('_ZTISt12out_of_range')))
            continue
        rest = sub(n, pos)
        k = simp(ite(ult(cnt, rest), cnt, rest, 64))
        if is_sym(k):
            # resolve the min where the path condition decides it
            if not ex.feasible(s.pc, ult(rest, cnt)):
                k = cnt
            elif not ex.feasible(s.pc, ult(cnt, rest)):
                k = rest
        s_init(ex, s, a[0], a_slice(arr, pos, k), k)
        out.append((s, None))
    return out


def str_eq(ex, st, A, ao, an, B, bo, bn):
    """Bool that is true iff the two byte sequences are equal"""
    if isinstance(an, int) and isinstance(bn, int):
        if an != bn:
            return False
        if an <= 64:
            return simp(And(*[eq(A.read(add(ao, i)), B.read(add(bo, i)), 8) for i in range(an)])) if an else True
    for x, y in ((an, bn), (bn, an)):
        if isinstance(x, int) and x <= 16:
            return And(eq(an, bn), *[eq(A.read(add(ao, i)), B.read(add(bo, i)), 8) for i in range(x)])
    r = ex.fresh_bool('streq')
    w = ex.fresh('neqpos', 64)
    st.assume(Implies(r, eq(an, bn)))
    st.assume(QA(0, an, lambda i: eq(A.read(add(ao, i)), B.read(add(bo, i)), 8), r, 'streq'))
    st.assume(Implies(Not(r), Or(ne(an, bn), And(ult(w, an), ne(A.read(add(ao, w)), B.read(add(bo, w)), 8)))))
    return r


@regx(r'(bool )?std::operator==<char[^(]*\(' + SS + r' const&, ' + SS + r' const&\)$',
      r'__gnu_cxx::__enable_if<[^(]*std::operator==<char>\(' + SS + r' const&, ' + SS + r' const&\)$')
def _seq(ex, st, a, ins, m=None):
    A, n, _ = s_get(ex, st, a[0])
    B, k, _ = s_get(ex, st, a[1])
    return str_eq(ex, st, A, 0, n, B, 0, k)


@regx(r'(bool )?std::operator!=<char[^(]*\(' + SS + r' const&, ' + SS + r' const&\)$')
def _sne(ex, st, a, ins, m=None):
    return Not(_seq(ex, st, a, ins))


@regx(r'(bool )?std::operator==<char[^(]*\(' + SS + r' const&, char const\*\)$')
def _seqc(ex, st, a, ins, m):
    A, n, _ = s_get(ex, st, a[0])
    B, o, k = cstr(ex, st, a[1])
    return str_eq(ex, st, A, 0, n, B, o, k)


@regx(r'(bool )?std::operator!=<char[^(]*\(' + SS + r' const&, char const\*\)$')
def _snec(ex, st, a, ins, m):
    return Not(_seqc(ex, st, a, ins, m))


@regx(SS + r' std::operator\+<char[^(]*\(' + SS + r' ?(?:const&|&&), ' + SS + r' ?(?:const&|&&)\)$')
def _splus(ex, st, a, ins):
    A, n, _ = s_get(ex, st, a[1])
    B, k, _ = s_get(ex, st, a[2])
    s_init(ex, st, a[0], a_concat(A, n, B, 0, k), add(n, k))


@regx(SS + r' std::operator\+<char[^(]*\(' + SS + r' ?(?:const&|&&), char const\*\)$')
def _splusc(ex, st, a, ins):
    A, n, _ = s_get(ex, st, a[1])
    B, o, k = cstr(ex, st, a[2])
    s_init(ex, st, a[0], a_concat(A, n, B, o, k), add(n, k))


@regx(SS + r' std::operator\+<char[^(]*\(char const\*, ' + SS + r' ?(?:const&|&&)\)$')
def _splusc2(ex, st, a, ins):
    A, o, n = cstr(ex, st, a[1])
    B, k, _ = s_get(ex, st, a[2])
    s_init(ex, st, a[0], a_concat(a_slice(A, o, n), n, B, 0, k), add(n, k))


@regx(SS + r' std::operator\+<char[^(]*\(' + SS + r' ?(?:const&|&&), char\)$')
def _splusch(ex, st, a, ins):
    A, n, _ = s_get(ex, st, a[1])
    s_init(ex, st, a[0], a_concat(A, n, AConst(a[2], 8), 0, 1), add(n, 1))


def peel(arr, off):
    """strip views: (base array, offset).  Only for ranges known to lie inside the views."""
    while True:
        if isinstance(arr, AView):
            arr = arr.arr
        elif isinstance(arr, ASlice):
            off = add(off, arr.s)
            arr = arr.src
        else:
            return arr, off


def akey(arr):
    if isinstance(arr, ABase):
        return 'b:' + arr.name
    return 'o:%d' % id(arr)


def ex_pos(ex, n):
    """a fresh position that can reach n"""
    r = interval(n, 64)
    if r and r[0] >= 0 and r[1] < 1 << 62:
        w = max(r[1].bit_length(), 1)
        return z3.ZeroExt(64 - w, ex.fresh('pos', w))
    return ex.fresh('pos', 64)


class ARev(Arr):
    """i -> src[n - 1 - i]"""
    def __init__(self, src, n):
        super().__init__()
        self.src, self.n, self.w = src, n, src.w

    def _read(self, i):
        return self.src.read(sub(sub(self.n, 1), i))


def eqrange(ex, st, A, ao, B, bo, n):
    """A[ao..ao+n) == B[bo..bo+n) as a Bool whose definition is instantiated on demand by the prover"""
    if isinstance(n, int) and n <= 16:
        return And(*[eq(A.read(add(ao, j)), B.read(add(bo, j)), A.w) for j in range(n)])
    A, ao = peel(A, ao)
    B, bo = peel(B, bo)
    while isinstance(A, ARev) and isinstance(B, ARev):
        ao, bo = sub(sub(A.n, ao), n), sub(sub(B.n, bo), n)
        A, ao = peel(A.src, ao)
        B, bo = peel(B.src, bo)
    if A is B and same(simp(ao), simp(bo)):
        return True
    k = (akey(A), akey(B))
    d = ex.eqdefs.get(k)
    if d is None:
        S = z3.BitVecSort(64)
        i = len(ex.eqdefs)
        d = ex.eqdefs[k] = (z3.Function('EQ!%d' % i, S, S, S, z3.BoolSort()), z3.Function('NEQAT!%d' % i, S, S, S, S), A, B)
        ex.eqbyname['EQ!%d' % i] = d
    return d[0](bv(ao, 64), bv(bo, 64), bv(n, 64))


def tkey(ex, x):
    x = simp(x) if is_sym(x) else x
    if is_sym(x):
        ex.findkeep.append(x)
        return ('t', x.get_id())
    return x


def first_match(ex, st, A, n, B, bo, m, frm):
    """std::string::find.  Returns (found: Bool, pos)."""
    if isinstance(n, int) and isinstance(m, int) and isinstance(frm, int) and n <= 80 and m <= 4 and (not isinstance(bo, int) or True):
        conds = []
        for i in range(frm, n - m + 1):
            c = And(*[eq(A.read(i + j), B.read(add(bo, j)), 8) for j in range(m)])
            conds.append((i, simp(c) if is_sym(c) else c))
        r = mask(64)
        for i, c in conds[::-1]:
            r = ite(c, i, r, 64)
        if ex.cases_active(st):
            for i, c in conds:
                if c is True or (c is not False and not ex.feasible(st.pc, Not(c))):
                    return True, i
                if c is not False and ex.feasible(st.pc, c):
                    break
            else:
                return False, mask(64)
        return ne(r, mask(64)), r

    def P(i):
        return eqrange(ex, st, A, i, B, bo, m)
    # the result is a function of the arguments
    A1, ao = peel(A, 0)
    B1, b1 = peel(B, bo)
    key = ('find', akey(A1), akey(B1)) + tuple(tkey(ex, x) for x in (ao, n, b1, m, frm))
    if key not in ex.findmemo:
        ex.findkeep += [A1, B1]
        ex.findmemo[key] = (ex.fresh_bool('found'), ex_pos(ex, n))
    found, pos = ex.findmemo[key]
    pos = ite(found, pos, mask(64), 64)
    # candidates: frm <= i and i + m <= n
    st.assume(Implies(found, And(ule(frm, pos), ule(pos, n), ule(m, sub(n, pos)), P(pos))))
    st.assume(Implies(Not(found), eq(pos, mask(64))))
    hi = ite(found, pos, ite(ule(m, n), add(sub(n, m), 1), 0, 64), 64)
    st.assume(QA(frm, hi, lambda i: Not(P(i)), True, 'find-none-before'))
    return found, pos


@regx(SS + r'::find\(' + SS + r' const&, unsigned long\) const$')
def _sfind(ex, st, a, ins):
    A, n, _ = s_get(ex, st, a[0])
    B, m, _ = s_get(ex, st, a[1])
    return first_match(ex, st, A, n, B, 0, m, a[2])[1]


@regx(SS + r'::find\(char const\*, unsigned long\) const$')
def _sfindc(ex, st, a, ins):
    A, n, _ = s_get(ex, st, a[0])
    B, o, m = cstr(ex, st, a[1])
    return first_match(ex, st, A, n, B, o, m, a[2])[1]


@regx(SS + r'::find\(char, unsigned long\) const$')
def _sfindch(ex, st, a, ins):
    A, n, _ = s_get(ex, st, a[0])
    return first_match(ex, st, A, n, AConst(a[1], 8), 0, 1, a[2])[1]


@regx(r'void std::reverse<__gnu_cxx::__normal_iterator<char\*, ' + SS + r' ?> ?>\(')
def _srev(ex, st, a, ins):
    p, q = a
    if p.b != q.b or p.o != 0:
        raise Unsupported('std::reverse of a part of a string')
    blk = ex.to_arr(st, p.b, 1)
    n = q.o
    ex.oblige(st, 'mem', 'std::reverse range in bounds', And(sle(0, n), ult(n, blk.size)))
    arr = blk.arr
    st.wr(p.b).arr = AView(ARev(arr, n), n) if same(simp(add(n, 1)), simp(blk.size)) else ACopy(arr, 0, n, ARev(arr, n), 0)


@regx(SS + r'::find_(first|last)_not_of\(char, unsigned long\) const$')
def _sfno(ex, st, a, ins, m):
    A, n, _ = s_get(ex, st, a[0])
    c = a[1]
    found = ex.fresh_bool('found')
    pos = ite(found, ex_pos(ex, n), mask(64), 64)
    st.assume(Implies(Not(found), eq(pos, mask(64))))
    if m.group(1) == 'first':
        st.assume(Implies(found, And(ule(a[2], pos), ult(pos, n), ne(A.read(pos), c, 8))))
        st.assume(QA(a[2], ite(found, pos, n, 64), lambda i: eq(A.read(i), c, 8), True, 'fno'))
    else:
        top = ite(ult(a[2], n), add(a[2], 1), n, 64)
        st.assume(Implies(found, And(ult(pos, top), ne(A.read(pos), c, 8))))
        st.assume(QA(ite(found, add(pos, 1), 0, 64), top, lambda i: eq(A.read(i), c, 8), True, 'flno'))
    return pos


def digits_of(ex, st, v, w, base, signed, upper=False):
    """decimal/oct/hex text of an integer as (arr, len): an uninterpreted text determined by (value, base).

    The text is characterised by:  T_len(v), T_chr(v, i);   see num_text()."""
    return num_text(ex, st, sext(v, w, 64) if signed else zext(v, w, 64), base, signed, upper)


NT_len = {}
NT_chr = {}
POW2 = {2: 1, 4: 2, 8: 3, 16: 4, 32: 5}


def num_text(ex, st, v64, base, signed, upper=False):
    """text of a 64-bit value.  Power-of-two bases: defined digit by digit.  Base 10: uninterpreted digits of the magnitude
    (one to twenty of them, '0'..'9', no leading zero), '-' in front of a negative value."""
    if isinstance(v64, int):
        x = sgn(v64, 64) if signed else v64
        s = render(x, base)
        if upper:
            s = s.upper()
        return AOver(AConst(0, 8), {i: ord(c) for i, c in enumerate(s)}), len(s)
    if base in POW2:
        assert not signed
        k = POW2[base]
        v = bv(v64, 64)
        nmax = (64 + k - 1) // k
        n = z3.BitVecVal(1, 64)
        for d in range(2, nmax + 1):
            n = z3.If(z3.ULE(z3.BitVecVal(1 << (k * (d - 1)), 64), v), z3.BitVecVal(d, 64), n)
        n = simp(n)

        def ch(i):
            sh = mul(k, sub(sub(n, 1), i))
            dg = z3.LShR(v, bv(sh, 64)) & z3.BitVecVal((1 << k) - 1, 64)
            dg = z3.Extract(7, 0, dg)
            return z3.If(z3.ULT(dg, z3.BitVecVal(10, 8)), dg + 48, dg + (55 if upper else 87))
        return AView(AFun(ch, 8), n), n
    if base not in NT_len:
        NT_len[base] = z3.Function('numtext_len_%d' % base, z3.BitVecSort(64), z3.BitVecSort(64))
        NT_chr[base] = z3.Function('numtext_chr_%d' % base, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8))
    L, C = NT_len[base], NT_chr[base]

    def mag(u):
        n = L(u)
        st.assume(And(ule(1, n), ule(n, 20)))
        st.assume(QA(0, n, lambda i: And(ule(48, C(u, bv(i, 64)), 8), ule(C(u, bv(i, 64)), 57, 8)), True, 'digits'))
        return AFun(lambda i: C(u, bv(i, 64)), 8), n
    if not signed:
        A, n = mag(bv(v64, 64))
        return AView(A, n), n
    neg = simp(slt(v64, 0, 64))
    u = simp(bv(ite(neg, sub(0, v64), v64, 64), 64))
    A, n = mag(u)
    if neg is False:
        return AView(A, n), n
    if neg is True:
        return AView(AFun(lambda i: ite(eq(i, 0), ord('-'), A.read(sub(i, 1)), 8), 8), add(n, 1)), add(n, 1)
    m = ite(neg, add(n, 1), n, 64)
    return AView(AFun(lambda i: ite(neg, ite(eq(i, 0), ord('-'), A.read(sub(i, 1)), 8), A.read(i), 8), 8), m), m


def render(x, base):
    if x == 0:
        return '0'
    d = '0123456789abcdefghijklmnopqrstuvwxyz'
    s = ''
    n = abs(x)
    while n:
        s = d[n % base] + s
        n //= base
    return ('-' if x < 0 else '') + s


@regx(r'std::__cxx11::to_string\((int|long|unsigned int|unsigned long|long long|unsigned long long)\)')
def _tostr(ex, st, a, ins, m):
    t = m.group(1)
    w = 32 if t in ('int', 'unsigned int') else 64
    arr, n = digits_of(ex, st, a[1], w, 10, not t.startswith('unsigned'))
    s_init(ex, st, a[0], arr, n)


@reg('asprintf')
def _asprintf(ex, st, a, ins):
    fmt = concrete_cstr(ex, st, a[1])
    m = re.fullmatch(r'%(l|ll)?([diuxXo])', fmt or '')
    if m:
        w = 64 if m.group(1) else 32
        base = {'d': 10, 'i': 10, 'u': 10, 'x': 16, 'X': 16, 'o': 8}.get(m.group(2))
        arr, n = digits_of(ex, st, a[2], w, base, m.group(2) in 'di', m.group(2) == 'X')
    elif fmt in ('%g', '%f', '%.16g', '%d.%d', '%s') or fmt:
        if re.search(r'%[^%]*[gGfFeEaA]', fmt):
            arr, n = ex.fresh_arr('fmt', 8), ex.fresh('fmtlen', 64)
            st.assume(ult(n, 2000))
            arr = AView(arr, n)
        else:
            raise Unsupported('asprintf format %r' % fmt)
    else:
        raise Unsupported('asprintf format')
    b = ex.new_block(st, add(n, 1), 'heap', None, 'asprintf', 1)
    st.mem[b].arr = arr
    ex.store(st, a[0], 'ptr', Ptr(b, 0))
    return trunc(n, 64, 32)


def concrete_cstr(ex, st, p):
    arr, o, n = cstr(ex, st, p)
    if not isinstance(n, int):
        return None
    s = ''
    for i in range(n):
        c = arr.read(o + i)
        if not isinstance(c, int):
            return None
        s += chr(c)
    return s


# ------------------------------------------------------------------ std::vector of scalars
VT = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8,
      'unsigned long': 8, 'float': 4, 'double': 8}
TN = r'(char|signed char|unsigned char|short|unsigned short|int|unsigned int|long|unsigned long|float|double)'
VV = r'std::vector<' + TN + r', std::allocator<\1> ?>'
VI = r'__gnu_cxx::__normal_iterator<\1(?: const)?\*, std::vector<\1, std::allocator<\1> ?> ?>'


def v_init(ex, st, V, arr, n, es):
    b = ex.new_block(st, mul(n, es), 'heap', None, 'vector', es)
    st.mem[b].arr = arr
    nb = st.wr(V.b)
    if not isinstance(V.o, int):
        raise Unsupported('vector at symbolic address')
    o = V.o & mask(64)
    ex.clear_range(st, V.b, nb, o, 24)
    nb.cells[o] = (8, Ptr(b, 0))
    nb.cells[o + 8] = (8, Ptr(b, mul(n, es)))
    nb.cells[o + 16] = (8, Ptr(b, mul(n, es)))
    return b


def v_get(ex, st, V, es):
    blk = ex.block(st, V.b)
    if not isinstance(V.o, int):
        raise Unsupported('vector at symbolic address')
    o = V.o & mask(64)
    p, q = ex.read_raw(st, V.b, blk, o, 8, True), ex.read_raw(st, V.b, blk, o + 8, 8, True)
    if isinstance(p, int) and p == 0:
        b = v_init(ex, st, V, AConst(0, 8 * es), 0, es)
        return AConst(0, 8 * es), 0, b
    if not isinstance(p, Ptr) or not isinstance(q, Ptr):
        raise Unsupported('uninitialised std::vector')
    if p.b == 0:
        b = v_init(ex, st, V, AConst(0, 8 * es), 0, es)
        return AConst(0, 8 * es), 0, b
    n = ex.div_off(st, q.o, es)
    if n is None:
        raise Unsupported('vector length')
    sb = ex.to_arr(st, p.b, es)
    return sb.arr, n, p.b


def v_set(ex, st, V, arr, n, es):
    a0, n0, b = v_get(ex, st, V, es)
    sb = st.wr(b)
    sb.arr = arr
    sb.cells = {}
    sb.size = mul(n, es)
    nb = st.wr(V.b)
    o = V.o & mask(64)
    nb.cells[o + 8] = (8, Ptr(b, mul(n, es)))
    nb.cells[o + 16] = (8, Ptr(b, mul(n, es)))


def v_val(ex, st, p, t):
    es = VT[t]
    v = ex.load(st, p, {1: 'i8', 2: 'i16', 4: 'i32', 8: 'i64'}[es])
    return v


@regx(VV + r'::vector\(\)$', VV + r'::vector\(std::allocator<\1> const&\)$')
def _v0(ex, st, a, ins, m):
    v_init(ex, st, a[0], AConst(0, 8 * VT[m.group(1)]), 0, VT[m.group(1)])


@regx(VV + r'::vector\(unsigned long, std::allocator<\1> const&\)$')
def _vn(ex, st, a, ins, m):
    v_init(ex, st, a[0], AConst(0, 8 * VT[m.group(1)]), a[1], VT[m.group(1)])


@regx(VV + r'::vector\(unsigned long, \1 const&, std::allocator<\1> const&\)$')
def _vnv(ex, st, a, ins, m):
    v_init(ex, st, a[0], AConst(v_val(ex, st, a[2], m.group(1)), 8 * VT[m.group(1)]), a[1], VT[m.group(1)])


@regx(VV + r'::vector\(std::vector<\1, std::allocator<\1> ?>( const&|&&)\)$')
def _vcopy(ex, st, a, ins, m):
    es = VT[m.group(1)]
    arr, n, b = v_get(ex, st, a[1], es)
    v_init(ex, st, a[0], arr, n, es)
    if m.group(2) == '&&':
        v_set(ex, st, a[1], AConst(0, 8 * es), 0, es)


@regx(VV + r'::vector\(std::initializer_list<\1>, std::allocator<\1> const&\)$')
def _vinit(ex, st, a, ins, m):
    es = VT[m.group(1)]
    p, n = a[1], a[2]
    arr = ex.to_arr(st, p.b, es).arr if p.b != 0 else AConst(0, 8 * es)
    o = ex.div_off(st, p.o, es)
    v_init(ex, st, a[0], arr if o == 0 and isinstance(o, int) else ASlice(arr, o), n, es)


@regx(VV + r'::vector<.*>\((.*), \2, std::allocator<\1> const&\)$')
def _vrange(ex, st, a, ins, m):
    es = VT[m.group(1)]
    p, q = a[1], a[2]
    if not (isinstance(p, Ptr) and isinstance(q, Ptr)) or p.b != q.b:
        raise Unsupported('vector range constructor')
    blk = ex.to_arr(st, p.b, es)
    if blk.arr.w != 8 * es:
        raise Unsupported('vector range constructor element size')
    o, e = ex.div_off(st, p.o, es), ex.div_off(st, q.o, es)
    n = sub(e, o)
    ex.oblige(st, 'mem', 'range constructor in bounds', And(ule(o, e), ule(q.o, blk.size)))
    v_init(ex, st, a[0], blk.arr if isinstance(o, int) and o == 0 else ASlice(blk.arr, o), n, es)


@regx(VV + r'::~vector\(\)$', VV + r'::reserve\(', VV + r'::shrink_to_fit\(')
def _vd(ex, st, a, ins, m):
    return None


@regx(VV + r'::size\(\) const$')
def _vsize(ex, st, a, ins, m):
    return v_get(ex, st, a[0], VT[m.group(1)])[1]


@regx(VV + r'::capacity\(\) const$')
def _vcap(ex, st, a, ins, m):
    n = v_get(ex, st, a[0], VT[m.group(1)])[1]
    c = ex.fresh('vcap', 64)
    st.assume(And(ule(n, c), ult(c, 1 << 60)))
    return c


@regx(VV + r'::empty\(\) const$')
def _vempty(ex, st, a, ins, m):
    return eq(v_get(ex, st, a[0], VT[m.group(1)])[1], 0)


@regx(VV + r'::(begin|cbegin|data)\(\)( const)?$')
def _vbegin(ex, st, a, ins, m):
    return Ptr(v_get(ex, st, a[0], VT[m.group(1)])[2], 0)


@regx(VV + r'::(end|cend)\(\)( const)?$')
def _vend(ex, st, a, ins, m):
    arr, n, b = v_get(ex, st, a[0], VT[m.group(1)])
    return Ptr(b, mul(n, VT[m.group(1)]))


@regx(VV + r'::operator\[\]\(unsigned long\)( const)?$')
def _vidx(ex, st, a, ins, m):
    arr, n, b = v_get(ex, st, a[0], VT[m.group(1)])
    ex.oblige(st, 'mem', 'vector index in range', ule(a[1], n))     # the address one past the end may be taken
    return Ptr(b, mul(a[1], VT[m.group(1)]))


@regx(VV + r'::at\(unsigned long\)( const)?$')
def _vat(ex, st, a, ins, m):
    arr, n, b = v_get(ex, st, a[0], VT[m.group(1)])
    return branch(ex, st, ult(a[1], n), Ptr(b, mul(a[1], VT[m.group(1)])), Throw('_ZTISt12out_of_range'))


@regx(VV + r'::(front|back)\(\)( const)?$')
def _vfront(ex, st, a, ins, m):
    arr, n, b = v_get(ex, st, a[0], VT[m.group(1)])
    ex.oblige(st, 'mem', 'front/back of non-empty vector', ne(n, 0))
    return Ptr(b, 0 if m.group(2) == 'front' else mul(sub(n, 1), VT[m.group(1)]))


@regx(VV + r'::(push_back|emplace_back)(?:<.*>)?\(\1( const&|&&|&)\)$')
def _vpush(ex, st, a, ins, m):
    es = VT[m.group(1)]
    arr, n, b = v_get(ex, st, a[0], es)
    v = v_val(ex, st, a[1], m.group(1))
    v_set(ex, st, a[0], a_store(arr, n, v), add(n, 1), es)
    return Ptr(b, mul(n, es))


@regx(VV + r'::pop_back\(\)$')
def _vpop(ex, st, a, ins, m):
    es = VT[m.group(1)]
    arr, n, b = v_get(ex, st, a[0], es)
    ex.oblige(st, 'mem', 'pop_back of non-empty vector', ne(n, 0))
    v_set(ex, st, a[0], arr, sub(n, 1), es)


@regx(VV + r'::clear\(\)$')
def _vclear(ex, st, a, ins, m):
    es = VT[m.group(1)]
    v_set(ex, st, a[0], AConst(0, 8 * es), 0, es)


@regx(VV + r'::resize\(unsigned long\)$', VV + r'::resize\(unsigned long, \1 const&\)$')
def _vresize(ex, st, a, ins, m):
    es = VT[m.group(1)]
    arr, n, b = v_get(ex, st, a[0], es)
    v = v_val(ex, st, a[2], m.group(1)) if len(a) > 2 else 0
    k = a[1]
    outs = []
    if ex.feasible(st.pc, ult((1 << 63) // es - 1, k)):
        s2 = st.copy()
        s2.assume(ult((1 << 63) // es - 1, k))
        outs.append((s2, Throw('_ZTISt12length_error')))
        st.assume(Not(ult((1 << 63) // es - 1, k)))
    if isinstance(n, int) and n == 0:
        na = AConst(v, 8 * es)
    else:
        na = ACopy(AConst(v, 8 * es), 0, n, arr, 0)
    v_set(ex, st, a[0], na, k, es)
    return outs + [(st, None)] if outs else None


@regx(VV + r'::operator=\(std::vector<\1, std::allocator<\1> ?>( const&|&&)\)$')
def _vassign(ex, st, a, ins, m):
    es = VT[m.group(1)]
    arr, n, b = v_get(ex, st, a[1], es)
    v_set(ex, st, a[0], arr, n, es)
    return a[0]


@regx(VV + r'::swap\(')
def _vswap(ex, st, a, ins, m):
    es = VT[m.group(1)]
    x, n, b = v_get(ex, st, a[0], es)
    y, k, c = v_get(ex, st, a[1], es)
    v_set(ex, st, a[0], y, k, es)
    v_set(ex, st, a[1], x, n, es)


@regx(VV + r'::erase\(' + VI + r'\)$')
def _verase(ex, st, a, ins, m):
    es = VT[m.group(1)]
    arr, n, b = v_get(ex, st, a[0], es)
    i = ex.div_off(st, a[1].o, es)
    ex.oblige(st, 'mem', 'erase position in range', ult(i, n))
    v_set(ex, st, a[0], ACopy(ASlice(arr, 1), 0, i, arr, 0), sub(n, 1), es)
    return Ptr(b, a[1].o)


@regx(VV + r'::erase\(' + VI + r', ' + VI + r'\)$')
def _veraser(ex, st, a, ins, m):
    es = VT[m.group(1)]
    arr, n, b = v_get(ex, st, a[0], es)
    i, j = ex.div_off(st, a[1].o, es), ex.div_off(st, a[2].o, es)
    ex.oblige(st, 'mem', 'erase range in range', And(ule(i, j), ule(j, n)))
    v_set(ex, st, a[0], ACopy(ASlice(arr, sub(j, i)), 0, i, arr, 0), sub(n, sub(j, i)), es)
    return Ptr(b, a[1].o)


@regx(VV + r'::insert\(' + VI + r', \1( const&|&&)\)$')
def _vinsert(ex, st, a, ins, m):
    es = VT[m.group(1)]
    arr, n, b = v_get(ex, st, a[0], es)
    i = ex.div_off(st, a[1].o, es)
    ex.oblige(st, 'mem', 'insert position in range', ule(i, n))
    v = v_val(ex, st, a[2], m.group(1))
    v_set(ex, st, a[0], a_store(ACopy(ASlice(arr, mask(64)), 0, i, arr, 0), i, v), add(n, 1), es)
    return Ptr(b, a[1].o)


@regx(VV + r'::\w')
def _vunk(ex, st, a, ins, m):
    raise Unsupported('std::vector operation without a contract: ' + str(ins.get('callee')))


@regx(r'^__static_initialization_and_destruction_0$')
def _sinit(ex, st, a, ins):
    return None


# ------------------------------------------------------------------ mutex (single-threaded contracts)
@regx(r'std::mutex::(mutex|~mutex|lock|unlock)\(', r'std::lock_guard<std::mutex>::~?lock_guard', r'std::unique_lock<std::mutex>::~?unique_lock')
def _mutex(ex, st, a, ins, m=None):
    ex.assumed_notes.add('calls are sequential: locking has no effect on the result')
    return None




# ------------------------------------------------------------------ std::bitset<32..64>::to_string, std::stringstream
@regx(r'std::bitset<(\d+)ul>::bitset\(unsigned long long\)$')
def _bitset(ex, st, a, ins, m):
    N = int(m.group(1))
    if N > 64:
        raise Unsupported('wide bitset')
    v = a[1]
    if N < 64:
        v = (v & mask(N)) if isinstance(v, int) else v & z3.BitVecVal(mask(N), 64)
    ex.write_raw(st, a[0].b, a[0].o, 8, v)


@regx(r'std::bitset<(\d+)ul>::to_string(?:<.*>)?(?:\[abi:cxx11\])?\(\) const$')
def _bitset_str(ex, st, a, ins, m):
    N = int(m.group(1))
    v = bv(ex.load(st, a[1], 'i64'), 64)
    d = {i: simp(z3.If(z3.Extract(N - 1 - i, N - 1 - i, v) == 1, z3.BitVecVal(49, 8), z3.BitVecVal(48, 8))) for i in range(N)}
    d = {i: (c.as_long() if z3.is_bv_value(c) else c) for i, c in d.items()}
    s_init(ex, st, a[0], AOver(AConst(0, 8), d), N)


STRM = r'std::__cxx11::basic_(o?)stringstream<char, std::char_traits<char>, std::allocator<char> ?>'


def ss_find(st, p):
    best = None
    for k in st.ghost:
        if isinstance(k, tuple) and k[0] == 'ss' and k[1] == p.b and k[2] <= p.o and (best is None or k[2] > best):
            best = k[2]
    if best is None:
        raise Unsupported('stream output to something that is not a string stream')
    return Ptr(p.b, best + 128), ('ss', p.b, best)


@regx(STRM + r'::basic_o?stringstream\(\)$')
def _ss0(ex, st, a, ins, m):
    st.ghost[('ss', a[0].b, a[0].o)] = 10
    s_init(ex, st, Ptr(a[0].b, a[0].o + 128), AConst(0, 8), 0)


@regx(STRM + r'::~basic_o?stringstream\(\)$')
def _ssd(ex, st, a, ins, m):
    st.ghost.pop(('ss', a[0].b, a[0].o), None)


@regx(STRM + r'::str\(\) const$')
def _ssstr(ex, st, a, ins, m):
    S, k = ss_find(st, a[1])
    arr, n, _ = s_get(ex, st, S)
    s_init(ex, st, a[0], arr, n)


@regx(r'std::ostream::operator<<\(std::ios_base& \(\*\)\(std::ios_base&\)\)$')
def _ssman(ex, st, a, ins, m=None):
    S, k = ss_find(st, a[0])
    nm = a[1].b[2] if isinstance(a[1].b, tuple) else ''
    for t, b in (('St3oct', 8), ('St3hex', 16), ('St3dec', 10)):
        if t in nm:
            st.ghost[k] = b
            return a[0]
    raise Unsupported('stream manipulator ' + str(nm))


@regx(r'std::ostream::operator<<\((int|long|unsigned int|unsigned long|long long|unsigned long long|short|unsigned short)\)$')
def _ssint(ex, st, a, ins, m):
    S, k = ss_find(st, a[0])
    t = m.group(1)
    w = 16 if 'short' in t else 32 if 'int' in t else 64
    base = st.ghost[k]
    if base == 10:
        B, n = digits_of(ex, st, a[1], w, 10, not t.startswith('unsigned'))
    else:
        B, n = digits_of(ex, st, a[1], w, base, False)
    A, l, _ = s_get(ex, st, S)
    s_set(ex, st, S, a_concat(A, l, B, 0, n), add(l, n))
    return a[0]


@regx(r'std::basic_ostream<char, std::char_traits<char> ?>& std::operator<<\s?<std::char_traits<char> ?>\(std::basic_ostream<char, std::char_traits<char> ?>&, (char const\*|char)\)$')
def _ssc(ex, st, a, ins, m):
    S, k = ss_find(st, a[0])
    A, l, _ = s_get(ex, st, S)
    if m.group(1) == 'char':
        B, o, n = AConst(a[1], 8), 0, 1
    else:
        B, o, n = cstr(ex, st, a[1])
    s_set(ex, st, S, a_concat(A, l, B, o, n), add(l, n))
    return a[0]


@regx(r'std::basic_ostream<char, std::char_traits<char> ?>& std::operator<<\s?<char, std::char_traits<char>, std::allocator<char> ?>\(')
def _ssstring(ex, st, a, ins, m=None):
    S, k = ss_find(st, a[0])
    A, l, _ = s_get(ex, st, S)
    B, n, _ = s_get(ex, st, a[1])
    s_set(ex, st, S, a_concat(A, l, B, 0, n), add(l, n))
    return a[0]


@regx(SS + r'::(?!size|length)\w')
def _sunk(ex, st, a, ins):
    raise Unsupported('std::string operation without a contract: ' + str(ins.get('callee')))

