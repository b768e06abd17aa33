"""Symbolic values, path exploration and obligations.

The code under verification runs natively under CPython (after the mechanical
rewriting of pv.rewrite); integers, booleans and byte strings whose value is
not fixed are instances of the classes below, which build z3 terms.

  SymInt    mathematical integer (Python integers are unbounded: exact)
  SymBool   truth value; using it as a condition splits the path
  SymBytes  byte string as a "rope" of chunks:
              Lit     literal bytes
              IntB    n-byte encoding of an integer term
              Atom    slice [off, off+len) of an uninterpreted byte string
              App     n-byte output of an uninterpreted function (hashes, ...)
              VarI    Bitcoin compact-size encoding of an integer term
              FMap    concatenation, for i in [lo, hi), of a rope depending on i
              IteR    one of two ropes, depending on a condition
"""
import os
import subprocess
import tempfile
import time
import z3

z3.set_param('smt.random_seed', 1)

MAX_VARINT = (1 << 64) - 1


class EngineStop(BaseException):
    """base of everything the code under verification must not catch"""


class Unsupported(EngineStop):
    pass


class Infeasible(EngineStop):
    """current path has no model: drop it"""


class PathDone(EngineStop):
    pass


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported('symbolic value used outside of a verification run')
    return CTX


def zint(x):
    if type(x) is SymInt:
        return x.e
    if type(x) is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    if z3.is_expr(x):
        return x
    raise Unsupported('integer expected, got %s' % type(x).__name__)


def is_c(e):
    return isinstance(e, int) or z3.is_int_value(e)


def cv(e):
    return e if isinstance(e, int) else e.as_long()


_simp_cache = {}


def simp(e):
    k = e.get_id()
    r = _simp_cache.get(k)
    if r is not None:
        return r[1]
    s = z3.simplify(e)
    if len(_simp_cache) > 200000:
        _simp_cache.clear()
    _simp_cache[k] = (e, s)
    return s


_sx_cache = {}


def sx(e):
    """e.sexpr(), cached"""
    k = e.get_id()
    r = _sx_cache.get(k)
    if r is not None:
        return r[1]
    s = e.sexpr()
    if len(_sx_cache) > 200000:
        _sx_cache.clear()
    _sx_cache[k] = (e, s)
    return s


_apps_cache = {}
_raw = [getattr(z3.z3core, n).__defaults__[-1].f for n in (
    'Z3_get_ast_id', 'Z3_get_ast_kind', 'Z3_get_app_decl', 'Z3_get_decl_kind', 'Z3_get_app_num_args',
    'Z3_get_app_arg', 'Z3_get_quantifier_body')]


def uapps(e):
    """applications of uninterpreted functions (with arguments or not) in e"""
    k = e.get_id()
    r = _apps_cache.get(k)
    if r is not None:
        return r[1]
    ref = e.ctx.ref()
    seen, out, todo = set(), [], [e.as_ast()]
    APP, QUANT, UN = z3.Z3_APP_AST, z3.Z3_QUANTIFIER_AST, z3.Z3_OP_UNINTERPRETED
    get_id, kind_of, decl_of, decl_kind, nargs, arg, qbody = _raw
    while todo:
        t = todo.pop()
        i = get_id(ref, t)
        if i in seen:
            continue
        seen.add(i)
        kd = kind_of(ref, t)
        if kd == APP:
            n = nargs(ref, t)
            for j in range(n):
                todo.append(arg(ref, t, j))
            if decl_kind(ref, decl_of(ref, t)) == UN:
                x = z3.z3._to_expr_ref(t, e.ctx)
                out.append((i, x, x.decl().name()))
        elif kd == QUANT:
            todo.append(qbody(ref, t))
    if len(_apps_cache) > 200000:
        _apps_cache.clear()
    _apps_cache[k] = (e, out)
    return out


def mkint(e):
    if isinstance(e, int):
        return e
    e = simp(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = simp(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def zbool(x):
    if type(x) is SymBool:
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if type(x) is SymInt:
        return x.e != 0
    if z3.is_expr(x):
        return x
    if x is None:
        return z3.BoolVal(False)
    if type(x).__module__ == 'pv.linear':
        return z3.BoolVal(bool(x))
    if isinstance(x, int):
        return z3.BoolVal(x != 0)
    raise Unsupported('truth value of %s' % type(x).__name__)


# --------------------------------------------------------------------- ints

class Sym:
    """marker base of all symbolic values"""
    __slots__ = ()

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')


def _bits(m):
    """contiguous runs of ones of m: list of (low, high) exclusive"""
    r = []
    i = 0
    while m >> i:
        if (m >> i) & 1:
            j = i
            while (m >> j) & 1:
                j += 1
            r.append((i, j))
            i = j
        else:
            i += 1
    return r


def z_and_const(e, m):
    if m == 0:
        return z3.IntVal(0)
    if m < 0:
        return e - z_and_const(e, ~m)
    parts = []
    for lo, hi in _bits(m):
        t = e if lo == 0 else e / z3.IntVal(1 << lo)
        t = t % z3.IntVal(1 << (hi - lo))
        if lo:
            t = t * z3.IntVal(1 << lo)
        parts.append(t)
    return z3.Sum(parts) if len(parts) > 1 else parts[0]


class SymInt(Sym):
    __slots__ = ('e', 'origin')

    def __init__(self, e, origin=None):
        self.e = e
        self.origin = origin      # (rope, endian, signed) it was decoded from

    @property
    def __class__(self):
        return int

    def _b(self, o, f):
        if isinstance(o, (int, SymInt, SymBool)):
            return mkint(f(self.e, zint(o)))
        return NotImplemented

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: b + a)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (bytes, str, list, tuple, SymBytes)):
            return NotImplemented
        return self._b(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if type(o) is bytes:
            return repeat(o, self)
        if type(o) in (str, list, tuple):
            raise Unsupported('repetition by a symbolic count')
        return self._b(o, lambda a, b: b * a)

    def __neg__(self): return mkint(-self.e)
    def __pos__(self): return self
    def __invert__(self): return mkint(-self.e - 1)
    def __abs__(self): return mkint(z3.If(self.e < 0, -self.e, self.e))

    def __floordiv__(self, o):
        if isinstance(o, int) and not isinstance(o, Sym) and o > 0:
            return mkint(self.e / z3.IntVal(o))
        raise Unsupported('division by a symbolic or non-positive number')

    def __mod__(self, o):
        if isinstance(o, int) and not isinstance(o, Sym) and o > 0:
            return mkint(self.e % z3.IntVal(o))
        raise Unsupported('modulo a symbolic or non-positive number')

    def __rfloordiv__(self, o): raise Unsupported('division by symbolic')
    def __rmod__(self, o): raise Unsupported('modulo symbolic')
    def __truediv__(self, o): raise Unsupported('float division')
    def __rtruediv__(self, o): raise Unsupported('float division')
    def __pow__(self, o): raise Unsupported('power')
    def __rpow__(self, o): raise Unsupported('power')

    def __divmod__(self, o): return (self // o, self % o)

    def __lshift__(self, o):
        if type(o) is int:
            return mkint(self.e * z3.IntVal(1 << o))
        return self._enum(o, lambda k: self << k)

    def __rshift__(self, o):
        if type(o) is int:
            return mkint(self.e / z3.IntVal(1 << o))
        return self._enum(o, lambda k: self >> k)

    def _enum(self, o, f):
        return f(ctx().concretize(o))

    def __rlshift__(self, o): return o << ctx().concretize(self)
    def __rrshift__(self, o): return o >> ctx().concretize(self)

    def __and__(self, o):
        if type(o) in (int, bool) or (isinstance(o, int) and not isinstance(o, Sym)):
            return mkint(z_and_const(self.e, int(o)))
        if isinstance(o, (SymInt, SymBool)):
            return sym_bitop('and', self, o)
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, int) and not isinstance(o, Sym):
            return mkint(self.e + z3.IntVal(int(o)) - z_and_const(self.e, int(o)))
        if isinstance(o, (SymInt, SymBool)):
            return sym_bitop('or', self, o)
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, int) and not isinstance(o, Sym):
            return mkint(self.e + z3.IntVal(int(o)) - 2 * z_and_const(self.e, int(o)))
        if isinstance(o, (SymInt, SymBool)):
            return sym_bitop('xor', self, o)
        return NotImplemented
    __rxor__ = __xor__

    def _c(self, o, f):
        if isinstance(o, (int, SymInt, SymBool)):
            return mkbool(f(self.e, zint(o)))
        return NotImplemented

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes, tuple, list)):
            return False
        return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, bytes, tuple, list)):
            return True
        return self._c(o, lambda a, b: a != b)

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)

    def __bool__(self):
        return ctx().decide(self.e != 0)

    def __hash__(self):
        raise Unsupported('hash of a symbolic integer')

    def __index__(self):
        raise Unsupported('symbolic integer used as a native index')

    def __int__(self):
        raise Unsupported('native int() of a symbolic integer')

    def __repr__(self): return '<int>'
    def __str__(self): return '<int>'
    def __format__(self, spec): return '<int>'

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        return enc_int(self, length, byteorder, signed, OverflowError)

    def bit_length(self):
        raise Unsupported('bit_length of a symbolic integer')

    def subst(self, sub):
        return mkint(zsub(self.e, sub))


def sym_bitop(op, a, b):
    """bit operation on two symbolic integers: only disjoint bit ranges"""
    c = ctx()
    ea, eb = zint(a), zint(b)
    for x, y in ((ea, eb), (eb, ea)):
        for k in (1, 5, 8, 16, 3, 2, 4, 6, 7, 13, 10):
            if c.valid(z3.And(y >= 0, y < (1 << k), x >= 0, x % (1 << k) == 0)):
                return mkint(x + y) if op in ('or', 'xor') else 0
    raise Unsupported('bit operation on two symbolic integers')


class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return ctx().decide(self.e)

    def __and__(self, o):
        if isinstance(o, bool):
            return mkbool(z3.And(self.e, zbool(o)))
        return mkint(zint(self)) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return mkbool(z3.Or(self.e, zbool(o)))
        return mkint(zint(self)) | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return mkbool(z3.Xor(self.e, zbool(o)))
        return mkint(zint(self)) ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, bool):
            return mkbool(self.e == zbool(o))
        if isinstance(o, int):
            return mkint(zint(self)) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) and not isinstance(r, Sym) else mkbool(z3.Not(r.e))

    def _i(self): return mkint(zint(self))
    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    __rmul__ = __mul__
    def __lshift__(self, o): return self._i() << o
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __hash__(self): raise Unsupported('hash of a symbolic boolean')
    def __index__(self): raise Unsupported('symbolic boolean used as index')
    def __int__(self): raise Unsupported('native int() of symbolic boolean')
    def __repr__(self): return '<bool>'
    def __format__(self, s): return '<bool>'

    def subst(self, sub):
        return mkbool(zsub(self.e, sub))


def zsub(e, sub):
    if isinstance(e, int):
        return e
    if len(sub) == 1:
        a, b = sub[0]
        k = (e.get_id(), a.get_id(), b.get_id())
        r = _zsub_cache.get(k)
        if r is not None:
            return r[3]
        if len(_zsub_cache) > 200000:
            _zsub_cache.clear()
        r = z3.substitute(e, (a, b))
        _zsub_cache[k] = (e, a, b, r)
        return r
    return z3.substitute(e, *sub)


_zsub_cache = {}


# ------------------------------------------------------------------- chunks

class Chunk:
    __slots__ = ()
    fixed = None


_iv_cache = {}


def zlen(n):
    if not isinstance(n, int):
        return n
    r = _iv_cache.get(n)
    if r is None:
        if len(_iv_cache) > 100000:
            _iv_cache.clear()
        r = _iv_cache[n] = z3.IntVal(n)
    return r


class Lit(Chunk):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def len(self): return len(self.b)

    def byte(self, k):
        k = k if isinstance(k, int) else simp(k)
        if is_c(k):
            return z3.IntVal(self.b[cv(k)])
        e = z3.IntVal(self.b[-1]) if self.b else z3.IntVal(0)
        for j in range(len(self.b) - 2, -1, -1):
            e = z3.If(k == j, z3.IntVal(self.b[j]), e)
        return e

    def cut(self, a, n):
        return Lit(self.b[a:a + n]) if is_c(a) and is_c(n) else None

    def subst(self, sub): return self
    def key(self): return ('L', self.b)


class IntB(Chunk):
    """n-byte encoding of e; 0 <= e < 256**n is an invariant"""
    __slots__ = ('e', 'n', 'big', 'src')

    def __init__(self, e, n, big, src=None):
        self.e, self.n, self.big = e, n, big
        self.src = src

    def len(self): return self.n

    def byte(self, k):
        k = k if isinstance(k, int) else simp(k)
        if not is_c(k):
            e = self.byte(self.n - 1)
            for j in range(self.n - 2, -1, -1):
                e = z3.If(k == j, self.byte(j), e)
            return e
        k = cv(k)
        s = (self.n - 1 - k) if self.big else k
        e = self.e if s == 0 else self.e / z3.IntVal(256 ** s)
        if s == self.n - 1:
            return e
        return e % z3.IntVal(256)

    def cut(self, a, n):
        if is_c(a) and is_c(n):
            a, n = cv(a), cv(n)
            if a == 0 and n == self.n:
                return self
            if n == 1:
                return IntB(self.byte(a), 1, False)
            # a sub-field of an integer is an integer again
            s = (self.n - a - n) if self.big else a
            e = self.e if s == 0 else self.e / z3.IntVal(256 ** s)
            if s + n != self.n:
                e = e % z3.IntVal(256 ** n)
            return IntB(e, n, self.big)
        return None

    def subst(self, sub): return IntB(zsub(self.e, sub), self.n, self.big)
    def key(self): return ('I', str(sx(self.e)), self.n, self.big)


class Atom(Chunk):
    __slots__ = ('fn', 'args', 'off', 'n')

    def __init__(self, fn, args, off, n):
        self.fn, self.args, self.off, self.n = fn, args, off, n

    def len(self): return self.n

    def byte(self, k):
        return ctx().byte_app(self.fn, self.args, simp(zlen(self.off) + zlen(k)))

    def cut(self, a, n):
        off = simp(zlen(self.off) + zlen(a))
        return Atom(self.fn, self.args, cv(off) if is_c(off) else off,
                    n if isinstance(n, int) else (cv(n) if is_c(n) else n))

    def subst(self, sub):
        n = self.n if isinstance(self.n, int) else simp(zsub(self.n, sub))
        off = self.off if isinstance(self.off, int) else simp(zsub(self.off, sub))
        return Atom(self.fn, tuple(zsub(a, sub) for a in self.args), off, n)

    def key(self):
        return ('A', self.fn, tuple(sx(a) for a in self.args),
                str(self.off if isinstance(self.off, int) else sx(self.off)),
                str(self.n if isinstance(self.n, int) else sx(self.n)))


class App(Chunk):
    """bytes [off, off+n) of the output of the uninterpreted function fname"""
    __slots__ = ('fname', 'args', 'off', 'n', 'full')

    def __init__(self, fname, args, n, off=0, full=None):
        self.fname, self.args, self.n, self.off = fname, args, n, off
        self.full = n if full is None else full

    def len(self): return self.n

    def byte(self, k):
        key = repr(self.key_args())
        nm, vs = ctx().app_symbol(self.fname, key, self)
        return ctx().byte_app(nm, vs, simp(zlen(self.off) + zlen(k)))

    def key_args(self):
        return (self.fname, tuple(arg_key(a) for a in self.args))

    def cut(self, a, n):
        off = simp(zlen(self.off) + zlen(a))
        return App(self.fname, self.args, n if isinstance(n, int) else (cv(n) if is_c(n) else n),
                   cv(off) if is_c(off) else off, self.full)

    def subst(self, sub):
        n = self.n if isinstance(self.n, int) else simp(zsub(self.n, sub))
        off = self.off if isinstance(self.off, int) else simp(zsub(self.off, sub))
        return App(self.fname, tuple(subst(a, sub) for a in self.args), n, off, self.full)

    def key(self):
        return ('F', self.key_args(), self.off if isinstance(self.off, int) else sx(self.off),
                self.n if isinstance(self.n, int) else sx(self.n))


_vlen_cache = {}


class VarI(Chunk):
    """compact size encoding of e, 0 <= e < 2**64"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def len(self):
        e = self.e
        k = e.get_id()
        r = _vlen_cache.get(k)
        if r is None:
            r = _vlen_cache[k] = (e, z3.If(e < 0xfd, z3.IntVal(1), z3.If(
                e <= 0xffff, z3.IntVal(3), z3.If(
                    e <= 0xffffffff, z3.IntVal(5), z3.IntVal(9)))))
        return r[1]

    def expand(self):
        """decide the size class and return the equivalent rope"""
        c = ctx()
        e = self.e
        if c.decide(e < 0xfd):
            return [IntB(e, 1, False)]
        if c.decide(e <= 0xffff):
            return [Lit(b'\xfd'), IntB(e, 2, False)]
        if c.decide(e <= 0xffffffff):
            return [Lit(b'\xfe'), IntB(e, 4, False)]
        return [Lit(b'\xff'), IntB(e, 8, False)]

    def byte(self, k): raise Unsupported('byte of an unexpanded compact size')
    def cut(self, a, n): return None
    def subst(self, sub): return mkvarint_chunk(zsub(self.e, sub))
    def key(self): return ('V', sx(self.e))


def mkvarint_chunk(e):
    e = simp(e)
    if is_c(e):
        v = cv(e)
        if v < 0xfd:
            return Lit(bytes([v]))
        if v <= 0xffff:
            return Lit(b'\xfd' + v.to_bytes(2, 'little'))
        if v <= 0xffffffff:
            return Lit(b'\xfe' + v.to_bytes(4, 'little'))
        return Lit(b'\xff' + v.to_bytes(8, 'little'))
    return VarI(e)


class FMap(Chunk):
    """concat of body[i] for lo <= i < hi"""
    __slots__ = ('i', 'body', 'lo', 'hi', '_len')

    def __init__(self, i, body, lo, hi):
        self.i, self.body, self.lo, self.hi = i, body, zlen(lo), zlen(hi)
        self._len = None

    def at(self, j):
        return [c2 for c in self.body for c2 in flat1(c.subst([(self.i, zlen(j))]))]

    def len(self):
        if self._len is None:
            b = simp(rope_len(self.body))
            if is_c(b):
                self._len = simp((self.hi - self.lo) * b)
            else:
                self._len = ctx().sum_term(self.i, b, self.lo, self.hi)
        return self._len

    def byte(self, k): raise Unsupported('byte of a mapped rope')
    def cut(self, a, n): return None

    def subst(self, sub):
        sub2 = [s for s in sub if not s[0].eq(self.i)]
        return FMap(self.i, [c.subst(sub2) for c in self.body],
                    simp(zsub(self.lo, sub)), simp(zsub(self.hi, sub)))

    def key(self):
        canon = z3.Int('!bound')
        return ('M', tuple(c.subst([(self.i, canon)]).key() for c in self.body),
                sx(self.lo), sx(self.hi))


def repeat(b, n):
    """b * n for a symbolic number n"""
    e = simp(zint(n))
    if not ctx().decide(e > 0):
        return b''
    return mkbytes([FMap(z3.Int('!repeat'), list(chunks_of(b)), 0, e)] if len(chunks_of(b)) else [])


class IteR(Chunk):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def len(self):
        la, lb = simp(rope_len(self.a)), simp(rope_len(self.b))
        if la.eq(lb):
            return cv(la) if is_c(la) else la
        return z3.If(self.c, la, lb)

    def byte(self, k):
        if all(fixed_len([c]) is not None for c in self.a + self.b):
            return z3.If(self.c, rope_byte(self.a, k), rope_byte(self.b, k))
        raise Unsupported('byte of a conditional rope')

    def cut(self, a, n):
        return None

    def subst(self, sub):
        c = simp(zsub(self.c, sub))
        return IteR(c, [x.subst(sub) for x in self.a], [x.subst(sub) for x in self.b])

    def key(self):
        return ('C', sx(self.c), tuple(x.key() for x in self.a),
                tuple(x.key() for x in self.b))


class Enc(Chunk):
    """encoding of an object, as one unit (contracts of serializers)"""
    __slots__ = ('kind', '_obj', 'params', 'rope', 'sub', '_key')

    def __init__(self, kind, obj, params, rope, sub=()):
        self.kind, self._obj, self.params, self.rope, self.sub = kind, obj, params, rope, sub
        self._key = None

    @property
    def obj(self):
        o = self._obj
        for s in self.sub:
            o = subst(o, s)
        self._obj, self.sub = o, ()
        return o

    def len(self):
        n = simp(rope_len(self.rope))
        return cv(n) if is_c(n) else n

    def byte(self, k): return rope_byte(self.rope, k)
    def cut(self, a, n): return None

    def subst(self, sub):
        return Enc(self.kind, self._obj, self.params, [c2 for c in self.rope for c2 in flat1(c.subst(sub))],
                   tuple(self.sub) + (sub,))

    def key(self):
        if self._key is None:
            self._key = ('E', self.kind, self.params, tuple(c.key() for c in self.rope))
        return self._key


class Pre(Chunk):
    """unknown earlier content of an accumulator (loop induction only)"""
    __slots__ = ('name', 'n')

    def __init__(self, name, n):
        self.name, self.n = name, n

    def len(self): return self.n
    def byte(self, k): raise Unsupported('content of an accumulator used inside the loop')
    def cut(self, a, n): return None
    def subst(self, sub): return Pre(self.name, zsub(self.n, sub))
    def key(self): return ('P', self.name)


def arg_key(a):
    if isinstance(a, SymBytes):
        return tuple(c.key() for c in a.chunks)
    if isinstance(a, (SymInt, SymBool)):
        return sx(a.e)
    if z3.is_expr(a):
        return sx(a)
    if isinstance(a, (tuple, list)):
        return tuple(arg_key(x) for x in a)
    return a


def flat1(c):
    """remove trivially empty or decided chunks"""
    if type(c) is IteR:
        if z3.is_true(c.c):
            return [y for x in c.a for y in flat1(x)]
        if z3.is_false(c.c):
            return [y for x in c.b for y in flat1(x)]
        return [c]
    if type(c) is Lit:
        return [c] if c.b else []
    if type(c) is FMap:
        lo, hi = simp(c.lo), simp(c.hi)
        if lo.eq(hi):
            return []
        if not c.body:
            return []
        return [c]
    if type(c) in (VarI, Pre):
        return [c]
    if type(c) is Enc:
        return [c] if c.rope else []
    n = c.len()
    if isinstance(n, int):
        return [c] if n else []
    if is_c(n):
        return [c] if cv(n) else []
    return [c]


def norm(chunks):
    out = []
    for c0 in chunks:
        for c in flat1(c0):
            if out:
                p = out[-1]
                if type(p) is Lit and type(c) is Lit:
                    out[-1] = Lit(p.b + c.b)
                    continue
                if type(p) is Atom and type(c) is Atom and p.fn == c.fn \
                        and all(x.eq(y) for x, y in zip(p.args, c.args)):
                    if simp(zlen(p.off) + zlen(p.n) - zlen(c.off)).eq(z3.IntVal(0)):
                        n = simp(zlen(p.n) + zlen(c.n))
                        out[-1] = Atom(p.fn, p.args, p.off, cv(n) if is_c(n) else n)
                        continue
                if type(p) is App and type(c) is App and p.fname == c.fname \
                        and simp(zlen(p.off) + zlen(p.n) - zlen(c.off)).eq(z3.IntVal(0)) and p.key_args() == c.key_args():
                    n = simp(zlen(p.n) + zlen(c.n))
                    out[-1] = App(p.fname, p.args, cv(n) if is_c(n) else n, p.off, p.full)
                    continue
            out.append(c)
    return out


def rope_len(chunks):
    n = 0
    ts = []
    for c in chunks:
        k = c.len()
        if isinstance(k, int):
            n += k
        else:
            ts.append(k)
    if not ts:
        return z3.IntVal(n)
    return z3.Sum(ts + [z3.IntVal(n)])


def fixed_len(chunks):
    n = simp(rope_len(chunks))
    return cv(n) if is_c(n) else None


def rope_byte(chunks, k):
    """byte at constant offset k, all chunks up to it having fixed length"""
    if is_c(k):
        k = cv(k)
        for c in chunks:
            n = c.len()
            if not is_c(n):
                n = simp(n)
                if not is_c(n):
                    # the byte may still be inside this chunk
                    if type(c) is Atom and ctx().valid(n > k):
                        return c.byte(k)
                    if type(c) in (VarI, IteR):
                        return None
                    return None
            n = cv(n)
            if k < n:
                return c.byte(k)
            k -= n
        return None
    n = 0
    if len(chunks) == 1:
        return chunks[0].byte(k)
    L = fixed_len(chunks)
    if L is not None and L <= 600:
        e = rope_byte(chunks, L - 1)
        for j in range(L - 2, -1, -1):
            e = z3.If(k == j, rope_byte(chunks, j), e)
        return e
    return None


# ------------------------------------------------------------------ SymBytes

_MISSING = object()


def chunks_of(b):
    if isinstance(b, SymBytes):
        return list(b.chunks)
    if isinstance(b, (bytes, bytearray)):
        return [Lit(bytes(b))] if len(b) else []
    raise Unsupported('bytes expected, got %s' % type(b).__name__)


def mkbytes(chunks, cls=None):
    chunks = norm(chunks)
    if cls is None and all(type(c) is Lit for c in chunks):
        return chunks[0].b if chunks else b''
    return SymBytes(chunks, cls)


class SymBytes(Sym):
    """immutable byte string, possibly claiming to be of a bytes subclass"""

    def __init__(self, chunks, cls=None):
        d = self.__dict__
        d['chunks'] = tuple(chunks)
        d['cls'] = cls

    @property
    def __class__(self):
        return self.__dict__['cls'] or bytes

    def __getattr__(self, name):
        cls = self.__dict__.get('cls')
        if cls is not None:
            for k in cls.__mro__:
                if k is bytes or k is object:
                    continue
                if name in k.__dict__:
                    v = k.__dict__[name]
                    g = getattr(type(v), '__get__', None)
                    return g(v, self, cls) if g else v
        if name.startswith('__') or not hasattr(bytes, name):
            raise AttributeError(name)
        raise Unsupported('bytes.%s on a symbolic byte string' % name)

    # -- queries
    def zlen(self):
        return simp(rope_len(self.chunks))

    def length(self):
        return mkint(self.zlen())

    def __len__(self):
        n = self.zlen()
        if is_c(n):
            return cv(n)
        raise Unsupported('native len() of a byte string of symbolic length')

    def __bool__(self):
        n = self.zlen()
        if is_c(n):
            return cv(n) != 0
        return ctx().decide(n != 0)

    def __hash__(self):
        raise Unsupported('hash of a symbolic byte string')

    def __bytes__(self):
        raise Unsupported('native bytes() of a symbolic byte string')

    def __repr__(self): return '<bytes>'
    def __str__(self): return '<bytes>'
    def __format__(self, s): return '<bytes>'

    def __iter__(self):
        n = self.zlen()
        if not is_c(n):
            raise Unsupported('iteration over a byte string of symbolic length')
        return iter([self[k] for k in range(cv(n))])

    def __contains__(self, x):
        raise Unsupported('in on a symbolic byte string')

    def __add__(self, o):
        if isinstance(o, (bytes, bytearray, SymBytes)):
            return mkbytes(chunks_of(self) + chunks_of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray, SymBytes)):
            return mkbytes(chunks_of(o) + chunks_of(self))
        return NotImplemented

    def __mul__(self, k):
        if type(k) is int:
            return mkbytes(chunks_of(self) * k)
        if isinstance(k, SymInt):
            return repeat(self, k)
        raise Unsupported('bytes repeated a symbolic number of times')
    __rmul__ = __mul__

    def __eq__(self, o):
        if o is None:
            return False
        if isinstance(o, (bytes, bytearray, SymBytes)):
            return mkbool(ctx().rope_eq_formula(chunks_of(self), chunks_of(o)))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if type(r) is SymBool:
            return mkbool(z3.Not(r.e))
        return not r

    def __lt__(self, o):
        raise Unsupported('ordering of symbolic byte strings')
    __le__ = __gt__ = __ge__ = __lt__

    def __getitem__(self, k):
        if isinstance(k, slice):
            return rope_slice(self, k)
        c = ctx()
        n = self.zlen()
        e = zint(k)
        e = simp(e)
        if is_c(e) and is_c(n):
            i = cv(e)
            L = cv(n)
            if not -L <= i < L:
                raise IndexError('index out of range')
            return c.byte_of(self, i % L if i < 0 else i)
        if is_c(e) and cv(e) >= 0:
            if not c.decide(n > e):
                raise IndexError('index out of range')
            return c.byte_of(self, cv(e))
        if not c.decide(z3.And(e >= -n, e < n)):
            raise IndexError('index out of range')
        if c.decide(e < 0):
            e = simp(e + n)
        return c.byte_of(self, e)

    # -- methods used by code under verification
    def hex(self):
        return SymStr([('hex', self)])

    def startswith(self, p):
        return self[:len(p)] == p

    def endswith(self, p):
        if len(p) == 0:
            return True
        return self[-len(p):] == p

    def find(self, *a): raise Unsupported('bytes.find')
    def index(self, *a): raise Unsupported('bytes.index')
    def decode(self, *a): raise Unsupported('bytes.decode')
    def join(self, *a): raise Unsupported('symbolic bytes.join')
    def count(self, *a): raise Unsupported('bytes.count')
    def split(self, *a): raise Unsupported('bytes.split')

    def subst(self, sub):
        r = mkbytes([c2 for c in self.chunks for c2 in flat1(c.subst(sub))],
                    self.__dict__['cls'])
        if isinstance(r, SymBytes):
            for k, v in self.__dict__.items():
                if k not in ('chunks', 'cls'):
                    r.__dict__[k] = subst(v, sub)
        return r


class SymStr(Sym):
    """opaque text derived from symbolic data (hex dumps and messages)"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts

    @property
    def __class__(self):
        return str

    def __repr__(self): return '<str>'
    def __str__(self): return '<str>'
    def __format__(self, s): return '<str>'
    def __hash__(self): raise Unsupported('hash of a symbolic string')

    def __eq__(self, o):
        if o is self:
            return True
        if o is None:
            return False
        raise Unsupported('comparison of a symbolic string')

    def __len__(self): raise Unsupported('length of a symbolic string')

    def __add__(self, o): return SymStr(self.parts + [o])
    def __radd__(self, o): return SymStr([o] + self.parts)

    def __getattr__(self, n):
        if hasattr(str, n):
            raise Unsupported('str.%s on a symbolic string' % n)
        raise AttributeError(n)


class SymText(SymStr):
    """arbitrary text given as an input; only its length is known"""
    __slots__ = ('name', 'n')

    def __init__(self, name, n):
        SymStr.__init__(self, [self])
        self.name, self.n = name, n

    def __bool__(self):
        return ctx().decide(zint(self.n) > 0)

    def _pv_len(self):
        return self.n

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, Sym) or type(o) is not str or o:
            raise Unsupported('comparison of arbitrary text')
        return mkbool(zint(self.n) == 0)

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) and not isinstance(r, Sym) else mkbool(z3.Not(zbool(r)))

    __hash__ = SymStr.__hash__


def rope_slice(b, sl):
    c = ctx()
    if sl.step is not None and sl.step != 1:
        L = fixed_len(b.chunks)
        if L is None or type(sl.step) is not int:
            raise Unsupported('extended slice of a symbolic byte string')
        idx = range(L)[sl]
        return mkbytes([ch for i in idx for ch in c.rope_cut(list(b.chunks), i, 1)[0]])
    n = b.zlen()

    def bound(x, dflt):
        if x is None:
            return dflt
        e = simp(zint(x))
        if is_c(e):
            v = cv(e)
            if v >= 0:
                if is_c(n):
                    return z3.IntVal(min(v, cv(n)))
                if v == 0 or c.decide(n >= v):
                    return e
                return n
            if is_c(n):
                return z3.IntVal(max(0, cv(n) + v))
            if c.decide(n >= -v):
                return simp(n + v)
            return z3.IntVal(0)
        if c.decide(e < 0):
            e = simp(e + n)
            if c.decide(e < 0):
                return z3.IntVal(0)
            return e
        if c.decide(e <= n):
            return e
        return n
    a = bound(sl.start, z3.IntVal(0))
    z = bound(sl.stop, n)
    m = simp(z - a)
    if is_c(m):
        if cv(m) <= 0:
            return b''
    elif not c.decide(m > 0):
        return b''
    _, rest = c.rope_split(list(b.chunks), a)
    mid, _ = c.rope_split(rest, m)
    return mkbytes(mid)


def enc_int(v, n, endian, signed, exc):
    """v.to_bytes / struct.pack: splits on range"""
    c = ctx()
    e = zint(v)
    lo, hi = (-(1 << (8 * n - 1)), 1 << (8 * n - 1)) if signed else (0, 1 << (8 * n))
    if not c.decide(z3.And(e >= lo, e < hi)):
        raise exc('integer out of range')
    big = endian in ('big', '>', '!')
    o = getattr(v, 'origin', None) if type(v) is SymInt else None
    if o is not None and o[1] == big and o[2] == signed and fixed_len(o[0]) == n:
        return mkbytes(list(o[0]))
    if is_c(simp(e)):
        return cv(simp(e)).to_bytes(n, 'big' if big else 'little', signed=signed)
    if signed:
        e = z3.If(e < 0, e + (1 << (8 * n)), e)
    return mkbytes([IntB(e, n, big)])


def dec_int(b, n, big, signed):
    """value of the n-byte string b"""
    if not isinstance(b, Sym):
        return int.from_bytes(bytes(b), 'big' if big else 'little', signed=signed)
    c = ctx()
    ch = list(b.chunks)
    if len(ch) == 1 and type(ch[0]) is IntB and ch[0].n == n and (ch[0].big == big or n == 1):
        e = ch[0].e
        if signed and c.valid(e < (1 << (8 * n - 1))):
            r = mkint(e)
            if type(r) is SymInt:
                r.origin = (tuple(ch), big, True)
            return r
    else:
        bs = [zint(c.byte_of(b, k)) for k in range(n)]
        if big:
            bs = bs[::-1]
        e = z3.Sum([x if k == 0 else x * z3.IntVal(256 ** k) for k, x in enumerate(bs)]) \
            if n > 1 else bs[0]
    if signed:
        e = z3.If(e >= (1 << (8 * n - 1)), e - (1 << (8 * n)), e)
    r = mkint(e)
    if type(r) is SymInt:
        r.origin = (tuple(ch), big, signed)
    return r


def subst(v, sub, memo=None):
    """copy of v with index variables replaced"""
    if isinstance(v, Sym):
        return v.subst(sub) if hasattr(v, 'subst') else v
    if v is None or isinstance(v, (int, str, bytes, float, type)) and not type(v).__dict__.get('__slots__'):
        if not isinstance(v, (int, bytes)) or type(v) in (int, bool, bytes):
            return v
        return v
    if z3.is_expr(v):
        return zsub(v, sub)
    if memo is None:
        memo = {}
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, tuple):
        vals = [subst(x, sub, memo) for x in v]
        if all(a is b for a, b in zip(vals, v)):
            return v
        if hasattr(v, '_fields'):
            return tuple.__new__(type(v), vals)
        return tuple(vals)
    f = getattr(type(v), '_pv_subst', None)
    if f is not None:
        return f(v, sub, memo)
    if isinstance(v, list):
        r = list(subst(x, sub, memo) for x in v)
        return r
    d = obj_fields(v)
    if d is None:
        return v
    new = {k: subst(x, sub, memo) for k, x in d.items()}
    if all(new[k] is d[k] for k in d):
        return v
    return obj_make(type(v), new)


def obj_fields(v):
    """fields of an ordinary object, or None when it is opaque to the engine"""
    t = type(v)
    if t.__module__.startswith(('bitcointx', 'elementstx', 'specs', 'pv.absmodel')):
        d = {}
        for k in t.__mro__:
            s = k.__dict__.get('__slots__', ())
            for n in ([s] if isinstance(s, str) else s):
                if n in ('__dict__', '__weakref__') or n.startswith('_cached'):
                    continue
                try:
                    d[n] = object.__getattribute__(v, n)
                except AttributeError:
                    pass
        if hasattr(v, '__dict__'):
            d.update({k: x for k, x in v.__dict__.items() if not k.startswith('_cached')})
        return d
    return None


def obj_make(t, fields):
    o = object.__new__(t)
    for k, x in fields.items():
        object.__setattr__(o, k, x)
    return o


# ---------------------------------------------------------------------- Ctx

class Obligation:
    def __init__(self, name, ok, status, path, detail='', model=None):
        self.name, self.ok, self.status = name, ok, status
        self.path, self.detail, self.model = path, detail, model


class Frame:
    __slots__ = ('prefix', 'pos', 'pending', 'marks', 'nested', 'uid0', 'born')

    def __init__(self, prefix, nested, uid0=-1):
        self.uid0 = uid0
        self.born = {}             # id -> object created on this (nested) path
        self.prefix = prefix
        self.pos = 0
        self.pending = []
        self.nested = nested


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.cvc5_queries = 0
        self.cvc5_s = 0.0
        self.paths = 0
        self.by = {'simplifier': 0, 'z3': 0, 'cvc5': 0}
        self.unknown = 0


class Ctx:
    """one execution path (re-created for every path)"""

    def __init__(self, prefix, stats, timeout_ms=8000, max_decisions=4000):
        self.stats = stats
        self.timeout = timeout_ms
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.frames = [Frame(list(prefix), False)]
        self.conds = []               # asserted formulas, in order
        self.counter = {}
        self.fam = {}                 # uninterpreted function name -> info
        self.decls = {}
        self.sources = {}                # arbitrary inputs (SymS.source)
        self.foralls = []             # (lo, hi, fn(term)->formula)
        self.index_terms = {}         # id -> term
        self.seen = {}                # term id -> term (facts already given)
        self.index_stack = []         # generic loop indices we are inside of
        self.app_syms = {}
        self.sums = {}
        self.sum_bodies = {}
        self.nsumidx = 0
        self.inputs = {}
        self.obligations = []
        self.trace = []
        self.journal = []
        self.uid = 0
        self.dirty = None
        self.lemmas = set()
        self.dead_vars = set()     # index variables of finished loops
        self.live_segs = None      # segments with materialized objects
        self.seg_reads = None      # (segment, index) read in the current loop body
        self._seen_log = []
        self._index_log = []
        self.max_decisions = max_decisions
        self.ndec = 0
        self.memo = {}
        self.notes = []
        self.nostub = False           # verify the body of stubbed functions

    # ---- names
    def name(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return base if k == 0 else '%s!%d' % (base, k)

    def idx(self):
        return list(self.index_stack)

    def fn(self, name, nargs, rng=None, index=(), kind='int'):
        """declare an uninterpreted function Int^nargs -> Int|Bool"""
        d = self.decls.get(name)
        if d is None:
            s = z3.BoolSort() if kind == 'bool' else z3.IntSort()
            d = z3.Function(name, *([z3.IntSort()] * nargs + [s])) if nargs else z3.Const(name, s)
            self.decls[name] = d
            self.fam[name] = (rng, tuple(index), kind)
        elif d.arity() != nargs if not isinstance(d, z3.ExprRef) else nargs != 0:
            raise Unsupported('symbol %s declared twice' % name)
        return d

    def app(self, name, args, rng=None, index=None, kind='int'):
        if index is None:
            index = range(len(args))
        d = self.fn(name, len(args), rng, index, kind)
        if not args:
            return d
        return d(*[zlen(a) for a in args])

    def fresh_int(self, base, lo=None, hi=None):
        nm = self.name(base)
        e = self.app(nm, self.idx(), rng=(lo, hi))
        return e

    def fresh_bool(self, base):
        nm = self.name(base)
        return self.app(nm, self.idx(), kind='bool')

    def fresh_bytes(self, base, n=None, lo=0, hi=None):
        """new unknown byte string; n fixes its length"""
        nm = self.name(base)
        a = tuple(self.idx())
        if n is None:
            n = self.app(nm + '.len', a, rng=(lo, hi))
        elif not isinstance(n, int):
            n = simp(zint(n))
            n = cv(n) if is_c(n) else n
        self.fn(nm, len(a) + 1, (0, 255), range(len(a)))
        return mkbytes([Atom(nm, a, 0, n)])

    def byte_app(self, fnname, args, k):
        if fnname not in self.decls:
            self.fn(fnname, len(args) + 1, (0, 255), range(len(args)))
        return self.decls[fnname](*(list(args) + [zlen(k)]))

    def app_symbol(self, fname, key, chunk):
        """one byte function per distinct application of an external function;
        applications with syntactically equal arguments share it"""
        s = self.app_syms.get(key)
        if s is None:
            s = self.app_syms[key] = ('app.%s.%d' % (fname, len(self.app_syms)), ())
            self.fn(s[0], 1, (0, 255), ())
        return s

    def sum_term(self, i, body, lo, hi, nonneg=True, fold=False):
        canon = z3.Int('!bound')
        key = sx(zsub(body, [(i, canon)]))
        nm = self.sums.get(key)
        if nm is None:
            nm = self.sums[key] = 'sum!%d' % len(self.sums)
        t = self.app(nm, [lo, hi], rng=(0 if nonneg else None, None), index=())
        if fold:
            self.same_sums(nm, i, body, lo, hi, t)
        if nonneg and self.fam.get(nm, ((0, None),))[0] != (0, None):
            self.assume(t >= 0)
        return t

    def same_sums(self, nm, i, body, lo, hi, t):
        """two sums over the same range are equal when their summands are
        equal for an arbitrary index of the range"""
        for nm2, (j, body2, t2, lo2, hi2) in list(self.sum_bodies.items()):
            if nm2 == nm or not (zlen(lo).eq(zlen(lo2)) and zlen(hi).eq(zlen(hi2))):
                continue
            self.nsumidx += 1
            k = z3.Int('!sumidx%d' % self.nsumidx)
            if self.valid(z3.Implies(z3.And(zlen(lo) <= k, k < zlen(hi)),
                                     zsub(body, [(i, k)]) == zsub(body2, [(j, k)]))):
                self.assume(t == t2)
        self.sum_bodies[nm] = (i, body, t, lo, hi)

    # ---- facts
    def learn(self, e, add):
        """give the solver the range facts of every application in e"""
        todo = [e]
        seen, log = self.seen, self._seen_log
        while todo:
            for k, t, nm in uapps(todo.pop()):
                if k in seen:
                    continue
                seen[k] = t
                log.append(k)
                info = self.fam.get(nm)
                if info is not None:
                    rng, index, kind = info
                    if nm.startswith('sum!') and t.num_args() == 2:
                        # a sum over no index
                        add(z3.Implies(t.arg(0) >= t.arg(1), t == 0))
                    if rng is not None and kind == 'int':
                        lo, hi = rng
                        if lo is not None:
                            add(t >= zlen(lo))
                            if not isinstance(lo, int):
                                todo.append(lo)
                        if hi is not None:
                            add(t <= zlen(hi))
                            if not isinstance(hi, int):
                                todo.append(hi)
                    for p in index:
                        todo.extend(self.add_index(t.arg(p), add))

    def add_index(self, t, add):
        k = t.get_id()
        if k in self.index_terms:
            return []
        if len(self.index_terms) > 60:
            return []
        self.index_terms[k] = t
        self._index_log.append(k)
        out = []
        for fa in list(self.foralls):
            f = self.inst(fa, t)
            if f is not None:
                add(f)
                out.append(f)
        return out

    def inst(self, fa, t):
        lo, hi, fn = fa
        return z3.Implies(z3.And(zlen(lo) <= t, t < zlen(hi)), fn(t))

    def add_forall(self, lo, hi, fn):
        self.foralls.append((lo, hi, fn))
        for t in list(self.index_terms.values()):
            self._add(self.inst(self.foralls[-1], t))

    def _add(self, e):
        self.solver.add(e)
        self.learn(e, self.solver.add)

    def assume(self, c, decision=False):
        c = zbool(c)
        c = simp(c)
        if z3.is_true(c):
            return
        self.conds.append((c, decision))
        self._add(c)
        if z3.is_false(c):
            raise Infeasible()

    def push(self):
        self.solver.push()
        return (len(self.conds), len(self._seen_log), len(self._index_log),
                len(self.foralls))

    def pop(self, m):
        self.solver.pop()
        del self.conds[m[0]:]
        for k in self._seen_log[m[1]:]:
            self.seen.pop(k, None)
        del self._seen_log[m[1]:]
        for k in self._index_log[m[2]:]:
            self.index_terms.pop(k, None)
        del self._index_log[m[2]:]
        del self.foralls[m[3]:]

    # ---- solver
    def check(self, extra=None, timeout=None):
        self.stats.queries += 1
        t0 = time.time()
        m = self.push()
        try:
            if extra is not None:
                self._add(extra)
            if timeout:
                self.solver.set('timeout', timeout)
            r = self.solver.check()
            if r == z3.unknown:
                r = self._fresh_check()
            model = self.solver.model() if r == z3.sat and self._want_model else None
            self._model = model
            return r
        finally:
            if timeout:
                self.solver.set('timeout', self.timeout)
            self.pop(m)
            self.stats.solver_s += time.time() - t0

    _want_model = False
    _model = None

    def _fresh_check(self):
        s = z3.Solver()
        s.set('timeout', self.timeout)
        s.add(self.solver.assertions())
        r = s.check()
        if r == z3.sat and self._want_model:
            self.solver = s2 = self.solver
            self._model = s.model()
        return r

    def sat(self, e=None):
        """False only if proven infeasible"""
        return self.check(e) != z3.unsat

    def valid(self, e):
        e = simp(zbool(e))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return not self.sat()
        return self.check(z3.Not(e)) == z3.unsat

    def decide(self, e, tag=None):
        e = simp(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        fr = self.frames[-1]
        if fr.pos < len(fr.prefix):
            v, forced, _ = fr.prefix[fr.pos]
            fr.pos += 1
            if not forced:
                self.assume(e if v else z3.Not(e), True)
            return v
        self.ndec += 1
        if self.ndec > self.max_decisions:
            raise Unsupported('too many decisions on one path')
        if time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        t = self.sat(e)
        if not t:
            # infeasible paths are discovered here, too
            fr.prefix.append((False, True, tag))
            fr.pos += 1
            return False
        f = self.sat(z3.Not(e))
        if not f:
            fr.prefix.append((True, True, tag))
            fr.pos += 1
            return True
        fr.pending.append(fr.prefix + [(False, False, tag)])
        fr.prefix.append((True, False, tag))
        fr.pos += 1
        self.assume(e, True)
        return True

    deadline = float('inf')

    def concretize(self, v, limit=300):
        """split on the value of a symbolic integer with a small range"""
        if not isinstance(v, Sym):
            return v
        e = simp(zint(v))
        if is_c(e):
            return cv(e)
        for _ in range(limit):
            fr = self.frames[-1]
            if fr.pos < len(fr.prefix):
                cand = fr.prefix[fr.pos][2]
            else:
                self._want_model = True
                try:
                    if self.check() != z3.sat:
                        raise Infeasible()
                    cand = self._model.eval(e, model_completion=True).as_long()
                finally:
                    self._want_model = False
            if self.decide(e == cand, cand):
                return cand
        raise Unsupported('too many values')

    # ---- nested exploration
    def explore(self, thunk, on_path, max_paths=3000, stop=None):
        """run thunk on all paths that extend the current one; after each,
        call on_path(kind, value, conds) and undo everything it did"""
        work = [[]]
        n = 0
        cnt0 = dict(self.counter)
        cntmax = dict(self.counter)
        while work:
            prefix = work.pop()
            n += 1
            if n > max_paths:
                raise Unsupported('too many paths in a nested exploration')
            fr = Frame(prefix, True, self.uid)
            self.frames.append(fr)
            m = self.push()
            j = len(self.journal)
            c0 = len(self.conds)
            istk = list(self.index_stack)
            # the same unknowns get the same names on every sibling path
            self.counter = dict(cnt0)
            try:
                v = None
                try:
                    v = thunk()
                    kind = 'ok'
                except Infeasible:
                    kind = 'infeasible'
                except EngineStop:
                    raise
                except Exception as ex:
                    kind, v = 'exc', ex
                if kind != 'infeasible':
                    try:
                        on_path(kind, v, list(self.conds[c0:]))
                    except Infeasible:
                        pass
            finally:
                self.undo(j)
                self.pop(m)
                self.frames.pop()
                self.index_stack = istk
                for k, x in self.counter.items():
                    if cntmax.get(k, 0) < x:
                        cntmax[k] = x
            work.extend(fr.pending)
            if stop is not None and stop():
                break
        self.counter = cntmax
        return n

    def undo(self, j):
        while len(self.journal) > j:
            self.journal.pop()()

    # ---- ropes
    def byte_of(self, b, k):
        ch = list(b.chunks)
        while True:
            e = rope_byte(ch, k)
            if e is not None:
                return mkint(e)
            # open the first unresolved chunk
            for q, c in enumerate(ch):
                n = c.len()
                if is_c(n) if not isinstance(n, int) else True:
                    if type(c) not in (IteR, Enc):
                        continue
                ch = ch[:q] + self.open_chunk(c) + ch[q + 1:]
                ch = norm(ch)
                break
            else:
                raise Unsupported('byte at a symbolic position')

    def open_chunk(self, c):
        """resolve a chunk of symbolic shape by splitting the path"""
        if type(c) is IteR:
            return list(c.a) if self.decide(c.c) else list(c.b)
        if type(c) is VarI:
            return c.expand()
        if type(c) is Enc:
            return list(c.rope)
        if type(c) is FMap:
            if self.decide(c.lo < c.hi):
                return c.at(c.lo) + [FMap(c.i, c.body, simp(c.lo + 1), c.hi)]
            return []
        n = c.len()
        if isinstance(n, int):
            raise Unsupported('cannot open chunk')
        if self.decide(n == 0):
            return []
        if type(c) is Atom:
            m = self.concretize(mkint(n))
            return [Atom(c.fn, c.args, c.off, m)]
        raise Unsupported('cannot open chunk')

    def same_len(self, a, b):
        """is len a == len b? decided by validity"""
        d = simp(zlen(a) - zlen(b))
        if is_c(d):
            return cv(d) == 0
        return self.valid(d == 0)

    def rope_split(self, chunks, n):
        """split at offset n (0 <= n <= len)"""
        out = []
        rest = list(chunks)
        n = simp(zlen(n))
        guard = 0
        while True:
            guard += 1
            if guard > 2000:
                raise Unsupported('rope split does not terminate')
            if is_c(n) and cv(n) == 0:
                return norm(out), norm(rest)
            if not rest:
                # n must be 0 here
                return norm(out), []
            c = rest[0]
            L = c.len()
            if not isinstance(L, int):
                L = simp(L)
            d = simp(zlen(L) - n)
            if is_c(d):
                rel = 'eq' if cv(d) == 0 else ('lt' if cv(d) < 0 else 'gt')
            elif self.valid(d == 0):
                rel = 'eq'
            elif self.valid(d <= 0):
                rel = 'lt'
            elif type(c) in (IteR, VarI, Enc):
                rest = self.open_chunk(c) + rest[1:]
                continue
            elif self.valid(d > 0):
                rel = 'gt'
            elif type(c) is FMap:
                rest = self.open_chunk(c) + rest[1:]
                continue
            elif self.decide(d == 0):
                rel = 'eq'
            elif self.decide(d < 0):
                rel = 'lt'
            else:
                rel = 'gt'
            if rel == 'eq':
                out.append(c)
                return norm(out), norm(rest[1:])
            if rel == 'lt':
                out.append(c)
                n = simp(n - zlen(L))
                rest = rest[1:]
                continue
            # split inside c
            k = cv(n) if is_c(n) else n
            m = d
            m = cv(m) if is_c(m) else m
            a = c.cut(0, k)
            if a is None:
                if type(c) is Enc:
                    rest = self.open_chunk(c) + rest[1:]
                    continue
                if type(c) is Lit and len(set(c.b)) == 1 and len(c.b) > 16:
                    # a run of one byte, cut at an unknown place
                    nm = 'run.%d' % c.b[0]
                    self.fn(nm, 1, (c.b[0], c.b[0]), ())
                    run = Atom(nm, (), 0, len(c.b))
                    out.append(run.cut(0, k))
                    return norm(out), norm([run.cut(k, m)] + rest[1:])
                if type(c) in (Lit, IntB, App):
                    k = self.concretize(mkint(n))
                    a, b = c.cut(0, k), c.cut(k, c.len() - k)
                    out.append(a)
                    return norm(out), norm([b] + rest[1:])
                rest = self.open_chunk(c) + rest[1:]
                continue
            b = c.cut(k, m)
            out.append(a)
            return norm(out), norm([b] + rest[1:])

    def rope_cut(self, chunks, a, n):
        _, r = self.rope_split(chunks, a)
        x, r = self.rope_split(r, n)
        return x, r

    def rope_eq_formula(self, A, B, depth=0):
        """formula for equality usable in both polarities (no skolems); may split"""
        A, B = norm(A), norm(B)
        la, lb = simp(rope_len(A)), simp(rope_len(B))
        if is_c(la) and is_c(lb):
            if cv(la) != cv(lb):
                return z3.BoolVal(False)
        if len(A) == len(B) and all(x.key() == y.key() for x, y in zip(A, B)):
            return z3.BoolVal(True)
        if not (is_c(la) and is_c(lb)):
            if not self.decide(la == lb):
                return z3.BoolVal(False)
            if is_c(la) or is_c(lb):
                n = cv(la) if is_c(la) else cv(lb)
                if n == 0:
                    return z3.BoolVal(True)
        # common chunk-wise comparison
        conds = []
        A, B = list(A), list(B)
        while A and B:
            a, b = A[0], B[0]
            if a.key() == b.key():
                A, B = A[1:], B[1:]
                continue
            if type(a) in (IteR, Enc):
                A = norm(self.open_chunk(a) + A[1:]); continue
            if type(b) in (IteR, Enc):
                B = norm(self.open_chunk(b) + B[1:]); continue
            na, nb = a.len(), b.len()
            na = na if isinstance(na, int) else simp(na)
            nb = nb if isinstance(nb, int) else simp(nb)
            if is_c(na) and is_c(nb):
                n = min(cv(na), cv(nb))
                x, A2 = self.rope_split(A, n)
                y, B2 = self.rope_split(B, n)
                if len(x) == 1 and len(y) == 1 and type(x[0]) is App and type(y[0]) is App \
                        and x[0].fname == y[0].fname and x[0].off == y[0].off and n == x[0].full:
                    # equality of two hash outputs: equal inputs => equal
                    pass
                for k in range(n):
                    conds.append(rope_byte(x, k) == rope_byte(y, k))
                A, B = A2, B2
                continue
            # symbolic lengths: a named predicate per pair
            key = repr((tuple(c.key() for c in A), tuple(c.key() for c in B)))
            nm = self.memo.get(('beq', key))
            if nm is None:
                nm = self.memo[('beq', key)] = self.name('beq')
            conds.append(self.app(nm, self.idx(), kind='bool'))
            self.notes.append('opaque byte-string equality')
            A = B = []
        return z3.And(conds) if conds else z3.BoolVal(True)

    # ---- obligations on equality
    def eq_conds(self, A, B, out):
        """append to out formulas whose conjunction is valid iff A == B
        (universally quantified positions are skolemised); may split paths"""
        A, B = norm(A), norm(B)
        guard = 0
        while True:
            guard += 1
            if guard > 5000:
                raise Unsupported('rope comparison does not terminate')
            if not A and not B:
                return
            if A and type(A[0]) is FMap and self.valid(A[0].hi <= A[0].lo):
                A = A[1:]
                continue
            if B and type(B[0]) is FMap and self.valid(B[0].hi <= B[0].lo):
                B = B[1:]
                continue
            if not A or not B:
                out.append(simp(rope_len(A or B)) == 0)
                return
            a, b = A[0], B[0]
            if a is b or a.key() == b.key():
                A, B = A[1:], B[1:]
                continue
            ta, tb = type(a), type(b)
            if ta is IteR or ta is Enc:
                A = norm(self.open_chunk(a) + A[1:]); continue
            if tb is IteR or tb is Enc:
                B = norm(self.open_chunk(b) + B[1:]); continue
            if ta is VarI and tb is VarI:
                # injective prefix code: equal strings iff equal numbers
                out.append(a.e == b.e)
                A, B = A[1:], B[1:]
                continue
            if ta is FMap and tb is FMap:
                ok = self.valid(z3.And(a.lo == b.lo, a.hi == b.hi))
                shift = simp(b.lo - a.lo)
                if not ok and self.valid(a.hi - a.lo == b.hi - b.lo):
                    ok = True
                if ok:
                    # an arbitrary position of the two mappings
                    k = self.fresh_index()

                    def elements(o, a=a, b=b, k=k, shift=shift):
                        if self.decide(z3.And(a.lo <= k, k < a.hi)):
                            self.eq_conds(a.at(k), b.at(simp(k + shift)), o)
                    if self.lemma((a.key(), b.key()), elements):
                        A, B = A[1:], B[1:]
                        continue
                    if self.decide(z3.And(a.lo <= k, k < a.hi)):
                        self.eq_conds(a.at(k), b.at(simp(k + shift)), out)
                    A, B = A[1:], B[1:]
                    continue
                # the common positions, then the others of the longer side
                if self.valid(z3.And(a.lo < a.hi, b.lo < b.hi)) or self.decide(z3.And(a.lo < a.hi, b.lo < b.hi)):
                    na, nb = simp(a.hi - a.lo), simp(b.hi - b.lo)
                    if self.valid(na <= nb) or self.decide(na <= nb):
                        m = simp(b.lo + na)
                        B = [FMap(b.i, b.body, b.lo, m), FMap(b.i, b.body, m, b.hi)] + B[1:]
                    else:
                        m = simp(a.lo + nb)
                        A = [FMap(a.i, a.body, a.lo, m), FMap(a.i, a.body, m, a.hi)] + A[1:]
                    continue
                if self.decide(a.lo < a.hi):
                    A = norm(self.open_chunk(a) + A[1:])
                    if not self.decide(b.lo < b.hi):
                        B = B[1:]
                    continue
                A = A[1:]
                continue
            if ta is VarI and tb is not FMap:
                A = norm(a.expand() + A[1:]); continue
            if tb is VarI and ta is not FMap:
                B = norm(b.expand() + B[1:]); continue
            if ta is FMap:
                A = norm(self.open_chunk(a) + A[1:])
                self.ndec += 20
                continue
            if tb is FMap:
                B = norm(self.open_chunk(b) + B[1:])
                self.ndec += 20
                continue
            na, nb = a.len(), b.len()
            d = simp(zlen(na) - zlen(nb))
            if is_c(d):
                rel = 0 if cv(d) == 0 else (1 if cv(d) > 0 else -1)
            elif self.valid(d == 0):
                rel = 0
            elif self.decide(d == 0):
                rel = 0
            elif self.decide(d > 0):
                rel = 1
            else:
                rel = -1
            if rel == 1:
                x, r = self.rope_split([a], nb)
                A = norm(r + A[1:])
                if len(x) != 1:
                    A = norm(x + r + A[1:]); continue
                a = x[0]
                B = B[1:]
            elif rel == -1:
                y, r = self.rope_split([b], na)
                B = norm(r + B[1:])
                if len(y) != 1:
                    B = norm(y + r + B[1:]); continue
                b = y[0]
                A = A[1:]
            else:
                A, B = A[1:], B[1:]
            self.eq_chunk(a, b, out)

    def lemma(self, key, f):
        """f collects conditions (and may split paths); True if all of them are
        valid here.  The splits stay local."""
        if key in self.lemmas:
            return True
        bad = []

        def thunk():
            out = []
            f(out)
            return out

        def on_path(kind, v, conds):
            if bad:
                return
            if kind != 'ok':
                raise v
            e = simp(z3.And(v)) if v else z3.BoolVal(True)
            if not z3.is_true(e):
                if self.prove(e)[0] not in ('unsat', 'unsat-cvc5'):
                    bad.append(e)
        self.explore(thunk, on_path, stop=lambda: bad)
        if bad:
            return False
        self.lemmas.add(key)
        self.journal.append(lambda: self.lemmas.discard(key))
        return True

    def fresh_index(self):
        e = self.app(self.name('k'), self.idx())
        return e

    def compute(self, c):
        """Lit for the value of an application whose arguments are constants
        on this path, or None"""
        from .models import REAL
        real = REAL.get(c.fname)
        if real is None or not (isinstance(c.off, int) and isinstance(c.n, int)):
            return None
        args = []
        for x in c.args:
            if isinstance(x, Sym):
                if type(x) is not SymBytes:
                    return None
                b = b''
                for ch in x.chunks:
                    if type(ch) is App:
                        ch = self.compute(ch)
                    elif type(ch) is not Lit:
                        if self.valid(ch.lo >= ch.hi if type(ch) is FMap else zlen(ch.len()) == 0):
                            continue
                        ch = None
                    if ch is None:
                        return None
                    b += ch.b
                x = b
            args.append(x)
        return Lit(real(*args)[c.off:c.off + c.n])

    def same_int(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return self.valid(zlen(a) == zlen(b))

    def eq_chunk(self, a, b, out):
        ta, tb = type(a), type(b)
        if ta is App and tb is Lit:
            a, b, ta, tb = b, a, tb, ta
        if ta is Lit and tb is App:
            x = self.compute(b)
            if x is not None:
                b, tb = x, Lit
        n = a.len()
        n = n if isinstance(n, int) else simp(n)
        if ta is Lit and tb is Lit:
            out.append(z3.BoolVal(a.b == b.b))
            return
        if ta is IntB and tb is IntB and a.n == b.n and (a.big == b.big or a.n == 1):
            out.append(a.e == b.e)
            return
        if ta is IntB and tb is Lit:
            a, b, ta, tb = b, a, tb, ta
        if ta is Lit and tb is IntB:
            out.append(b.e == int.from_bytes(a.b, 'big' if b.big else 'little'))
            return
        if ta is Atom and tb is Atom and a.fn == b.fn:
            same = [x == y for x, y in zip(a.args, b.args)] + [zlen(a.off) == zlen(b.off)]
            if self.valid(z3.And(same)):
                return
        if ta is App and tb is App and a.fname == b.fname and self.same_int(a.off, b.off) \
                and len(a.args) == len(b.args):
            # congruence: equal arguments give equal results; different
            # arguments are reported (a hash collision is not a proof)
            def arguments(o):
                for x, y in zip(a.args, b.args):
                    self.eq_val(x, y, o)
            if not self.lemma((a.key(), b.key()), arguments):
                arguments(out)
            return
        if is_c(n):
            n = cv(n)
            if n <= 8 and (ta is IntB or tb is IntB):
                c = a if ta is IntB else b
                o = b if ta is IntB else a
                v = dec_int(SymBytes([o]), n, c.big, False)
                out.append(c.e == zint(v))
                return
            for k in range(n):
                out.append(a.byte(k) == b.byte(k))
            return
        k = self.fresh_index()
        out.append(z3.Implies(z3.And(k >= 0, k < n), a.byte(k) == b.byte(k)))

    def eq_val(self, x, y, out):
        if isinstance(x, (bytes, bytearray, SymBytes)) and isinstance(y, (bytes, bytearray, SymBytes)):
            self.eq_conds(chunks_of(x), chunks_of(y), out)
        elif isinstance(x, bool) and isinstance(y, bool):
            out.append(zbool(x) == zbool(y))
        elif isinstance(x, int) and isinstance(y, int):
            out.append(zint(x) == zint(y))
        elif isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)) and \
                not hasattr(x, '_pv_segments') and not hasattr(y, '_pv_segments'):
            if len(x) != len(y):
                out.append(z3.BoolVal(False))
            else:
                for p, q in zip(x, y):
                    self.eq_val(p, q, out)
        elif x is None or y is None:
            out.append(z3.BoolVal(x is y))
        else:
            r = (x == y)
            out.append(zbool(r))


def dead_index(c, e):
    return any(v.decl().name() in c.dead_vars for v in free_vars(e))


def free_vars(e):
    r, todo, seen = [], [e], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r.append(t)
        todo.extend(t.children())
    return r


def free_ints(e):
    seen, out, todo = set(), [], [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(t)
        todo.extend(t.children())
    return out


# ------------------------------------------------------------- obligations

def _prove(self, e):
    """('unsat', None) when e follows from the path; ('sat', tables) with a
    model of a violation; ('unknown', None)"""
    self.stats.queries += 1
    t0 = time.time()
    m = self.push()
    try:
        self._add(z3.Not(e))
        r = self.solver.check()
        if r == z3.unknown:
            r = self._fresh_check()
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.unknown:
            if self._cvc5_unsat():
                return 'unsat-cvc5', None
            self.stats.unknown += 1
            return 'unknown', None
        # prefer a small counterexample
        model = None
        lens = [t for t in self.seen.values() if z3.is_app(t) and
                t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() == z3.IntSort() and
                t.decl().name().endswith(('.n', '.len'))]
        for bound in (2, 40, 300, 3000):
            self.solver.push()
            try:
                for t in lens:
                    self.solver.add(t <= (min(bound, 4) if t.decl().name().endswith('.n') else bound))
                self.solver.set('timeout', 3000)
                if self.solver.check() == z3.sat:
                    model = self.solver.model()
                    break
            finally:
                self.solver.set('timeout', self.timeout)
                self.solver.pop()
        if model is None:
            if self.solver.check() != z3.sat:
                return 'sat', {}
            model = self.solver.model()
        t = export_model(model)
        for nm, f in self.sources.items():
            if nm.endswith('.key') or f is None:
                continue
            try:
                b = rope_value(model, f.done + f.rest)
            except EngineStop:
                continue
            if b is not None:
                t[nm] = {'map': {}, 'else': b.hex()}
        return 'sat', t
    finally:
        self.pop(m)
        self.stats.solver_s += time.time() - t0


Ctx.prove = _prove


def rope_value(model, rope, limit=70000):
    """the byte string that a rope stands for in a model, or None"""
    def num(e):
        if isinstance(e, int):
            return e
        v = model.eval(e, model_completion=True)
        return v.as_long() if z3.is_int_value(v) else None

    out = bytearray()
    todo = list(rope)
    while todo:
        ch = todo.pop(0)
        if type(ch) is IteR:
            v = z3.is_true(model.eval(ch.c, model_completion=True))
            todo[:0] = list(ch.a if v else ch.b)
        elif type(ch) is Enc:
            todo[:0] = list(ch.rope)
        elif type(ch) is FMap:
            lo, hi = num(ch.lo), num(ch.hi)
            if lo is None or hi is None or hi - lo > 300:
                return None
            todo[:0] = [y for j in range(lo, hi) for y in ch.at(z3.IntVal(j))]
        elif type(ch) is VarI:
            v = num(ch.e)
            if v is None:
                return None
            out += mkvarint_chunk(z3.IntVal(v)).b
        elif type(ch) is Lit:
            out += ch.b
        elif type(ch) is Atom:
            n, off = num(ch.n), num(ch.off)
            args = [num(a) for a in ch.args]
            if n is None or off is None or None in args or n > limit:
                return None
            f = CTX.decls.get(ch.fn)
            for k in range(n):
                v = num(f(*[z3.IntVal(a) for a in args], z3.IntVal(off + k))) if f is not None else 0
                out.append((v or 0) % 256)
        else:
            n = num(ch.len())
            if n is None or n > limit:
                return None
            for k in range(n):
                out.append((num(ch.byte(k)) or 0) % 256)
        if len(out) > limit:
            return None
    return bytes(out)


def export_model(model):
    out = {}

    def val(v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return 0
    for d in model.decls():
        nm = d.name()
        if not nm.startswith('in.'):
            continue
        try:
            if d.arity() == 0:
                out[nm] = {'map': {'': val(model[d])}, 'else': val(model[d])}
                continue
            fi = model[d]
            mp = {}
            if isinstance(fi, z3.FuncInterp):
                for k in range(fi.num_entries()):
                    en = fi.entry(k)
                    mp[','.join(str(val(en.arg_value(j))) for j in range(en.num_args()))] = val(en.value())
                el = val(fi.else_value())
            else:
                el = 0
            out[nm] = {'map': mp, 'else': el}
        except z3.Z3Exception:
            continue
    return out


def _cvc5_unsat(self):
    """second back end, for queries z3 does not decide"""
    self.stats.cvc5_queries += 1
    t0 = time.time()
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        s = z3.Solver()
        s.add(self.solver.assertions())
        with os.fdopen(fd, 'w') as f:
            f.write('(set-logic ALL)\n' + s.to_smt2())
        try:
            r = subprocess.run(['cvc5', '--tlimit=%d' % max(self.timeout, 10000), '--nl-ext-tplanes', p],
                               capture_output=True, text=True, timeout=60)
            return r.stdout.strip().startswith('unsat')
        except (OSError, subprocess.TimeoutExpired):
            return False
    finally:
        os.unlink(p)
        self.stats.cvc5_s += time.time() - t0


Ctx._cvc5_unsat = _cvc5_unsat
