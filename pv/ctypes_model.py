"""Models of the ctypes objects that the code under verification passes to
libsecp256k1: buffers, integers by value and by reference, arrays."""
import ctypes
import typing
from . import sym, models, hooks
from .models import Model
from .sym import Unsupported, mkbytes, chunks_of, zint, mkint, simp, Sym

BITS = {}
for _t, _b, _s in ((ctypes.c_int, 32, True), (ctypes.c_uint, 32, False), (ctypes.c_size_t, 64, False),
                   (ctypes.c_uint64, 64, False), (ctypes.c_uint8, 8, False), (ctypes.c_int64, 64, True),
                   (ctypes.c_uint32, 32, False), (ctypes.c_uint16, 16, False)):
    BITS[id(_t)] = (_b, _s)


def wrap(v, bits, signed):
    """what a C integer of that width holds"""
    import z3
    if not isinstance(v, int):
        raise TypeError('an integer is required')
    if not isinstance(v, Sym):
        v %= 1 << bits
        return v - (1 << bits) if signed and v >> (bits - 1) else v
    e = zint(v)
    lo, hi = (-(1 << (bits - 1)), 1 << (bits - 1)) if signed else (0, 1 << bits)
    if sym.ctx().valid(z3.And(e >= lo, e < hi)):
        return v
    m = e % (1 << bits)
    return mkint(simp(z3.If(m >= (1 << (bits - 1)), m - (1 << bits), m) if signed else m))


class SymCBuf(Model):
    """array of c_char"""

    def __init__(self, data):
        self.__dict__['buf'] = chunks_of(data)
        self._pv_init()

    def _pv_state(self):
        return list(self.buf)

    def _pv_restore(self, st):
        self.__dict__['buf'] = list(st)

    @property
    def raw(self):
        return mkbytes(self.buf)

    def put(self, data):
        """overwrite the beginning"""
        self._pv_touch()
        n = hooks.call(len, data)
        self.__dict__['buf'] = sym.norm(chunks_of(data) + chunks_of(hooks.getitem(self.raw, slice(n, None))))

    def _pv_len(self):
        return hooks.call(len, self.raw)

    def __len__(self):
        return len(self.raw)

    def _pv_bytes(self):
        return self.raw

    def __getitem__(self, k):
        return hooks.getitem(self.raw, k)

    def subst(self, sub):
        return self


class SymCVal(Model):
    """an integer of a C type"""

    def __init__(self, t, v):
        self.__dict__['ctype'] = t
        self.__dict__['v'] = v
        self._pv_init()

    def _pv_state(self):
        return self.v

    def _pv_restore(self, st):
        self.__dict__['v'] = st

    @property
    def value(self):
        return self.v

    @value.setter
    def value(self, v):
        self._pv_touch()
        self.__dict__['v'] = v if v is None else wrap(v, *BITS.get(id(self.ctype), (64, False)))

    def subst(self, sub):
        return self


class SymCArr(Model):
    def __init__(self, t, vals):
        self.__dict__['ctype'] = t
        self.__dict__['items'] = list(vals)
        self._pv_init()

    def _pv_state(self):
        return list(self.items)

    def _pv_restore(self, st):
        self.__dict__['items'] = list(st)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, k):
        return self.items[k]

    def __setitem__(self, k, v):
        self._pv_touch()
        self.items[k] = convert(self.ctype, v)

    def subst(self, sub):
        return self


class Ref:
    def __init__(self, target):
        self.target = target


class CharP:
    def __init__(self, buf):
        self.target = buf


def convert(t, v):
    if id(t) in BITS:
        return wrap(v, *BITS[id(t)])
    if t is ctypes.c_char_p:
        if v is None or isinstance(v, bytes) or type(v) is CharP:
            return v
        raise TypeError('bytes or integer address expected instead of %s instance' % v.__class__.__name__)
    raise Unsupported('array of %s' % t.__name__)


def array(t, vals):
    if len(vals) > t._length_:
        raise IndexError('invalid index')
    z = 0 if id(t._type_) in BITS else None
    return SymCArr(t._type_, [convert(t._type_, v) for v in vals] + [z] * (t._length_ - len(vals)))


def install():
    H = hooks.HOOKS

    def reg(f, g):
        H[id(f)] = (f, g)

    def create(init, size=None):
        if sym.CTX is None:
            return ctypes.create_string_buffer(init, size)
        if isinstance(init, bytes):
            b = SymCBuf(b'')
            n = hooks.call(len, init)
            if size is None:
                data = init + b'\x00'
            else:
                if not bool(size >= n):
                    raise ValueError('byte string too long')
                data = init + zeros(size - n)
            return SymCBuf(data)
        if isinstance(init, int):
            return SymCBuf(zeros(init))
        raise TypeError(init)
    reg(ctypes.create_string_buffer, create)

    def zeros(n):
        if not isinstance(n, Sym):
            return b'\x00' * n
        e = simp(zint(n))
        if sym.is_c(e):
            return b'\x00' * sym.cv(e)
        c = sym.ctx()
        nm = c.name('buffer')
        c.fn(nm, 1, (0, 255), ())
        return mkbytes([sym.Atom(nm, (), 0, e)])

    def mk(t):
        def f(v=0):
            if sym.CTX is None:
                return t(v)
            return SymCVal(t, wrap(v, *BITS[id(t)]))
        return f
    for t in (ctypes.c_int, ctypes.c_uint, ctypes.c_size_t, ctypes.c_uint64, ctypes.c_uint8, ctypes.c_int64):
        reg(t, mk(t))

    def vp(v=None):
        return ctypes.c_void_p(v) if sym.CTX is None else SymCVal(ctypes.c_void_p, v)
    reg(ctypes.c_void_p, vp)

    def byref(x, off=0):
        if sym.CTX is None:
            return ctypes.byref(x, off)
        if off or not isinstance(x, (SymCVal, SymCBuf)):
            raise Unsupported('byref')
        return Ref(x)
    reg(ctypes.byref, byref)
    reg(ctypes.pointer, lambda x: byref(x) if sym.CTX is not None else ctypes.pointer(x))

    def cast(x, t):
        if sym.CTX is None or not isinstance(x, SymCBuf):
            return ctypes.cast(x, t)
        if t is ctypes.c_char_p:
            return CharP(x)
        raise Unsupported('ctypes.cast')
    reg(ctypes.cast, cast)
    reg(typing.cast, lambda t, v: v)
