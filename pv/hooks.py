"""What rewritten code calls: the semantics of calls, subscripts, `in`, string
formatting, displays and loops on possibly symbolic values."""
import builtins
import ctypes
import functools
import binascii
import hashlib
import hmac
import io
import operator
import os
import struct
import types
import unicodedata
import z3
from . import sym, models
from .sym import (Sym, SymBytes, SymInt, SymBool, SymStr, Unsupported, Lit, IntB, EngineStop,
                  ctx, zint, zbool, mkint, mkbool, mkbytes, chunks_of, simp, is_c, cv,
                  enc_int, dec_int, rope_len, Infeasible)
from .models import (SymList, SymIter, SymRange, SymIO, SymHash, SymHMAC, SymBuf, MapSeg,
                     seq_parts, seq_items, is_symseq, uf_bytes)

FUNC_STUBS = {}     # id(function or class) -> contract used instead of the body (pv.stubs)
HOOKS = {}          # id(callable) -> (callable, replacement)
CLASS_HOOKS = {}    # id(class) -> replacement constructor


def hook(*fs):
    def deco(g):
        for f in fs:
            HOOKS[id(f)] = (f, g)
        return g
    return deco


def is_sym(x):
    return isinstance(x, Sym)


def deep_sym(args, kw):
    for a in args:
        if isinstance(a, Sym):
            return True
        if type(a) in (tuple, list) and any(isinstance(x, Sym) for x in a):
            return True
    for a in kw.values():
        if isinstance(a, Sym):
            return True
    return False


# --------------------------------------------------------------- call hook

NATIVE_OK = {
    'append', 'insert', 'extend', 'pop', 'clear', 'setdefault', 'update', 'items', 'keys',
    'values', 'copy', 'reverse', 'format', '__init__', '__init_subclass__', '__setattr__',
    '__getattribute__', '__set_name__', 'set', 'get', '__new__', '__get__',
}

_fn_types = (types.FunctionType, types.MethodType)
_builtin_types = (types.MethodWrapperType, types.BuiltinFunctionType, type(object.__init__), type(object().__str__),
                  types.MethodDescriptorType, types.ClassMethodDescriptorType)
SAFE_BUILTINS = {id(f): f for f in (
    isinstance, issubclass, callable, getattr, setattr, hasattr, id, print, repr,
    object.__setattr__, object.__init__, object.__new__, type.__call__, type.__getattribute__,
    iter, next, functools.partial, functools.wraps, operator.attrgetter)}
SAFE_CLASSES = {id(c): c for c in (type, super, object, dict, BaseException, property,
                                   staticmethod, classmethod, types.SimpleNamespace)}

EXTRA_PY_OK = set()      # modules whose Python functions may see symbolic values


def usable(h):
    ns = sym.CTX.nostub
    return not ns or (ns is not True and h.__name__ not in ns)


def call(f, *a, **k):
    h = HOOKS.get(id(f))
    if h is not None and h[0] is f:
        return h[1](*a, **k)
    t = type(f)
    if t.__name__ == '_NoBoolCallable' and t.__module__ == 'bitcointx.util':
        f = f.method
        t = type(f)
    if t is types.MethodType and f.__func__ is SymBytes.__init__:
        s = f.__self__
        i = (s.cls or bytes).__init__
        return None if i is object.__init__ else call(i, s, *a, **k)
    if t is types.FunctionType or t is types.MethodType:
        if sym.CTX is not None and FUNC_STUBS:
            g = f
            while type(g) is types.FunctionType and g.__closure__ and g.__code__.co_name == 'wrapper' \
                    and 'fn' in g.__code__.co_freevars:
                # class dispatcher wrappers of python-bitcointx
                g = g.__closure__[g.__code__.co_freevars.index('fn')].cell_contents
            h = FUNC_STUBS.get(id(g.__func__ if type(g) is types.MethodType else g))
            if h is not None and usable(h):
                r = h(*((g.__self__,) + a if type(g) is types.MethodType else a), **k)
                if r is not NotImplemented:
                    return r
        if deep_sym(a, k):
            g = f.__func__ if t is types.MethodType else f
            if type(g) is types.FunctionType and not module_ok(g.__globals__.get('__name__', '')):
                raise Unsupported('symbolic argument to %s.%s' % (g.__module__, g.__qualname__))
        return f(*a, **k)
    if isinstance(f, type):
        h = FUNC_STUBS.get(id(f))
        if h is not None and sym.CTX is not None and usable(h):
            r = h(f, *a, **k)
            if r is not NotImplemented:
                return r
        if sym.CTX is not None and issubclass(f, ctypes.Array):
            from . import ctypes_model
            return ctypes_model.array(f, a)
        if deep_sym(a, k):
            if issubclass(f, BaseException) or id(f) in SAFE_CLASSES:
                return f(*a, **k)
            if f.__module__ in ('builtins', 'ctypes', '_ctypes', 'io', '_io', 'decimal', 'collections'):
                raise Unsupported('symbolic argument to %s' % f.__name__)
        r = f(*a, **k)
        if type(r) is SymBytes and type(f).__call__ is type.__call__:
            init_bytes(f, r, a, k)
        return r
    if t in _builtin_types:
        s = getattr(f, '__self__', None)
        if f.__name__ == '__setattr__' and s is not None and len(a) == 2:
            record_attr(s, a[0])
            return f(*a, **k)
        if f.__name__ == '__call__' and isinstance(s, type) and sym.CTX is not None and isinstance(f, types.MethodWrapperType):
            r = f(*a, **k)
            if type(r) is SymBytes:
                init_bytes(s, r, a, k)
            return r
        if s is int and f.__name__ == 'from_bytes':
            return h_from_bytes(*a, **k)
        if t is types.BuiltinFunctionType and s is not None and not isinstance(s, types.ModuleType):
            m = METHODS.get((type(s), f.__name__))
            if m is not None:
                return m(s, *a, **k)
        if deep_sym(a, k):
            if id(f) in SAFE_BUILTINS or f.__name__ in NATIVE_OK:
                return f(*a, **k)
            if isinstance(s, (Sym,)):
                return f(*a, **k)
            raise Unsupported('symbolic argument to native %s' % getattr(f, '__qualname__', f))
        return f(*a, **k)
    return f(*a, **k)


def init_bytes(cls, r, a, k):
    """type.__call__ does not initialize r, which only claims to be a cls"""
    if r.cls is not None and issubclass(r.cls, cls) and r.cls.__init__ is not object.__init__:
        call(r.cls.__init__, r, *a, **k)


REWRITTEN_PREFIXES = ('elementstx', 'bitcointx', 'specs', 'pv.', '__pv')


def module_ok(name):
    return name.startswith(REWRITTEN_PREFIXES) or name in EXTRA_PY_OK


METHODS = {}


def method(t, *names):
    def deco(g):
        for n in names:
            METHODS[(t, n)] = g
        return g
    return deco


# --------------------------------------------------------------- builtins

@hook(len)
def h_len(x):
    if type(x) in (SymBytes, SymList, SymBuf, SymRange):
        return x.length()
    f = getattr(type(x), '_pv_len', None)
    if f is not None:
        return f(x)
    return len(x)


def _pyclass(x):
    return x.__class__ if isinstance(x, Sym) else type(x)


@hook(type)
def h_type(x, *rest, **k):
    if rest:
        return type(x, *rest, **k)
    return _pyclass(x)


@hook(range)
def h_range(*a):
    if not any(is_sym(x) for x in a):
        return range(*a)
    if len(a) == 1:
        return SymRange(0, a[0])
    if len(a) == 2:
        return SymRange(a[0], a[1])
    raise Unsupported('symbolic range with step')


@hook(enumerate)
def h_enumerate(it, start=0):
    if not is_symseq(it):
        return enumerate(it, start)
    out = []
    k = zint(start)
    for p in seq_parts(it):
        if isinstance(p, MapSeg):
            if sym.obj_fields(p.tmpl) is not None:
                models.mark_proxy(p)
            out.append(MapSeg(p.i, (mkint(p.i - p.lo + k), p.tmpl), p.lo, p.hi, True))
            k = simp(k + p.count())
        else:
            out.append((mkint(k), p))
            k = simp(k + 1)
    return SymIter(out)


@hook(zip)
def h_zip(*its, **kw):
    if not any(is_symseq(x) for x in its):
        return zip(*its, **kw)
    ps = [seq_parts(x) for x in its]
    if all(len(p) == 1 and isinstance(p[0], MapSeg) for p in ps):
        c = ctx()
        b = ps[0][0]
        n = b.count()
        for q in ps[1:]:
            if not c.valid(q[0].count() == n):
                if c.decide(q[0].count() < n):
                    n = q[0].count()
        i = z3.Int(c.name('z'))
        tm = tuple(p[0].at(p[0].lo + i) for p in ps)
        for p in ps:
            if sym.obj_fields(p[0].tmpl) is not None:
                models.mark_proxy(p[0])
        return SymIter([MapSeg(i, tm, 0, n, True)])
    if any(len(p) == 0 for p in ps):
        return SymIter([])
    raise Unsupported('zip of lists of symbolic length')


@hook(reversed)
def h_reversed(x):
    if is_symseq(x):
        raise Unsupported('reversed() of a list of symbolic length')
    if type(x) is SymList:
        return iter(list(x.segs)[::-1])
    return reversed(x)


@hook(list)
def h_list(x=()):
    return SymList(seq_parts(x), list)


@hook(tuple)
def h_tuple(x=()):
    if is_symseq(x):
        ps = seq_parts(x)
        if any(isinstance(p, MapSeg) for p in ps):
            return SymList(ps, tuple)
        return tuple(ps)
    if isinstance(x, (SymList,)):
        return tuple(x.segs)
    return tuple(x)


@hook(iter)
def h_iter(x, *a):
    if a:
        return iter(x, *a)
    if is_symseq(x):
        return SymIter(seq_parts(x))
    return iter(x)


@hook(next)
def h_next(x, *a):
    return next(x, *a)


def is_pred_loop(it):
    return is_symseq(it) or type(it) is SymIter


@hook(any)
def h_any(it):
    if not is_symseq(it):
        return _merge_bools(it, False)
    from .loops import run_loop, Ret

    def body(x):
        if x:
            return Ret(True)
    r = run_loop(it, body, (), None, ())
    return r.value if isinstance(r, Ret) else False


@hook(all)
def h_all(it):
    if not is_symseq(it):
        return _merge_bools(it, True)
    from .loops import run_loop, Ret

    def body(x):
        if not x:
            return Ret(False)
    r = run_loop(it, body, (), None, ())
    return r.value if isinstance(r, Ret) else True


def _merge_bools(it, conj):
    acc = []
    for x in it:
        if type(x) in (SymBool, SymInt):
            acc.append(zbool(x))
            continue
        b = bool(x)
        if b != conj:
            if acc:
                # earlier elements decide first; all are pure values here
                return b
            return b
    if not acc:
        return conj
    return mkbool(z3.And(acc) if conj else z3.Or(acc))


@hook(sum)
def h_sum(it, start=0):
    if not is_symseq(it):
        r = start
        for x in it:
            r = r + x
        return r
    from .loops import fold_sum
    return fold_sum(it, start)


@hook(min)
def h_min(*a, **k):
    return _minmax(a, k, min, lambda x, y: x <= y)


@hook(max)
def h_max(*a, **k):
    return _minmax(a, k, max, lambda x, y: x >= y)


def _minmax(a, k, nat, le):
    if len(a) == 1:
        a = list(seq_items(a[0]))
    if k or not any(is_sym(x) for x in a):
        return nat(*a, **k) if len(a) > 1 else nat(a, **k)
    r = a[0]
    for x in a[1:]:
        if is_sym(r) or is_sym(x):
            c = le(r, x)
            r = r if c is True else (x if c is False else mkint(z3.If(zbool(c), zint(r), zint(x))))
        else:
            r = nat(r, x)
    return r


@hook(abs)
def h_abs(x):
    return x.__abs__() if type(x) is SymInt else abs(x)


@hook(divmod)
def h_divmod(a, b):
    return (a // b, a % b) if is_sym(a) or is_sym(b) else divmod(a, b)


@hook(int)
def h_int(*a, **k):
    if a and isinstance(a[0], Sym) and not k:
        x = a[0]
        if type(x) is SymInt and len(a) == 1:
            return x
        if type(x) is SymBool and len(a) == 1:
            return mkint(zint(x))
        if type(x) is SymStr and len(x.parts) == 1 and len(a) == 2 and a[1] == 16 \
                and isinstance(x.parts[0], tuple) and x.parts[0][0] == 'hex':
            b = x.parts[0][1]
            n = sym.fixed_len(b.chunks)
            if n is not None:
                return dec_int(b, n, True, False)
        raise Unsupported('int() of %s' % type(x).__name__)
    return int(*a, **k)


@hook(int.from_bytes)
def h_from_bytes(b, byteorder='big', *, signed=False):
    if not isinstance(b, Sym):
        return int.from_bytes(b, byteorder, signed=signed)
    n = sym.fixed_len(chunks_of(b))
    if n is None:
        raise Unsupported('int.from_bytes of symbolic length')
    return dec_int(mkbytes(chunks_of(b)), n, byteorder == 'big', signed)


@hook(bool)
def h_bool(x=False):
    if type(x) is SymBool:
        return x
    if type(x) is SymInt:
        return mkbool(x.e != 0)
    if type(x) in (SymBytes, SymList, SymBuf):
        n = zint(x.length())
        return mkbool(n != 0)
    return bool(x)


@hook(bytes)
def h_bytes(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        t = type(x)
        if t is SymBytes:
            if x.cls is None:
                return x
            f = getattr(x.cls, '__bytes__', None)
            if f is not None and f is not getattr(bytes, '__bytes__', None):
                for kls in x.cls.__mro__:
                    if kls is bytes:
                        break
                    if '__bytes__' in kls.__dict__:
                        return kls.__dict__['__bytes__'](x)
            return mkbytes(x.chunks)
        if t is SymBuf:
            return x.value()
        if t is linear.Bytes:
            return x
        if isinstance(x, (list, tuple)) or t in (SymList, SymIter) or isinstance(x, (types.GeneratorType, map)):
            if is_symseq(x):
                from .loops import fold_concat
                return fold_concat(seq_parts(x), lambda v: h_bytes([v]))
            items = list(x)
            if not any(is_sym(v) for v in items):
                return bytes(items)
            if any(type(v) in (linear.Lin, linear.Tab) for v in items):
                return linear.make_bytes(items)
            ch = []
            c = ctx()
            for v in items:
                if not is_sym(v):
                    ch.append(Lit(bytes([v])))
                    continue
                e = zint(v)
                if not c.decide(z3.And(e >= 0, e < 256)):
                    raise ValueError('bytes must be in range(0, 256)')
                o = getattr(v, 'origin', None)
                if o is not None and not o[2] and sym.fixed_len(o[0]) == 1:
                    ch += list(o[0])
                else:
                    ch.append(IntB(simp(e), 1, False))
            return mkbytes(ch)
        if t in (SymInt, SymBool):
            raise Unsupported('bytes(n) of a symbolic size')
        f = getattr(type(x), '_pv_bytes', None)
        if f is not None:
            return f(x)
        if isinstance(x, Sym):
            raise TypeError('cannot convert %r object to bytes' % x.__class__.__name__)
    return bytes(*a, **k)


@hook(bytearray)
def h_bytearray(*a):
    if not a:
        return SymBuf(b'')
    if isinstance(a[0], int):
        return SymBuf(b'\x00' * a[0])
    if isinstance(a[0], str):
        return SymBuf(bytes(*a))
    return SymBuf(h_bytes(*a))


@hook(str)
def h_str(*a, **k):
    if a and isinstance(a[0], Sym):
        x = a[0]
        if isinstance(type(x), type) and issubclass(type(x), SymStr):
            return x
        if type(x) is SymBytes:
            for c in x.__class__.__mro__:
                if c is not bytes and c is not object and '__str__' in c.__dict__:
                    return c.__dict__['__str__'](x)
        return '<sym>'
    return str(*a, **k)


@hook(repr)
def h_repr(x):
    return '<sym>' if isinstance(x, Sym) else repr(x)


@hook(hash)
def h_hash(x):
    if isinstance(x, Sym):
        raise Unsupported('hash of a symbolic value')
    return hash(x)


@hook(ord)
def h_ord(x):
    if isinstance(x, Sym):
        f = getattr(type(x), '_pv_ord', None)
        if f:
            return f(x)
        raise Unsupported('ord of symbolic string')
    return ord(x)


@hook(chr)
def h_chr(x):
    if isinstance(x, Sym):
        raise Unsupported('chr of symbolic')
    return chr(x)


@hook(sorted)
def h_sorted(x, **k):
    return SymList(sorted(seq_items(x), **k), list)


@hook(map)
def h_map(f, *its):
    if any(is_symseq(x) for x in its):
        if len(its) == 1:
            return loops.comp_list(its[0], lambda x: call(f, x), None, 'gen')
        return loops.comp_list(h_zip(*its), lambda t: call(f, *t), None, 'gen')
    return (call(f, *xs) for xs in zip(*its))


@hook(filter)
def h_filter(f, it):
    keep = (lambda x: x) if f is None else lambda x: call(f, x)
    return loops.comp_list(it, lambda x: x, keep, 'gen')


@hook(setattr)
def h_setattr(o, n, v):
    setattr_(o, n, v)


@hook(object.__setattr__)
def h_osetattr(o, n, v):
    record_attr(o, n)
    object.__setattr__(o, n, v)


@hook(delattr)
def h_delattr(o, n):
    delattr_(o, n)


@hook(object.__delattr__)
def h_odelattr(o, n):
    record_attr(o, n)
    object.__delattr__(o, n)


@hook(isinstance)
def h_isinstance(o, t):
    return isinstance(o, t)


# ---------------------------------------------------------- bytes subclasses

def _sub_new(base, conv):
    def new(cls, *a, **k):
        if a and isinstance(a[0], Sym):
            return conv(cls, *a, **k)
        return base.__new__(cls, *a, **k)
    return new


def _mk_bytes_sub(cls, x=b'', *a):
    if type(x) is SymBytes or type(x) is SymBuf:
        ch = chunks_of(x)
    else:
        ch = chunks_of(h_bytes(x))
    if all(type(c) is Lit for c in ch):
        return bytes.__new__(cls, ch[0].b if ch else b'')
    return SymBytes(ch, None if cls is bytes else cls)


def _bytes_new(cls, *a, **k):
    if a and not isinstance(a[0], Sym) and isinstance(a[0], (list, tuple)) and any(is_sym(x) for x in a[0]):
        return _mk_bytes_sub(cls, h_bytes(a[0]))
    if a and type(a[0]) in (types.GeneratorType, SymIter, SymList):
        return _mk_bytes_sub(cls, h_bytes(a[0]))
    if a and isinstance(a[0], Sym):
        return _mk_bytes_sub(cls, *a)
    return bytes.__new__(cls, *a, **k)


HOOKS[id(bytes.__new__)] = (bytes.__new__, _bytes_new)


def _int_new(cls, *a, **k):
    if a and isinstance(a[0], Sym):
        raise Unsupported('symbolic instance of %s' % cls.__name__)
    return int.__new__(cls, *a, **k)


HOOKS[id(int.__new__)] = (int.__new__, _int_new)


# --------------------------------------------------------------- stdlib

def h_new_hash(name):
    def f(data=b'', **kw):
        if sym.CTX is None:
            return getattr(hashlib, name)(data, **kw)
        return SymHash(name, data)
    return f


for _n in ('sha256', 'sha1', 'sha512'):
    HOOKS[id(getattr(hashlib, _n))] = (getattr(hashlib, _n), h_new_hash(_n))


@hook(hmac.new)
def h_hmac_new(key, msg=None, digestmod=''):
    if sym.CTX is None:
        return hmac.new(key, msg, digestmod)
    for n in SIZES_BY_FN:
        if digestmod is SIZES_BY_FN[n] or digestmod == n:
            if not isinstance(key, (bytes, bytearray)):
                raise TypeError("key: expected bytes or bytearray, but got %r" % _pyclass(key).__name__)
            return SymHMAC(key, msg, n)
    raise Unsupported('hmac digestmod')


SIZES_BY_FN = {'sha256': hashlib.sha256, 'sha1': hashlib.sha1, 'sha512': hashlib.sha512}


@hook(hmac.digest)
def h_hmac_digest(key, msg, digest):
    return h_hmac_new(key, msg, digest).digest()


class HexBytes:
    def __init__(self, v):
        self.v = v

    def decode(self, *a):
        return self.v.hex()

    def __getattr__(self, name):
        raise Unsupported('bytes.%s on a symbolic hex dump' % name)

    __eq__ = __len__ = __getitem__ = __iter__ = __add__ = lambda self, *a: self.__getattr__('operator')
    __hash__ = None


@hook(binascii.hexlify)
def h_hexlify(b, *a):
    if isinstance(b, Sym) and not a:
        return HexBytes(b)
    return binascii.hexlify(b, *a)


@hook(io.BytesIO)
def h_bytesio(initial=b''):
    if sym.CTX is None:
        return io.BytesIO(initial)
    return SymIO(initial)


FMT = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
       'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    o = '<'
    if fmt and fmt[0] in '<>=!@':
        o = '<' if fmt[0] in '<=@' else '>'
        native = fmt[0] == '@'
        fmt = fmt[1:]
    else:
        native = True
    out = []
    n = ''
    for ch in fmt:
        if ch.isdigit():
            n += ch
            continue
        if ch == ' ':
            continue
        if ch == 's':
            out.append(('s', int(n or 1), False))
        elif ch in FMT:
            w, s = FMT[ch]
            if native and ch in 'lL':
                w = 8
            out += [('i', w, s)] * int(n or 1)
        elif ch == '?':
            raise Unsupported('struct format ?')
        else:
            raise Unsupported('struct format %r' % ch)
        n = ''
    if native and len(out) > 1:
        raise Unsupported('native struct alignment')
    return o, out


@hook(struct.pack)
def h_pack(fmt, *vals):
    if not any(is_sym(v) for v in vals):
        return struct.pack(fmt, *vals)
    o, items = parse_fmt(fmt)
    if len(items) != len(vals):
        raise struct.error('pack expected %d items for packing (got %d)' % (len(items), len(vals)))
    r = []
    for (k, w, s), v in zip(items, vals):
        if k == 's':
            n = sym.fixed_len(chunks_of(v))
            if n is None or n > w:
                raise Unsupported('struct s field')
            r += chunks_of(v) + ([Lit(b'\x00' * (w - n))] if n < w else [])
            continue
        if not isinstance(v, int):
            raise struct.error('required argument is not an integer')
        if not is_sym(v):
            r += chunks_of(struct.pack((('<' if o == '<' else '>') +
                           {(1, True): 'b', (1, False): 'B', (2, True): 'h', (2, False): 'H', (4, True): 'i',
                            (4, False): 'I', (8, True): 'q', (8, False): 'Q'}[(w, s)]), v))
        else:
            r += chunks_of(enc_int(v, w, o, s, struct.error))
    return mkbytes(r)


@hook(struct.unpack)
def h_unpack(fmt, b):
    if not is_sym(b):
        return struct.unpack(fmt, b)
    o, items = parse_fmt(fmt)
    total = sum(w for _, w, _ in items)
    b = mkbytes(chunks_of(b))
    n = rope_len(chunks_of(b))
    n = simp(n)
    if is_c(n):
        if cv(n) != total:
            raise struct.error('unpack requires a buffer of %d bytes' % total)
    elif not ctx().decide(n == total):
        raise struct.error('unpack requires a buffer of %d bytes' % total)
    r, p = [], 0
    for k, w, s in items:
        part = b[p:p + w]
        p += w
        r.append(part if k == 's' else dec_int(part, w, o == '>', s))
    return tuple(r)


@hook(struct.unpack_from)
def h_unpack_from(fmt, buffer, offset=0):
    if not is_sym(buffer) and not is_sym(offset):
        return struct.unpack_from(fmt, buffer, offset)
    if not is_sym(offset) and offset < 0:
        raise Unsupported('offset from the end')
    need = sum(w for _, w, _ in parse_fmt(fmt)[1])
    if h_len(buffer) - offset < need:
        raise struct.error('unpack_from requires a buffer of at least %d bytes' % need)
    return h_unpack(fmt, getitem(buffer, slice(offset, offset + need)))


@method(struct.Struct, 'pack')
def m_struct_pack(st, *vals):
    return h_pack(st.format, *vals)


@method(struct.Struct, 'unpack')
def m_struct_unpack(st, b):
    return h_unpack(st.format, b)


@method(struct.Struct, 'unpack_from')
def m_struct_unpack_from(st, buffer, offset=0):
    return h_unpack_from(st.format, buffer, offset)


@hook(struct.calcsize)
def h_calcsize(fmt):
    return struct.calcsize(fmt)


@method(bytes, 'join')
def m_join(s, it):
    if is_symseq(it):
        if len(s):
            raise Unsupported('join with separator over symbolic list')
        from .loops import fold_concat
        return fold_concat(seq_parts(it), lambda v: v)
    items = list(it)
    if not any(is_sym(x) for x in items):
        return s.join(items)
    r = []
    for k, x in enumerate(items):
        if k and s:
            r.append(Lit(s))
        r += chunks_of(x)
    return mkbytes(r)


@method(str, 'join')
def m_sjoin(s, it):
    if is_symseq(it):
        return '<sym>'
    items = list(it)
    if not any(is_sym(x) for x in items):
        return s.join(items)
    if any(type(x) is linear.Text for x in items):
        r = []
        for k, x in enumerate(items):
            r += linear.chars_of(s) * (k > 0) + linear.chars_of(x)
        return linear.text(r)
    return '<sym>'


@method(str, 'format')
def m_sformat(s, *a, **k):
    if any(type(x) is linear.Text for x in a) and not k and type(s) is str \
            and s.count('{') == s.count('}') == s.count('{}') == len(a):
        lits = s.split('{}')
        return _texts([lits[0]] + [q for x, l in zip(a, lits[1:])
                                   for q in (x if isinstance(x, str) else str(x), l)])
    return s.format(*a, **k)


@method(str, 'find')
def m_sfind(s, x, *a):
    if type(x) is linear.Text and not a:
        return _find(s, x)
    if is_sym(x):
        raise Unsupported('search for a symbolic text')
    return s.find(x, *a)


def _find(s, x):
    if len(x.chars) != 1 or len(set(s)) != len(s):
        raise Unsupported('search for several characters')
    v, m = x.chars[0]
    return linear.Tab(v, {d: s.find(chr(m[d])) for d in v.domain})


@method(str, 'index')
def m_sindex(s, x, *a):
    if type(x) is linear.Text and not a:
        if not contains(x, s):
            raise ValueError('substring not found')
        return _find(s, x)
    if is_sym(x):
        raise Unsupported('search for a symbolic text')
    return s.index(x, *a)


@method(dict, 'get')
def m_dget(s, x, *a):
    if type(x) in (linear.Text, linear.Tab) and a and a[0] is not None:
        return linear.lookup(s, x, *a)
    if is_sym(x):
        try:
            return scan(s, x)
        except KeyError:
            return a[0] if a else None
    return s.get(x, *a)


def scan(d, k):
    """d[k], comparing with the keys one by one"""
    if len(d) > 64 or type(k) not in (SymInt, SymBool, SymBytes, linear.Lin, linear.Bytes):
        raise Unsupported('symbolic key')
    num = isinstance(k, int)
    for x, v in d.items():
        if isinstance(x, int if num else bytes) and (x is not True and x is not False or num) and k == x:
            return v
    raise KeyError('<sym>')


@method(bytes, 'hex')
def m_hex(s, *a):
    return s.hex(*a)


@method(bytes, 'startswith')
def m_startswith(s, p, *a):
    if is_sym(p):
        return s[:len(p)] == p
    return s.startswith(p, *a)


@method(str, 'encode')
def m_encode(s, *a, **k):
    return s.encode(*a, **k)


@hook(int.to_bytes)
def h_int_to_bytes(self, *a, **k):
    return self.to_bytes(*a, **k)


@hook(os.urandom)
def h_urandom(n):
    if sym.CTX is None:
        return os.urandom(n)
    return ctx().fresh_bytes('urandom', n)


# --------------------------------------------------------------- operators

def getitem(o, k):
    if type(k) in (linear.Lin, linear.Tab, linear.Text):
        if type(o) is SymList and o.concrete():
            o = list(o.segs)
        if isinstance(o, dict) and type(k) is linear.Lin:
            return scan(o, k)
        if isinstance(o, (str, list, tuple, dict)) and not isinstance(o, Sym):
            return linear.lookup(o, k)
        raise Unsupported('index with unknown bits')
    if isinstance(k, Sym) and not isinstance(o, Sym):
        t = type(o)
        if t in (bytes, bytearray, tuple, list, str) or isinstance(o, (bytes, tuple, list)):
            if type(k) in (SymInt, SymBool):
                if isinstance(o, bytes) and o:
                    n = len(o)
                    e = zint(k)
                    c = ctx()
                    if not c.decide(z3.And(e >= -n, e < n)):
                        raise IndexError('index out of range')
                    if c.decide(e < 0):
                        e = simp(e + n)
                    return mkint(Lit(bytes(o)).byte(e))
                if t is str:
                    f = getattr(sym, 'text_index', None)
                    if f:
                        return f(o, k)
                n = len(o)
                e = zint(k)
                if not ctx().decide(z3.And(e >= -n, e < n)):
                    raise IndexError('index out of range')
                if t in (list, tuple) and n and all(type(x) is int for x in o) and n <= 300:
                    if ctx().decide(e < 0):
                        e = simp(e + n)
                    r = z3.IntVal(o[-1])
                    for j in range(n - 2, -1, -1):
                        r = z3.If(e == j, z3.IntVal(o[j]), r)
                    return mkint(r)
                return o[ctx().concretize(mkint(e))]
        if isinstance(o, dict):
            return scan(o, k)
        raise Unsupported('symbolic index into %s' % t.__name__)
    if type(k) is slice and (is_sym(k.start) or is_sym(k.stop) or is_sym(k.step)) and not isinstance(o, Sym):
        if isinstance(o, (bytes, bytearray)):
            return SymBytes(chunks_of(bytes(o)))[k]
        if isinstance(o, (list, tuple)):
            return SymList(list(o), type(o))[k]
        raise Unsupported('symbolic slice of %s' % type(o).__name__)
    return o[k]


def setitem(o, k, v):
    if not isinstance(o, Sym):
        c = sym.CTX
        if c is not None and type(o) in (list, dict, bytearray):
            if is_sym(k):
                k = c.concretize(k) if type(k) is SymInt else k
            if type(o) is list:
                old = list(o)
                c.journal.append(lambda: o.__setitem__(slice(None), old))
            elif type(o) is dict:
                old = dict(o)
                c.journal.append(lambda: (o.clear(), o.update(old)))
            if c.dirty is not None:
                c.dirty['native:%d' % id(o)] = o
    o[k] = v


def contains(x, s):
    """x in s"""
    if type(x) is linear.Text and not is_sym(s) and isinstance(s, (str, set, frozenset, dict)):
        if len(x.chars) != 1:
            raise Unsupported('search for several characters')
        v, m = x.chars[0]
        return v.split({d for d in v.domain if chr(m[d]) in s})
    if type(x) is linear.Tab and not is_sym(s) and isinstance(s, (tuple, list, set, frozenset, dict, range)):
        return x.var.split({d for d in x.var.domain if x.m[d] in s})
    if type(s) is SymList:
        if s.concrete():
            s = tuple(s.segs)
        else:
            return h_any_eq(x, s)
    if isinstance(s, (tuple, list, frozenset, set)) and not isinstance(s, Sym):
        if not is_sym(x) and not any(is_sym(y) for y in s):
            return x in s
        acc = []
        for y in s:
            if x is y:
                return True
            r = (x == y)
            if type(r) is SymBool:
                acc.append(r.e)
            elif r:
                if not acc:
                    return True
                acc.append(z3.BoolVal(True))
        if not acc:
            return False
        return mkbool(z3.Or(acc))
    if is_sym(s):
        f = getattr(type(s), '_pv_contains', None)
        if f:
            return f(s, x)
        if type(s) is SymBytes:
            n = sym.fixed_len(s.chunks)
            if n is not None and isinstance(x, int):
                return mkbool(z3.Or([zint(s[k]) == zint(x) for k in range(n)]))
        raise Unsupported('in on %s' % type(s).__name__)
    if is_sym(x):
        if isinstance(s, range) and s.step == 1:
            e = zint(x)
            return mkbool(z3.And(e >= s.start, e < s.stop))
        if isinstance(s, dict):
            return contains(x, tuple(s.keys()))
        if isinstance(s, (bytes, bytearray)) and isinstance(x, int):
            return contains(x, tuple(s))
        if isinstance(s, str):
            f = getattr(sym, 'text_in', None)
            if f:
                return f(x, s)
        raise Unsupported('symbolic value in %s' % type(s).__name__)
    return x in s


def h_any_eq(x, s):
    from .loops import run_loop, Ret

    def body(y):
        if x is y or x == y:
            return Ret(True)
    r = run_loop(s, body, (), None, ())
    return isinstance(r, Ret)


def not_contains(x, s):
    r = contains(x, s)
    return mkbool(z3.Not(r.e)) if type(r) is SymBool else (not r)


def not_(x):
    """`not x` on a symbolic truth value does not split the path"""
    if type(x) is SymBool:
        return mkbool(z3.Not(x.e))
    if type(x) is SymInt:
        return mkbool(x.e == 0)
    if type(x) is linear.Cond:
        return x._pv_not()
    return not x


def ifexp(t, f, g):
    if linear.mergeable(t):
        return linear.merge(t, f, g)
    return f() if t else g()


def mergeable(t):
    return linear.mergeable(t)


def fstring(*ps):
    if any(type(p) is linear.Text for p in ps):
        return _texts([p if isinstance(p, str) else format(p) for p in ps])
    return ''.join(map(format, ps))


def _texts(ps):
    r = []
    for p in ps:
        r += linear.chars_of(p)
    return linear.text(r)


def mod(a, b):
    if isinstance(a, str) and not isinstance(a, Sym):
        args = b if isinstance(b, tuple) else (b,)
        if any(type(x) is linear.Text for x in args) and a.count('%') == a.count('%s') == len(args):
            lits = a.split('%s')
            return _texts([lits[0]] + [q for x, l in zip(args, lits[1:])
                                       for q in (x if isinstance(x, str) else str(x), l)])
        def clean(v):
            return v
        if isinstance(b, tuple):
            if any(is_sym(v) for v in b):
                b = tuple(_fmtval(v) for v in b)
                return _loose(a) % b
        elif is_sym(b):
            return _loose(a) % _fmtval(b)
    return a % b


def _fmtval(v):
    return '<sym>' if is_sym(v) else v


def _loose(fmt):
    import re
    return re.sub(r'%[-#0 +]*\d*(?:\.\d+)?[a-zA-Z]', lambda m: '%s', fmt)


class _AttrLog:
    MISSING = object()


def record_attr(o, n):
    c = sym.CTX
    if c is None or isinstance(o, Sym) or isinstance(o, type):
        return
    born = c.frames[-1].born
    if id(o) not in born and not sym.obj_fields(o):
        born[id(o)] = o
    if id(o) in born:
        if c.dirty is not None and not n.startswith('_cached'):
            c.dirty_new[id(o)] = o
        return
    if c.live_segs and not n.startswith('_cached'):
        models.touch_element(o)
    try:
        old = object.__getattribute__(o, n)
        c.journal.append(lambda: object.__setattr__(o, n, old))
        if c.dirty is not None and not n.startswith('_cached') and id(o) not in c.dirty_new:
            c.dirty[('attr', id(o), n)] = (o, n)
    except AttributeError:
        def undo():
            try:
                object.__delattr__(o, n)
            except AttributeError:
                pass
        c.journal.append(undo)
        if c.dirty is not None and not n.startswith('_cached'):
            c.dirty_new[id(o)] = o


def setattr_(o, n, v):
    if type(o) is SymBytes:
        o.__dict__[n] = v
        return
    record_attr(o, n)
    setattr(o, n, v)


def delattr_(o, n):
    record_attr(o, n)
    delattr(o, n)


def display_list(*xs):
    if sym.CTX is None:
        return list(xs)
    return SymList(xs, list)


# ------------------------------------------------- names used by pv.rewrite

slice = builtins.slice
ptype = type
_isinstance = isinstance
_getattr = getattr


def set_attr(v, o, n):
    setattr_(o, n, v)


def set_item(v, o, k):
    setitem(o, k, v)


def del_attr(o, n):
    delattr_(o, n)


def del_item(o, k):
    if is_sym(k):
        k = ctx().concretize(k)
    if not is_sym(o) and sym.CTX is not None and type(o) in (list, dict):
        setitem_journal(o)
    del o[k]


def setitem_journal(o):
    c = sym.CTX
    if type(o) is list:
        old = list(o)
        c.journal.append(lambda: o.__setitem__(slice(None), old))
    elif type(o) is dict:
        old = dict(o)
        c.journal.append(lambda: (o.clear(), o.update(old)))
    if c.dirty is not None:
        c.dirty['native:%d' % id(o)] = o


IOPS = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '/': operator.itruediv,
        '//': operator.ifloordiv, '%': mod, '<<': operator.ilshift, '>>': operator.irshift,
        '|': operator.ior, '&': operator.iand, '^': operator.ixor, '**': operator.ipow,
        '@': operator.imatmul}


def aug_attr(o, n, op, f):
    x = getattr(o, n)
    setattr_(o, n, IOPS[op](x, f()))


def aug_item(o, k, op, f):
    x = getitem(o, k)
    setitem(o, k, IOPS[op](x, f()))


def not_engine(e):
    if isinstance(e, EngineStop):
        raise e


def While(*a):
    return loops.While(*a)


def run_loop(*a):
    return loops.run_loop(*a)


def comp_list(*a):
    return loops.comp_list(*a)


from . import linear                             # noqa: E402
from . import loops                              # noqa: E402
Ret = loops.Ret
BRK = loops.BRK
UNBOUND = loops.UNBOUND
