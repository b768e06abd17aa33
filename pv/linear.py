"""Integers whose bits are affine functions over GF(2) of unknown bits, and
texts of unknown characters: what checksum and base conversion code computes
with.  Shifts, masks, xor and disjoint or/+ of such integers are exact; a
comparison is decided by elimination over the equations of the path, otherwise
the path is split.

Unknown bits are numbered; an affine form is a Python int: bit 0 is the
constant, bit k the unknown k.

A character is an unknown index (Var) into a finite domain of code points,
together with the image of every index.  Its bits (coordinates) come into being
when it is first used as a number; they range over a superset of the possible
ones, which is sound for proofs."""
import random
import z3
from . import sym
from .sym import Sym, Unsupported, Infeasible


class State:
    """the equations of a path"""

    def __init__(self):
        self.n = 0
        self.rows = {}           # bit of pivot -> form (pivot == form)
        self.pivots = 0
        self.neg = []            # lists of forms that are not all zero
        self.textneg = []        # lists of (var, bases) : not all of them hold
        self.vars = []
        self.inputs = {}
        self.ndec = 0
        self.cache = {}

    def fresh(self, k):
        r = [1 << (self.n + 1 + i) for i in range(k)]
        self.n += k
        return r

    def reduce(self, f):
        m = f & self.pivots
        while m:
            p = m & -m
            m ^= p
            f ^= p ^ self.rows[p]
        return f

    def add(self, f):
        """f == 0"""
        f = self.reduce(f)
        if f == 0:
            return
        if f == 1:
            raise Infeasible()
        p = 1 << (f.bit_length() - 1)
        r = f ^ p
        for q, g in self.rows.items():
            if g & p:
                self.rows[q] = g ^ p ^ r
        self.rows[p] = r
        self.pivots |= p

    def zero(self, forms):
        """are all forms zero: True, False, or what is undetermined"""
        fs = [g for g in map(self.reduce, forms) if g]
        if 1 in fs:
            return False
        basis = {}
        for f in fs:
            while f and f != 1:
                h = f.bit_length()
                if h not in basis:
                    basis[h] = f
                    break
                f ^= basis[h]
            if f == 1:
                return False
        if not basis:
            return True
        for e in self.neg:
            for f in e:
                f = self.reduce(f)
                while f > 1 and f.bit_length() in basis:
                    f ^= basis[f.bit_length()]
                # elimination with a triangular basis needs every bit
                if f:
                    f = _residue(f, basis)
                if f:
                    break
            else:
                return False
        return list(basis.values())

    def decide(self, forms):
        z = self.zero(forms)
        if z is True or z is False:
            return z
        self.ndec += 1
        if sym.CTX.decide(z3.Bool('lin!%d' % self.ndec)):
            for f in z:
                self.add(f)
            self.check()
            return True
        if len(z) == 1:
            self.add(z[0] ^ 1)
            self.check()
        else:
            self.neg.append(z)
        return False

    def check(self):
        for e in self.neg:
            if not any(map(self.reduce, e)):
                raise Infeasible()

    # -- counterexamples
    def model(self, tries=300):
        rng = random.Random(1)
        for _ in range(tries):
            v = {}
            for i in range(1, self.n + 1):
                if not self.pivots >> i & 1:
                    v[i] = rng.getrandbits(1)
            free = sum(1 << i for i in v if v[i]) | 1
            val = lambda f: bin(self.reduce(f) & free).count('1') & 1
            if any(not any(val(f) for f in e) for e in self.neg):
                continue
            base = {}
            for x in self.vars:
                if x.coords is None:
                    base[x] = rng.choice(x.domain)
                    continue
                k = sum(val(f) << i for i, f in enumerate(x.forms))
                b = [d for d in x.domain if x.coords[d] == k]
                if not b:
                    break
                base[x] = rng.choice(b)
            else:
                if any(all(base[x] in t for x, t in e) for e in self.textneg):
                    continue
                out = {}
                for nm, (kind, items, dom) in self.inputs.items():
                    if kind == 'number':
                        m = {'': sum(val(f) << j for j, f in enumerate(items))}
                    elif kind == 'bits':
                        m = {str(i): sum(val(f) << j for j, f in enumerate(b)) for i, b in enumerate(items)}
                    else:
                        m = {str(i): dom.index(base[x]) for i, x in enumerate(items)}
                    out[nm] = {'map': m, 'else': 0}
                return out
        return {}


def _residue(f, basis):
    for h in sorted(basis, reverse=True):
        if f >> (h - 1) & 1:
            f ^= basis[h]
    return f


def state():
    c = sym.CTX
    s = c.__dict__.get('linear')
    if s is None:
        s = c.linear = State()
    return s


class Cond(Sym):
    """all forms are zero (or: not all)"""

    def __init__(self, forms, neg=False):
        self.__dict__.update(forms=forms, neg=neg)

    def __bool__(self):
        return state().decide(self.forms) != self.neg

    def _pv_not(self):
        return Cond(self.forms, not self.neg)

    def bit(self):
        """the form whose value it is; None: not a single one"""
        z = state().zero(self.forms)
        if z is True or z is False:
            return int(z != self.neg)
        return (z[0] ^ (not self.neg)) if len(z) == 1 else None

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        raise Unsupported('hash of a condition')

    @property
    def __class__(self):
        return bool


def mk(forms):
    fs = [state().reduce(f) for f in forms]
    while fs and fs[-1] == 0:
        fs.pop()
    if all(f <= 1 for f in fs):
        return sum(f << i for i, f in enumerate(fs))
    return Lin(fs)


def forms_of(x):
    if type(x) is Lin:
        return x.bits
    if type(x) is Tab:
        return forms_of(x.lin())
    if type(x) is Cond:
        b = x.bit()
        if b is None:
            return forms_of(int(bool(x)))
        return [b]
    if isinstance(x, Sym) or not isinstance(x, int):
        return None
    if x < 0:
        raise Unsupported('negative number with unknown bits')
    return [x >> i & 1 for i in range(x.bit_length())]


def _pad(a, b):
    n = max(len(a), len(b))
    return a + [0] * (n - len(a)), b + [0] * (n - len(b))


class Lin(Sym):
    """number with affine bits, lowest first"""

    def __init__(self, bits):
        self.__dict__['bits'] = bits

    @property
    def __class__(self):
        return int

    def __repr__(self): return '<lin>'
    def __format__(self, s): return '<lin>'
    def __hash__(self): raise Unsupported('hash of a symbolic number')
    def _pv_subst(self, *a): return self
    def subst(self, sub): return self

    def __bool__(self):
        return not state().decide(self.bits)

    def _2(self, o):
        f = forms_of(o)
        if f is None:
            return None, None
        return _pad(self.bits, f)

    def __xor__(self, o):
        a, b = self._2(o)
        if a is None:
            return NotImplemented
        return mk([x ^ y for x, y in zip(a, b)])
    __rxor__ = __xor__

    def __and__(self, o):
        a, b = self._2(o)
        if a is None:
            return NotImplemented
        r = []
        for x, y in zip(a, b):
            if x <= 1 or y <= 1:
                r.append((y if x == 1 else 0) if x <= 1 else (x if y == 1 else 0))
            elif x == y:
                r.append(x)
            else:
                raise Unsupported('and of unknown bits')
        return mk(r)
    __rand__ = __and__

    def __or__(self, o):
        a, b = self._2(o)
        if a is None:
            return NotImplemented
        r = []
        for x, y in zip(a, b):
            if x == 0 or y == 0 or x == y:
                r.append(x or y)
            elif x == 1 or y == 1:
                r.append(1)
            else:
                raise Unsupported('or of unknown bits')
        return mk(r)
    __ror__ = __or__

    def __add__(self, o):
        a, b = self._2(o)
        if a is None:
            return NotImplemented
        if any(x and y for x, y in zip(a, b)):
            raise Unsupported('sum with carries of unknown bits')
        return mk([x | y for x, y in zip(a, b)])
    __radd__ = __add__

    def __lshift__(self, k):
        if isinstance(k, Sym):
            raise Unsupported('shift by an unknown number')
        return mk([0] * k + self.bits)

    def __rshift__(self, k):
        if isinstance(k, Sym):
            raise Unsupported('shift by an unknown number')
        return mk(self.bits[k:])

    def __rlshift__(self, o): raise Unsupported('shift by an unknown number')
    __rrshift__ = __rlshift__

    def __mul__(self, o):
        if isinstance(o, Sym) or type(o) is not int or o < 0:
            raise Unsupported('product with an unknown number')
        if o & (o - 1) == 0:
            return self << (o.bit_length() - 1) if o else 0
        if len(self.bits) == 1:
            return mk([self.bits[0] * (o >> i & 1) for i in range(o.bit_length())])
        raise Unsupported('product with an unknown number')
    __rmul__ = __mul__

    def _pow2(self, o):
        if isinstance(o, Sym) or type(o) is not int or o <= 0 or o & (o - 1):
            raise Unsupported('division of an unknown number')
        return o.bit_length() - 1

    def __floordiv__(self, o):
        return self >> self._pow2(o)

    def __mod__(self, o):
        return mk(self.bits[:self._pow2(o)])

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self): raise Unsupported('negative unknown number')
    __sub__ = __rsub__ = __invert__ = __pow__ = __truediv__ = lambda self, *a: self.__neg__()

    def __eq__(self, o):
        if not isinstance(o, Sym) and (not isinstance(o, int) or o < 0):
            return False
        a, b = self._2(o)
        if a is None:
            return NotImplemented
        f = [x ^ y for x, y in zip(a, b)]
        z = state().zero(f)
        return z if z is True or z is False else Cond(f)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return r._pv_not() if type(r) is Cond else not r

    def value(self):
        """split on the value"""
        r = 0
        for i, f in enumerate(self.bits):
            if not state().decide([f]):
                r |= 1 << i
        return r

    def _cmp(self, o, op):
        if not isinstance(o, Sym):
            top = (1 << len(self.bits)) - 1
            if op(0, o) == op(top, o):
                return op(0, o)
        if len(self.bits) > 8:
            raise Unsupported('comparison of a number with unknown bits')
        return op(self.value(), o)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __index__(self): raise Unsupported('native use of an unknown number')
    __int__ = __index__

    def bit_length(self): raise Unsupported('bit_length of an unknown number')


class Bytes(Sym):
    """byte string of numbers with affine bits"""

    def __init__(self, items):
        self.__dict__['items'] = list(items)

    @property
    def __class__(self):
        return bytes

    def __repr__(self): return '<bytes>'
    def __hash__(self): raise Unsupported('hash of a symbolic byte string')
    def _pv_len(self): return len(self.items)
    def __len__(self): return len(self.items)
    def __bool__(self): return bool(self.items)
    def __iter__(self): return iter(list(self.items))
    def subst(self, sub): return self

    def __getitem__(self, k):
        return Bytes(self.items[k]) if type(k) is slice else self.items[k]

    def __add__(self, o):
        return Bytes(self.items + list(o))

    def __radd__(self, o):
        return Bytes(list(o) + self.items)

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return False
        o = list(o)
        if len(o) != len(self.items):
            return False
        f = []
        for x, y in zip(self.items, o):
            a, b = _pad(forms_of(x), forms_of(y))
            f += [p ^ q for p, q in zip(a, b)]
        z = state().zero(f)
        return z if z is True or z is False else Cond(f)

    __ne__ = Lin.__ne__

    def __getattr__(self, n):
        if hasattr(bytes, n):
            raise Unsupported('bytes.%s' % n)
        raise AttributeError(n)


def make_bytes(items):
    for v in items:
        if isinstance(v, Sym):
            f = forms_of(v)
            if f is None:
                raise Unsupported('byte of another kind of number')
            if len(f) > 8 and not state().decide(f[8:]):
                raise ValueError('bytes must be in range(0, 256)')
        elif not 0 <= v < 256:
            raise ValueError('bytes must be in range(0, 256)')
    return Bytes([mk(forms_of(v)[:8]) if isinstance(v, Sym) else v for v in items])


def merge(cond, f, g):
    """f() if cond else g(), without splitting the path where possible"""
    if type(cond) is Lin:
        z = state().zero(cond.bits)
        bit = None if z is True or z is False or len(cond.bits) - cond.bits.count(0) != 1 else cond.bits[-1]
        if bit is None and not isinstance(z, bool) and len(z) == 1:
            bit = z[0]
    elif type(cond) is Cond:
        bit = cond.bit()
    else:
        bit = None
    if bit is None:
        return f() if cond else g()
    if bit <= 1:
        return f() if bit else g()
    # both sides are computed: nothing may fail that fails on one of them only
    st = state()
    n = st.ndec
    a = f()
    b = g()
    if st.ndec != n:
        raise Unsupported('decision within a conditional')
    fa, fb = forms_of(a), forms_of(b)
    if fa is None or fb is None:
        raise Unsupported('conditional of other values')
    fa, fb = _pad(fa, fb)
    d = [st.reduce(x ^ y) for x, y in zip(fa, fb)]
    if any(x > 1 for x in d):
        raise Unsupported('conditional of unknown bits')
    return mk([y ^ (bit if x else 0) for x, y in zip(d, fb)])


def mergeable(x):
    return type(x) in (Lin, Cond)


# --------------------------------------------------------------- characters

class Var:
    """index into a finite domain"""

    def __init__(self, domain):
        self.domain = list(domain)
        self.coords = self.forms = None
        state().vars.append(self)

    def set_coords(self, m):
        if self.coords is None:
            self.coords = m
            self.forms = state().fresh(max(m[d] for d in self.domain).bit_length())

    def narrow(self, keep):
        """keep: list of indices"""
        if not keep:
            raise Infeasible()
        if len(keep) == len(self.domain):
            return
        old = self.domain
        self.domain = keep
        if self.coords is None:
            return
        st = state()
        ks = [self.coords[d] for d in keep]
        if len(old) - len(keep) == 1 and len(keep) > 1:
            d = [x for x in old if x not in set(keep)][0]
            e = [f ^ (self.coords[d] >> i & 1) for i, f in enumerate(self.forms)]
            z = st.zero(e)
            if z is True:
                raise Infeasible()
            if z is not False:
                st.neg.append(z)
            return
        for i, f in enumerate(self.forms):
            b = {k >> i & 1 for k in ks}
            if len(b) == 1:
                st.add(f ^ b.pop())
        st.check()

    def split(self, yes):
        """decide whether the index is in the set `yes`"""
        k = [d for d in self.domain if d in yes]
        if not k:
            return False
        if len(k) == len(self.domain):
            return True
        if self.coords is not None and len(k) == 1:
            e = [f ^ (self.coords[k[0]] >> i & 1) for i, f in enumerate(self.forms)]
            z = state().zero(e)
            if z is True or z is False:
                return z
        st = state()
        for e in st.textneg:
            left = [(x, t) for x, t in e if not all(d in t for d in x.domain)]
            if len(left) == 1 and left[0][0] is self and all(d in left[0][1] for d in k):
                self.narrow([d for d in self.domain if d not in yes])
                return False
        st.ndec += 1
        if sym.CTX.decide(z3.Bool('lin!%d' % st.ndec)):
            self.narrow(k)
            return True
        self.narrow([d for d in self.domain if d not in yes])
        return False


class Tab(Sym):
    """number that is a function of a character"""

    def __init__(self, var, m):
        self.__dict__.update(var=var, m=m)

    @property
    def __class__(self):
        return int

    def __hash__(self): raise Unsupported('hash of a symbolic number')
    def subst(self, sub): return self

    def values(self):
        return {self.m[d] for d in self.var.domain}

    def _split(self, p):
        return self.var.split({d for d in self.var.domain if p(self.m[d])})

    def __bool__(self):
        return self._split(bool)

    def lin(self):
        v, m = self.var, self.m
        vs = [m[d] for d in v.domain]
        if len(set(vs)) == 1:
            return vs[0]
        if min(vs) < 0:
            raise Unsupported('number that may be negative')
        if v.coords is None:
            v.set_coords({d: m[d] for d in v.domain} if len(set(vs)) == len(vs) else {d: d for d in v.domain})
        if all(v.coords[d] == m[d] for d in v.domain):
            return mk(v.forms)
        try:
            return affine([(v.coords[d], m[d]) for d in v.domain], v.forms)
        except NotAffine:
            # any number that is not longer
            st = state()
            key = ('any', v, tuple(sorted(m.items())))
            if key not in st.cache:
                st.cache[key] = st.fresh(max(vs).bit_length())
            return mk(st.cache[key])

    def _num(op):
        def f(self, *a):
            return getattr(_lift(self.lin()), op)(*a)
        return f

    def _map(op):
        def f(self, o):
            if isinstance(o, Sym):
                return getattr(_lift(self.lin()), op)(o)
            return Tab(self.var, {d: getattr(self.m[d], op)(o) for d in self.var.domain})
        return f
    for _o in ('__xor__', '__rxor__', '__and__', '__rand__', '__or__', '__ror__', '__lshift__', '__rshift__', '__mul__',
               '__rmul__', '__floordiv__', '__mod__'):
        locals()[_o] = _num(_o)
    __add__, __sub__, __radd__, __rsub__ = _map('__add__'), _map('__sub__'), _map('__radd__'), _map('__rsub__')

    def _rel(op):
        def f(self, o):
            if isinstance(o, Sym):
                return op(_lift(self.lin()), o)
            if op(0, 1) is None:
                return NotImplemented
            return self._split(lambda x: op(x, o))
        return f
    __lt__, __le__ = _rel(lambda a, b: a < b), _rel(lambda a, b: a <= b)
    __gt__, __ge__ = _rel(lambda a, b: a > b), _rel(lambda a, b: a >= b)
    __eq__, __ne__ = _rel(lambda a, b: a == b), _rel(lambda a, b: a != b)

    def __index__(self): raise Unsupported('native use of an unknown number')
    __int__ = __index__


class NotAffine(Unsupported):
    pass


def _lift(x):
    return x if isinstance(x, Sym) else x


def affine(points, forms):
    """the function through the points as affine functions of the forms"""
    w = len(forms)
    st = state()
    key = (tuple(points), w)
    fit = st.cache.get(key)
    if fit is None:
        fit = []
        for j in range(max(y for _, y in points).bit_length()):
            # unknown: coefficients of 1 and of each coordinate
            basis = {}
            for x, y in points:
                row = (x << 1 | 1) << 1 | (y >> j & 1)       # bit 0: right side
                for h in sorted(basis, reverse=True):
                    if row >> h & 1:
                        row ^= basis[h]
                if row == 1:
                    raise NotAffine('table that is not linear')
                if row:
                    h = row.bit_length() - 1
                    for g in basis:
                        if basis[g] >> h & 1:
                            basis[g] ^= row
                    basis[h] = row
            # free coefficients: 0
            fit.append(sum(1 << (h - 1) for h, r in basis.items() if r & 1))
        st.cache[key] = fit
    out = []
    for c in fit:
        f = c & 1
        for i in range(w):
            if c >> (i + 1) & 1:
                f ^= forms[i]
        out.append(f)
    return mk(out)


def lookup(table, k, default=None):
    """table[k] for a list, tuple, str or dict"""
    get = table.get if isinstance(table, dict) else table.__getitem__
    if type(k) is Lin:
        n = len(k.bits)
        if n > 10:
            raise Unsupported('index with many unknown bits')
        if isinstance(table, dict):
            if any(i not in table for i in range(1 << n)):
                raise Unsupported('dictionary without some of the keys')
        elif len(table) < 1 << n:
            if k < len(table):
                return table[k.value()]
            raise IndexError('index out of range')
        vals = [get(i) for i in range(1 << n)]
        if isinstance(table, str) or all(type(x) is str and len(x) == 1 for x in vals):
            v = Var(range(1 << n))
            v.coords, v.forms = {i: i for i in range(1 << n)}, k.bits
            return Text([(v, {i: ord(x) for i, x in enumerate(vals)})])
        if all(type(x) is int and x >= 0 for x in vals):
            return affine(list(enumerate(vals)), k.bits)
        raise Unsupported('table of other values')
    if type(k) is Tab:
        v, key = k.var, k.m
    else:
        if len(k.chars) != 1:
            raise Unsupported('key of several characters')
        v, key = k.chars[0][0], {d: chr(x) for d, x in k.chars[0][1].items()}
    if isinstance(table, dict) and default is None and not v.split({d for d in v.domain if key[d] in table}):
        raise KeyError('<char>')
    vals = {d: (table.get(key[d], default) if isinstance(table, dict) else table[key[d]]) for d in v.domain}
    if all(type(x) is int for x in vals.values()):
        return Tab(v, vals)
    if all(type(x) is str and len(x) == 1 for x in vals.values()):
        return Text([(v, {d: ord(x) for d, x in vals.items()})])
    raise Unsupported('table of other values')


class Text(Sym):
    """string of which some characters are unknown: (Var, {index: code})"""

    def __init__(self, chars):
        self.__dict__['chars'] = list(chars)

    @property
    def __class__(self):
        return str

    def __repr__(self): return '<text>'
    def __str__(self): return self
    def __format__(self, s): return '<text>'
    def __hash__(self): raise Unsupported('hash of a symbolic text')
    def subst(self, sub): return self
    def _pv_len(self): return len(self.chars)
    def __len__(self): return len(self.chars)
    def __bool__(self): return bool(self.chars)

    def __iter__(self):
        return iter([text([c]) for c in self.chars])

    def __getitem__(self, k):
        return text(self.chars[k] if type(k) is slice else [self.chars[k]])

    def __add__(self, o): return text(self.chars + chars_of(o))
    def __radd__(self, o): return text(chars_of(o) + self.chars)

    def _pv_ord(self):
        if len(self.chars) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(self.chars))
        v, m = self.chars[0]
        return Tab(v, m)

    def _case(self, f):
        st = state()
        out = []
        for c in self.chars:
            if type(c) is int:
                out += map(ord, f(chr(c)))
                continue
            v, m = c
            r = {}
            for d in v.domain:
                t = f(chr(m[d]))
                if len(t) != 1:
                    raise Unsupported('case of a character outside of ASCII')
                r[d] = ord(t)
            out.append((v, r))
        return text(out)

    def lower(self): return self._case(str.lower)
    def upper(self): return self._case(str.upper)

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        b = chars_of(o)
        if len(b) != len(self.chars):
            return False
        return all_equal(list(zip(self.chars, b)))

    def __ne__(self, o):
        return not self.__eq__(o)

    def _at(self, i, c):
        """is character i the concrete character c"""
        x = self.chars[i]
        if type(x) is int:
            return x == ord(c)
        return x[0].split({d for d in x[0].domain if x[1][d] == ord(c)})

    def _range(self, a):
        return range(*slice(*(a + (None,) * (2 - len(a)))).indices(len(self.chars)))

    def rfind(self, c, *a):
        if isinstance(c, Sym) or len(c) != 1:
            raise Unsupported('search for several characters')
        for i in reversed(self._range(a)):
            if self._at(i, c):
                return i
        return -1

    def find(self, c, *a):
        if isinstance(c, Sym) or len(c) != 1:
            raise Unsupported('search for several characters')
        for i in self._range(a):
            if self._at(i, c):
                return i
        return -1

    def index(self, c, *a):
        r = self.find(c, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, c, *a):
        r = self.rfind(c, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, c):
        if isinstance(c, Sym) or len(c) != 1:
            raise Unsupported('search for several characters')
        return sum(1 for i in range(len(self.chars)) if self._at(i, c))

    def rpartition(self, c):
        i = self.rfind(c)
        return ('', '', self) if i < 0 else (self[:i], c, self[i + 1:])

    def partition(self, c):
        i = self.find(c)
        return (self, '', '') if i < 0 else (self[:i], c, self[i + 1:])

    def startswith(self, p):
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        return len(p) <= len(self.chars) and self[:len(p)] == p

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        return len(p) <= len(self.chars) and self[len(self.chars) - len(p):] == p

    def isascii(self):
        return all_in(self.chars, lambda x: x < 128)

    def isprintable(self):
        return all_in(self.chars, lambda x: chr(x).isprintable())

    def __contains__(self, c): return self.find(c) >= 0
    def _pv_contains(self, c): return self.find(c) >= 0

    def __getattr__(self, n):
        if hasattr(str, n):
            raise Unsupported('str.%s' % n)
        raise AttributeError(n)


def all_in(chars, p):
    conj = []
    for c in chars:
        if type(c) is int:
            if not p(c):
                return False
        else:
            conj.append((c[0], {d for d in c[0].domain if p(c[1][d])}))
    return conjunction(conj)


def chars_of(x):
    if type(x) is Text:
        return x.chars
    if isinstance(x, Sym):
        raise Unsupported('other symbolic text')
    return [ord(c) for c in x]


def text(chars):
    """Text, or a string when all of it is known"""
    out = []
    for c in chars:
        if type(c) is not int:
            s = {c[1][d] for d in c[0].domain} if len(c[0].domain) < 3 else ()
            if len(s) == 1:
                c = s.pop()
        out.append(c)
    if all(type(c) is int for c in out):
        return ''.join(map(chr, out))
    return Text(out)


def all_equal(pairs):
    st = state()
    lin, conj = [], []
    for a, b in pairs:
        if type(a) is int and type(b) is int:
            if a != b:
                return False
        elif type(a) is int or type(b) is int:
            (v, m), k = (b, a) if type(a) is int else (a, b)
            conj.append((v, {d for d in v.domain if m[d] == k}))
        elif a[0] is b[0]:
            conj.append((a[0], {d for d in a[0].domain if a[1][d] == b[1][d]}))
        else:
            # injective images with coordinates that agree
            ca, cb = ({m[d]: v.coords and v.coords[d] for d in v.domain} for v, m in (a, b))
            if a[0].coords is None or b[0].coords is None or len(ca) != len(a[0].domain) or len(cb) != len(b[0].domain) \
                    or any(ca[x] != cb[x] for x in ca if x in cb):
                raise Unsupported('comparison of unknown characters')
            x, y = _pad(a[0].forms, b[0].forms)
            f = [p ^ q for p, q in zip(x, y)]
            # equal images have equal coordinates and, as the coordinates are
            # unique in each domain, the other way round where both have the image
            if any(x not in cb for x in ca) or any(x not in ca for x in cb):
                raise Unsupported('comparison of unknown characters')
            lin += f
    if lin:
        if st.zero(lin) is False:
            return False
    if not conjunction(conj):
        return False
    return st.decide(lin) if lin else True


def conjunction(conj):
    """decide whether every (var, indices) holds"""
    left = []
    for v, t in conj:
        k = sum(1 for d in v.domain if d in t)
        if k == 0:
            return False
        if k < len(v.domain):
            left.append((v, t))
    if not left:
        return True
    st = state()
    if len({id(v) for v, _ in left}) == 1:
        v = left[0][0]
        return v.split(set(v.domain).intersection(*[t for _, t in left]))
    want = {}
    for v, t in left:
        want[v] = want.get(v, set(v.domain)) & t
    if any(not t for t in want.values()):
        return False
    for e in st.textneg:
        if all(all(d in t for d in want.get(x, x.domain)) for x, t in e):
            return False
    st.ndec += 1
    if sym.CTX.decide(z3.Bool('lin!%d' % st.ndec)):
        for v, t in want.items():
            v.narrow([d for d in v.domain if d in t])
        return True
    st.textneg.append(list(want.items()))
    return False


# ------------------------------------------------------------------- inputs

def input_bytes(name, n):
    st = state()
    items = [st.fresh(8) for _ in range(n)]
    st.inputs['in.' + name] = ('bits', items, None)
    return Bytes([mk(b) for b in items])


def input_bits(name, k):
    st = state()
    f = st.fresh(k)
    st.inputs['in.' + name] = ('number', f, None)
    return mk(f)


def input_text(name, n, domain):
    """n characters, each one of domain"""
    st = state()
    vs = [Var(range(len(domain))) for _ in range(n)]
    m = {i: ord(c) for i, c in enumerate(domain)}
    st.inputs['in.' + name] = ('chars', vs, list(range(len(domain))))
    return text([(v, m) for v in vs])
