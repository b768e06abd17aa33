"""Contracts: preconditions, calls of the real code and postconditions.

A contract is a function of one argument S.  S supplies the (universally
quantified) inputs, states the preconditions (S.assume) and the postconditions
(S.ensure, S.ensure_eq, S.fail).  The same function is run
  - by the verifier, with symbolic inputs: every postcondition on every path is
    an obligation that a solver has to accept (pv.worker);
  - natively on the unmodified code, with the inputs of a solver model, to
    confirm an alarm (pv.native);
  - natively with random inputs, to compare the rewritten code, the models and
    the contract itself with CPython (pv.native).
"""
import random

CONTRACTS = {}           # id -> Contract


class Contract:
    def __init__(self, fn, prop, cid, desc, bounded, budget, samples, solver_ms, needs):
        self.fn, self.prop, self.id, self.desc = fn, prop, cid, desc
        self.bounded = bounded          # None, or the stated bound
        self.budget = budget            # seconds for the verifier
        self.samples = samples          # native random runs
        self.solver_ms = solver_ms
        self.needs = needs
        self.thorough_only = self.native_only = False


def contract(prop, cid=None, desc='', bounded=None, budget=600, samples=60, solver_ms=8000, needs=(), tier='quick',
             native_only=False):
    """native_only: a bounded stand-in, run on samples and never counted as
    proved"""
    def deco(fn):
        c = Contract(fn, prop, cid or '%s.%s' % (prop, fn.__name__), desc or (fn.__doc__ or '').strip(),
                     bounded or getattr(fn, '_bounded', None), budget, samples, solver_ms, needs)
        c.thorough_only = tier == 'thorough'
        c.native_only = native_only
        if c.id in CONTRACTS:
            raise RuntimeError('duplicate contract %s' % c.id)
        CONTRACTS[c.id] = c
        return fn
    return deco


class Violation(Exception):
    def __init__(self, name, detail=''):
        Exception.__init__(self, name)
        self.name, self.detail = name, detail


class Reject(Exception):
    """concrete inputs do not satisfy the precondition"""


# ----------------------------------------------------------------- symbolic

class Failed(Exception):
    pass


def _engine():
    from . import sym, models, loops, hooks
    return sym, models, loops, hooks


class SymS:
    symbolic = True

    def __init__(self, ctx, contract):
        self.c = ctx
        self.contract = contract
        self.results = []           # (name, status, detail, model)
        self.used = {}
        self.sym, self.models, self.loops, self.hooks = _engine()

    # -- inputs
    def _name(self, name):
        k = (name, len(self.c.index_stack))
        if name in self.used:
            raise RuntimeError('input %r declared twice in contract %s' % (name, self.contract.id))
        self.used[name] = len(self.c.index_stack)
        return 'in.' + name

    def int(self, name, lo, hi):
        nm = self._name(name)
        return self.sym.mkint(self.c.app(nm, self.c.idx(), rng=(lo, hi)))

    def bool(self, name):
        nm = self._name(name)
        return self.sym.mkbool(self.c.app(nm, self.c.idx(), kind='bool'))

    def bytes(self, name, n=None, lo=0, hi=100000):
        nm = self._name(name)
        c, sym = self.c, self.sym
        a = tuple(c.idx())
        if n is None:
            n = c.app(nm + '.len', a, rng=(lo, hi))
        elif not isinstance(n, int) or isinstance(n, sym.Sym):
            n = sym.simp(sym.zint(n))
            n = sym.cv(n) if sym.is_c(n) else n
        c.fn(nm, len(a) + 1, (0, 255), range(len(a)))
        return sym.mkbytes([sym.Atom(nm, a, 0, n)])

    def source(self, name, make):
        """any byte string, to be read by one stream: what a read gives is
        made up when it happens (it may be less than asked for).  Natively the
        input, or an encoding given by make() with random changes."""
        nm = self._name(name)
        c, sym = self.c, self.sym
        n = c.app(nm + '.len', (), rng=(0, None))
        c.fn(nm, 1, (0, 255), ())
        a = sym.Atom(nm, (), 0, n)
        c.sources[nm], c.sources[nm + '.key'] = None, a.key()
        return sym.mkbytes([a])

    def _source(self, x):
        if isinstance(x, self.sym.SymBytes):
            f = self.c.sources[x.chunks[0].fn]
            if f is None:
                raise self.sym.Unsupported('input that was not read')
            return f
        return x

    def consumed(self, x):
        """all of a source, which has to be read to its end, or what was read
        from a stream"""
        f = self._source(x)
        ch = f.done + f.rest
        if f is not x and not f.ended:
            ch = ch + [f.make_up(None)]
        return self.sym.mkbytes(self.sym.norm(ch if f is not x else f.done))

    def short(self, x):
        """some read asked for more than there was"""
        return self._source(x).short

    def text(self, name, lo=0):
        """any text"""
        nm = self._name(name)
        return self.sym.SymText(nm, self.sym.mkint(self.c.app(nm + '.len', tuple(self.c.idx()), rng=(lo, None))))

    # ---- unknown bits and characters (pv/linear.py)
    def bit_bytes(self, name, n):
        from . import linear
        return linear.input_bytes(name, n)

    def bits(self, name, k):
        from . import linear
        return linear.input_bits(name, k)

    def chars(self, name, n, domain):
        from . import linear
        return linear.input_text(name, n, domain)

    def choice(self, name, n):
        """0..n-1, one path each"""
        return self.c.concretize(self.int(name, 0, n - 1))

    def select(self, name, alts):
        """one of several byte strings, without splitting the path"""
        k = self.int(name, 0, len(alts) - 1)
        return self.cases(k, alts)

    def cases(self, k, alts):
        sym = self.sym
        alts = [x() if callable(x) else x for x in alts]
        r = sym.chunks_of(alts[-1])
        for j in range(len(alts) - 2, -1, -1):
            cond = sym.simp(sym.zint(k) == j)
            r = [sym.IteR(cond, sym.chunks_of(alts[j]), r)]
        return sym.mkbytes(r)

    def variants(self, k, cls, alts):
        """cls(alts[k]) without splitting the path: the constructor is run for
        every alternative, the results are merged field by field"""
        sym = self.sym
        objs = [self.hooks.call(cls, x) for x in alts]
        fs = [sym.obj_fields(o) for o in objs]
        if any(type(o) is not type(objs[0]) or f is None or set(f) != set(fs[0]) for o, f in zip(objs, fs)):
            raise sym.Unsupported('constructor that gives different kinds of objects')
        r = object.__new__(type(objs[0]))
        for n in fs[0]:
            vs = [f[n] for f in fs]
            if all(v is vs[0] for v in vs):
                v = vs[0]
            elif all(isinstance(v, (bytes, bytearray)) for v in vs):
                v = self.cases(k, vs)
            elif all(isinstance(v, int) for v in vs):
                v = vs[-1]
                for j in range(len(vs) - 2, -1, -1):
                    v = self.ite(self.sym.mkbool(self.sym.zint(k) == j), vs[j], v)
            else:
                raise sym.Unsupported('field %s that depends on the argument' % n)
            self.hooks.record_attr(r, n)
            object.__setattr__(r, n, v)
        return r

    def ite(self, cond, a, b):
        """conditional value without splitting the path"""
        sym = self.sym
        c = sym.simp(sym.zbool(cond))
        if sym.z3.is_true(c):
            return a
        if sym.z3.is_false(c):
            return b
        if isinstance(a, (bytes, bytearray)):
            return sym.mkbytes([sym.IteR(c, sym.chunks_of(a), sym.chunks_of(b))])
        if isinstance(a, bool):
            return sym.mkbool(sym.z3.If(c, sym.zbool(a), sym.zbool(b)))
        return sym.mkint(sym.z3.If(c, sym.zint(a), sym.zint(b)))

    def seq(self, name, builder, lo=0, hi=100000, cls=tuple, n=None):
        """sequence of builder(i), of any length in [lo, hi]"""
        sym, c = self.sym, self.c
        if n is None:
            n = self.int(name + '.n', lo, hi)
        if isinstance(n, int) and not isinstance(n, sym.Sym) and n == 0:
            return self.models.SymList([], cls) if cls is list else cls()
        i = sym.z3.Int(c.name('e.' + name))
        c.index_stack.append(i)
        fr = c.frames[-1]
        mark = fr.pos
        try:
            tmpl = builder(sym.mkint(i))
        finally:
            c.index_stack.pop()
        if any(not forced for (_, forced, tag) in fr.prefix[mark:fr.pos]):
            raise sym.Unsupported('element builder %r splits the path' % name)
        return self.models.SymList([self.models.MapSeg(i, tmpl, 0, sym.zint(n))], cls)

    def bodies(self, *names):
        """from here on, verify the bodies of the functions in pv.stubs"""
        self.c.nostub = set(names) if names else True

    def enc(self, kind, obj, b, *params):
        """the encoding b of obj as one unit"""
        if not isinstance(b, self.sym.SymBytes):
            return b
        return self.sym.mkbytes([self.sym.Enc(kind, obj, params, list(b.chunks))])

    def byte0(self, b):
        """first byte (0 if empty), without splitting"""
        sym, z3 = self.sym, self.sym.z3

        def first(ch):
            for k, c in enumerate(ch):
                if type(c) is sym.IteR:
                    e = z3.If(c.c, first(list(c.a) + ch[k + 1:]), first(list(c.b) + ch[k + 1:]))
                    return e
                if type(c) is sym.Enc:
                    return first(list(c.rope) + ch[k + 1:])
                if type(c) in (sym.FMap, sym.VarI):
                    raise sym.Unsupported('first byte')
                n = c.len()
                n = n if isinstance(n, int) else sym.simp(n)
                if sym.is_c(n):
                    if sym.cv(n) == 0:
                        continue
                    return c.byte(0)
                return z3.If(n > 0, c.byte(0), first(ch[k + 1:]))
            return z3.IntVal(0)
        return sym.mkint(first(sym.chunks_of(b)))

    def same_bytes(self, a, b):
        """equality of strings of the same fixed length, without splitting"""
        z3, sym = self.sym.z3, self.sym
        A, B = sym.chunks_of(a), sym.chunks_of(b)
        n = sym.fixed_len(A)
        if n is None or n != sym.fixed_len(B):
            raise sym.Unsupported('same_bytes on strings of different lengths')
        return sym.mkbool(z3.And([sym.rope_byte(A, k) == sym.rope_byte(B, k) for k in range(n)]))

    def varint(self, n):
        """compact size encoding"""
        return self.sym.mkbytes([self.sym.mkvarint_chunk(self.sym.zint(n))])

    def each(self, name, A, B, f):
        """equal lengths, and f(a, b) for an arbitrary pair of elements at the
        same position"""
        c, sym = self.c, self.sym
        na, nb = self.hooks.call(len, A), self.hooks.call(len, B)
        self._prove(name + ': number', sym.zint(na) == sym.zint(nb), '')
        bad = []

        def thunk():
            k = c.fresh_index()
            if not c.decide(sym.z3.And(k >= 0, k < sym.zint(na))):
                return
            f(self.hooks.getitem(A, sym.mkint(k)), self.hooks.getitem(B, sym.mkint(k)))

        def on_path(kind, v, conds):
            if kind == 'exc':
                if not isinstance(v, Failed):
                    raise v
                bad.append(v)
        c.explore(thunk, on_path)
        if bad:
            raise Failed()

    # -- conditions
    def assume(self, cond):
        c = self.c
        c.assume(self.sym.zbool(cond))
        if not c.sat():
            raise self.sym.Infeasible()

    def forall(self, lst, pred):
        """precondition on every element of a sequence"""
        sym, c = self.sym, self.c
        for p in self.models.seq_parts(lst):
            if isinstance(p, self.models.MapSeg):
                c.index_stack.append(p.i)
                try:
                    f = sym.zbool(pred(p.tmpl))
                finally:
                    c.index_stack.pop()
                i = p.i
                c.add_forall(p.lo, p.hi, lambda j, f=f, i=i: sym.zsub(f, [(i, j)]))
            else:
                self.assume(pred(p))

    def catch(self, f, *a, **k):
        try:
            return None, self.hooks.call(f, *a, **k)
        except Exception as e:
            return e, None

    def fork(self, cond):
        return self.c.decide(self.sym.zbool(cond)) if isinstance(cond, self.sym.Sym) else bool(cond)

    # -- obligations
    def ensure(self, name, cond, detail=''):
        sym = self.sym
        self._prove(name, sym.zbool(cond), detail)

    def fail(self, name, detail=''):
        self._prove(name, self.sym.z3.BoolVal(False), detail)

    def implies(self, name, a, b):
        z3 = self.sym.z3
        self._prove(name, z3.Implies(self.sym.zbool(a), self.sym.zbool(b)), '')

    def ensure_eq(self, name, a, b, detail=''):
        sym, c = self.sym, self.c
        if a.__class__ is not b.__class__ and not (isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray))) \
                and not (isinstance(a, int) and isinstance(b, int)) and not isinstance(a, tuple):
            self._prove(name, sym.z3.BoolVal(False), 'values of different kinds: %s, %s' % (
                a.__class__.__name__, b.__class__.__name__))
            return
        bad = []

        def thunk():
            out = []
            c.eq_val(a, b, out)
            return out

        def on_path(kind, v, conds):
            if kind != 'ok':
                raise v
            e = sym.z3.And(v) if v else sym.z3.BoolVal(True)
            self._prove(name, e, detail, collect=bad)
        c.explore(thunk, on_path)
        for r in bad:
            raise Failed()

    def _prove(self, name, e, detail, collect=None):
        sym, c = self.sym, self.c
        st = c.stats
        e = sym.simp(e)
        if sym.z3.is_true(e):
            st.by['simplifier'] += 1
            self.results.append((name, 'proved', 'simplifier'))
            return
        r, model = c.prove(e)
        if r == 'sat' and 'linear' in c.__dict__:
            model.update(c.linear.model())
        if r == 'unsat':
            st.by['z3'] += 1
            self.results.append((name, 'proved', 'z3'))
            return
        if r == 'unsat-cvc5':
            st.by['cvc5'] += 1
            self.results.append((name, 'proved', 'cvc5'))
            return
        if r == 'sat':
            self.results.append((name, 'refuted', detail, model, str(sym.simp(e))[:2000], list(c.notes)))
        else:
            self.results.append((name, 'unknown', detail, None, str(sym.simp(e))[:2000], list(c.notes)))
        if collect is not None:
            collect.append(name)
        else:
            raise Failed()


# ----------------------------------------------------------------- concrete

class ConcS:
    """inputs from a model (a dict of function tables) or at random"""
    symbolic = False

    def __init__(self, contract, tables=None, rng=None, small=True, vary=0):
        self.contract = contract
        self.tables = tables
        self.rng = rng or random.Random(0)
        self.idx = []
        self.log = {}
        self.checked = 0
        self.vary = vary
        self.small = small

    def _look(self, nm, args):
        if self.tables is None:
            return None
        t = self.tables.get(nm)
        if t is None:
            return None
        k = ','.join(str(a) for a in args)
        if k in t['map']:
            return t['map'][k]
        if self.vary and self.rng.random() < 0.5:
            return None
        return t['else']

    def int(self, name, lo, hi):
        v = self._look('in.' + name, self.idx)
        if v is None or not (lo is None or lo <= v) or not (hi is None or v <= hi):
            if self.tables is not None and v is not None and not self.vary:
                v = max(lo, min(hi, v))
            else:
                v = self.rand_int(lo, hi)
        self.log.setdefault(name, []).append(v)
        return v

    def rand_int(self, lo, hi):
        r = self.rng
        c = r.random()
        if hi - lo <= 8:
            return r.randint(lo, hi)
        if c < 0.25:
            return r.randint(lo, min(hi, lo + 4))
        if c < 0.4:
            return r.randint(max(lo, hi - 3), hi)
        if c < 0.7:
            b = (hi - lo).bit_length()
            k = r.randint(1, b)
            v = lo + min(hi - lo, (1 << k) + r.randint(-2, 2))
            return max(lo, min(hi, v))
        if c < 0.8:
            for _ in range(4):
                v = r.choice((0, 1, 0xfc, 0xfd, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000))
                if lo <= v <= hi:
                    return v
        return r.randint(lo, hi)

    def bool(self, name):
        v = self._look('in.' + name, self.idx)
        if v is None:
            v = self.rng.random() < 0.5
        self.log.setdefault(name, []).append(bool(v))
        return bool(v)

    def bytes(self, name, n=None, lo=0, hi=100000):
        nm = 'in.' + name
        if n is None:
            n = self._look(nm + '.len', self.idx)
            if n is None:
                n = self.rand_len(lo, hi)
            n = max(lo, min(hi, n, 70000))
        if self.tables is None:
            c = self.rng.random()
            if c < 0.06:
                r = b'\x00' * n
            elif c < 0.1:
                r = b'\xff' * n
            else:
                r = self.rng.randbytes(n)
        else:
            r = bytes([self._byte(nm, k) for k in range(n)])
        self.log.setdefault(name, []).append(r.hex() if n < 200 else '%d bytes' % n)
        return r

    def source(self, name, make):
        v = (self.tables or {}).get('in.' + name)
        if v is not None:
            r = bytes.fromhex(v['else'])
        else:
            r = bytes(make())
        if v is None or self.vary:
            r = self.mangle(r)
        self.log.setdefault(name, []).append(r.hex() if len(r) < 4000 else '%d bytes' % len(r))
        return r

    def mangle(self, b):
        """b with a few changes"""
        r = self.rng
        b = bytearray(b)
        for _ in range(r.choice((0, 0, 1, 1, 1, 2, 3))):
            k = r.randrange(len(b) + 1) if r.random() < 0.7 else r.randrange(min(len(b), 60) + 1)
            what = r.randrange(7)
            if what == 0:
                del b[k:]
            elif what == 1:
                b += r.randbytes(r.randrange(1, 4))
            elif what == 2:
                b[k:k] = bytes([r.choice((0, 1, 0xfd, 0xff, r.randrange(256)))])
            elif what == 3:
                del b[k:k + r.randrange(1, 4)]
            elif what == 4 and k < len(b) and b[k] < 0xfd:
                # a longer encoding of a length
                b[k:k + 1] = r.choice((b'\xfd', b'\xfe', b'\xff')) + bytes([b[k]])
                n = {0xfd: 1, 0xfe: 3, 0xff: 7}[b[k]]
                b[k + 2:k + 2] = bytes(n)
            elif k < len(b):
                b[k] = r.choice((0, 1, 2, 8, 9, 10, 11, 0x80, 0xff, b[k] ^ 1 << r.randrange(8), r.randrange(256)))
        return bytes(b)

    def consumed(self, x):
        return x if isinstance(x, bytes) else x.getvalue()[:x.tell()]

    def short(self, x):
        return False

    def text(self, name, lo=0):
        return self.rng.choice(['', 'x', ' ', '\x00', 'error %d %s', 'long' * 40][1 if lo else 0:])

    def _byte(self, nm, k):
        v = self._look(nm, list(self.idx) + [k])
        if v is None:
            return self.rng.randrange(256) if self.vary else 0
        return v % 256

    def rand_len(self, lo, hi):
        r = self.rng
        c = r.random()
        if c < 0.15:
            return lo
        if c < 0.75:
            return r.randint(lo, min(hi, lo + 40))
        if c < 0.9:
            return min(hi, max(lo, r.choice((0x4b, 0x4c, 0xfc, 0xfd, 0xfe, 255, 256, 520))))
        return r.randint(lo, min(hi, lo + 700))

    def bit_bytes(self, name, n):
        return self.bytes(name, n)

    def bits(self, name, k):
        return self.int(name, 0, (1 << k) - 1)

    def chars(self, name, n, domain):
        return ''.join(domain[b % len(domain)] for b in self.bytes(name, n))

    def choice(self, name, n):
        return self.int(name, 0, n - 1)

    def select(self, name, alts):
        return self.cases(self.int(name, 0, len(alts) - 1), alts)

    def cases(self, k, alts):
        # all alternatives are evaluated, as in the symbolic case
        alts = [x() if callable(x) else x for x in alts]
        return alts[k]

    def variants(self, k, cls, alts):
        return cls(alts[k])

    def ite(self, cond, a, b):
        return a if cond else b

    def seq(self, name, builder, lo=0, hi=100000, cls=tuple, n=None):
        if n is None:
            n = self._look('in.' + name + '.n', self.idx)
            if n is None:
                r = self.rng.random()
                n = lo if r < 0.2 else self.rng.randint(lo, min(hi, lo + (4 if r < 0.97 else 300)))
            n = max(lo, min(hi, n, 2000))
        self.log.setdefault(name + '.n', []).append(n)
        out = []
        for i in range(n):
            self.idx.append(i)
            try:
                out.append(builder(i))
            finally:
                self.idx.pop()
        return cls(out)

    def assume(self, cond):
        if not cond:
            raise Reject()

    def forall(self, lst, pred):
        for x in lst:
            if not pred(x):
                raise Reject()

    def catch(self, f, *a, **k):
        try:
            return None, f(*a, **k)
        except (Violation, Reject):
            raise
        except Exception as e:
            return e, None

    def fork(self, cond):
        return bool(cond)

    def bodies(self, *names):
        pass

    def enc(self, kind, obj, b, *params):
        return b

    def same_bytes(self, a, b):
        return a == b

    def byte0(self, b):
        return b[0] if b else 0

    def varint(self, n):
        if n < 0xfd:
            return bytes([n])
        if n <= 0xffff:
            return b'\xfd' + n.to_bytes(2, 'little')
        if n <= 0xffffffff:
            return b'\xfe' + n.to_bytes(4, 'little')
        return b'\xff' + n.to_bytes(8, 'little')

    def each(self, name, A, B, f):
        self.ensure(name + ': number', len(A) == len(B))
        for a, b in zip(A, B):
            f(a, b)

    def ensure(self, name, cond, detail=''):
        self.checked += 1
        if not cond:
            raise Violation(name, detail)

    def fail(self, name, detail=''):
        raise Violation(name, detail)

    def implies(self, name, a, b):
        self.ensure(name, (not a) or b)

    def ensure_eq(self, name, a, b, detail=''):
        self.checked += 1
        if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
            ok = bytes.__eq__(bytes(a), bytes(b))
        elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            ok = list(a) == list(b)
        else:
            ok = a == b
        if not ok:
            raise Violation(name, '%s != %s' % (show(a), show(b)))


def show(x):
    if isinstance(x, (bytes, bytearray)):
        h = bytes(x).hex()
        return h if len(h) < 400 else h[:400] + '...'
    return repr(x)[:400]
