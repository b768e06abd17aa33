"""Loops over lists of symbolic length: induction over the iterations.

A loop body is a closure (see pv.rewrite).  For an iterable with a part of
symbolic length the body is executed once for an *arbitrary* iteration i, on
all of its paths, starting from a state in which every variable or object that
the body modifies has been replaced by an unknown (the induction hypothesis).
What is modified is found by iterating to a fixpoint.  The state after the
loop follows by induction:

  accumulated byte strings   prefix ++ concat(lo <= j < hi, appended[j])
  accumulated lists          prefix ++ [element[j] for lo <= j < hi]
  integers, booleans         unknown function V with V(lo)=start and
                             V(j+1) = step(V(j), j)
  streams being read         remaining input as a function of j
  other locals               unusable after the loop

Iterations that leave the loop (break, return, exception) are handled by
distinguishing "no iteration leaves" (for all j: not leaves(j)) from "i0 is
the first that leaves" (for all j < i0: not leaves(j)), in which case the body
is executed again for i0.
"""
import operator
import os
import z3
from . import sym, models
from .sym import (Sym, SymBytes, SymInt, SymBool, Unsupported, Infeasible, EngineStop, Lit, Atom, FMap,
                  IteR, Pre, ctx, zint, zbool, mkint, mkbool, mkbytes, chunks_of, simp, is_c, cv,
                  zlen, subst, norm, zsub, flat1, rope_len, obj_fields, obj_make)
from .models import SymList, MapSeg, PreSeg, SymIO, SymHash, SymHMAC, SymBuf, Model, seq_parts, is_symseq


class Ret:
    __slots__ = ('value',)

    def __init__(self, value):
        self.value = value


class _Sig:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


CONT = None
BRK = _Sig('break')
DONE = _Sig('done')


class Unbound:
    def __repr__(self):
        return '<unbound>'


UNBOUND = Unbound()


class Poison(Sym):
    """value of a loop-local variable that is not determined"""

    def __init__(self, what):
        object.__setattr__(self, 'what', what)

    def _no(self, *a, **k):
        raise Unsupported('use of %s' % object.__getattribute__(self, 'what'))

    def __getattribute__(self, n):
        if n in ('_no', 'what', 'subst', '__class__'):
            return object.__getattribute__(self, n)
        raise Unsupported('use of %s' % object.__getattribute__(self, 'what'))

    def subst(self, sub):
        return self

    __bool__ = __len__ = __iter__ = __getitem__ = __call__ = __add__ = __radd__ = __eq__ = __ne__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __or__ = _no
    __index__ = __int__ = __str__ = __format__ = __contains__ = __iadd__ = __mod__ = __lshift__ = _no
    __hash__ = _no


class While:
    """while L() op R(): body.  With integers of unknown value the loop is
    one over range(R - L) if every iteration reduces R - L by one."""

    def __init__(self, left, op, right):
        self.L, self.R = left, right
        self.test = getattr(operator, op)
        self.op = op

    def measure(self, a, b):
        d = zint(b) - zint(a) if self.op in ('lt', 'le', 'ne') else zint(a) - zint(b)
        return simp(d + 1 if self.op in ('le', 'ge') else d)

    def run(self, body, getters, setter, names):
        tried = False
        while True:
            a, b = self.L(), self.R()
            if not tried and type(a) in (int, SymInt) and type(b) in (int, SymInt) and \
                    SymInt in (type(a), type(b)) and ctx() is not None:
                n = self.measure(a, b)
                if not is_c(n):
                    tried = True
                    r = self.induction(n, body, getters, setter, names)
                    if r is not FAILED:
                        return r
            if not self.test(a, b):
                return None
            s = body(None)
            if s is not None:
                return s

    def induction(self, n, body, getters, setter, names):
        c = ctx()
        if c.valid(n <= 8) or self.op == 'ne' and not c.valid(n >= 0):
            return FAILED
        if not c.decide(n > 0):
            return None

        def inv(i):
            """after iteration i the measure is n - (i + 1)"""
            a, b = self.L(), self.R()
            if type(a) not in (int, SymInt) or type(b) not in (int, SymInt):
                return False
            e = simp(self.measure(a, b) - (n - (i + 1)))
            return cv(e) == 0 if is_c(e) else c.valid(e == 0)
        start = get_locals(getters)
        cnt = dict(c.counter)
        i = z3.Int(c.name('w'))
        stage = []
        try:
            return sym_loop(MapSeg(i, mkint(i), 0, n), body, getters, setter, names, inv, stage)
        except Unsupported:
            if stage:
                raise
            for k, v in cnt.items():
                c.counter[k] = max(v, c.counter.get(k, 0))
            if getters:
                setter(*start)
            return FAILED


FAILED = _Sig('failed')


def run_loop(iterable, body, getters, setter, names):
    """execute `for item in iterable: sig = body(item)`; returns None/BRK/Ret"""
    if type(iterable) is While:
        return iterable.run(body, getters, setter, names)
    if not isinstance(iterable, Sym) or (type(iterable) is SymList and iterable.concrete()):
        for it in iterable:
            s = body(it)
            if s is not None:
                return s
        return None
    if type(iterable) not in (SymList, models.SymIter, models.SymRange):
        for it in iterable:
            s = body(it)
            if s is not None:
                return s
        return None
    if type(iterable) is models.SymIter:
        # one-shot: elements are consumed as the loop proceeds
        parts = iterable.take()
    else:
        parts = seq_parts(iterable)
    parts = list(parts)
    while parts:
        p = parts.pop(0)
        if isinstance(p, MapSeg) and p.split is not None:
            # modified in the meantime
            parts = p.parts() + parts
            continue
        if isinstance(p, MapSeg):
            n = p.count()
            if is_c(n) and cv(n) <= 4:
                for k in range(cv(n)):
                    s = body(p.at(simp(p.lo + k)))
                    if s is not None:
                        return s
                continue
            s = sym_loop(p, body, getters, setter, names)
        elif isinstance(p, PreSeg):
            raise Unsupported('iteration over an accumulator')
        else:
            s = body(p)
        if s is not None:
            return s
    return None


def get_locals(getters):
    r = []
    for g in getters:
        try:
            r.append(g())
        except NameError:
            r.append(UNBOUND)
    return r


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Sym) or isinstance(b, Sym):
        if type(a) is not type(b):
            return False
        if type(a) in (SymInt, SymBool):
            return a.e.eq(b.e)
        if type(a) is SymBytes:
            return [c.key() for c in a.chunks] == [c.key() for c in b.chunks]
        return False
    if type(a) in (int, bool, bytes, str, type(None)) and type(a) is type(b):
        return a == b
    return False


class Acc:
    """induction hypothesis for one modified variable or object"""


class RopeAcc(Acc):
    def __init__(self, name, start):
        self.name, self.start = name, start

    def pre(self, c, i):
        n = c.app(self.name + '.len', c.idx(), rng=(0, None))
        return [Pre(self.name, n)]

    def post(self, chunks):
        chunks = norm(chunks)
        if not chunks or type(chunks[0]) is not Pre or chunks[0].name != self.name:
            raise Unsupported('accumulated bytes are not only appended to')
        if any(mentions_pre(x, self.name) for x in chunks[1:]):
            raise Unsupported('accumulated bytes used inside the loop')
        return chunks[1:]

    def final(self, c, i, lo, hi, outs):
        body = merge_ropes([(d, r) for d, r in outs])
        if not body:
            return list(self.start)
        return norm(list(self.start) + telescope([FMap(i, body, lo, hi)]))


def mentions_pre(x, name):
    return name in repr(x.key())


def merge_ropes(outs):
    outs = list(outs)
    r = outs[-1][1]
    for d, x in reversed(outs[:-1]):
        if [c.key() for c in x] == [c.key() for c in r]:
            continue
        # common prefix and suffix stay outside of the conditional
        k = 0
        while k < len(x) and k < len(r) and x[k].key() == r[k].key():
            k += 1
        t = 0
        while t < len(x) - k and t < len(r) - k and x[-1 - t].key() == r[-1 - t].key():
            t += 1
        mid = IteR(d, list(x[k:len(x) - t]), list(r[k:len(r) - t]))
        r = list(x[:k]) + flat1(mid) + list(x[len(x) - t:])
    return r


def telescope(chunks):
    return chunks


def merge_vals(outs, what='value'):
    """[(cond, value)] -> one value"""
    outs = list(outs)
    r = outs[-1][1]
    for d, x in reversed(outs[:-1]):
        r = merge2(d, x, r, what)
    return r


def merge2(d, x, y, what=''):
    if x is y or same(x, y):
        return x
    if isinstance(x, bool) and isinstance(y, bool):
        return mkbool(z3.If(d, zbool(x), zbool(y)))
    if isinstance(x, int) and isinstance(y, int) and not is_sub(x, int) and not is_sub(y, int):
        return mkint(z3.If(d, zint(x), zint(y)))
    if isinstance(x, (bytes, bytearray)) and isinstance(y, (bytes, bytearray)):
        cx = x.__class__
        cy = y.__class__
        if cx is not cy:
            raise Unsupported('merging byte strings of different classes')
        ch = merge_ropes([(d, chunks_of(x)), (z3.BoolVal(True), chunks_of(y))])
        return mkbytes(ch, None if cx is bytes else cx)
    if isinstance(x, tuple) and isinstance(y, tuple) and not isinstance(x, Sym) and not isinstance(y, Sym) \
            and len(x) == len(y) and type(x) is type(y):
        v = [merge2(d, a, b, what) for a, b in zip(x, y)]
        return tuple.__new__(type(x), v)
    if type(x) is SymList and type(y) is SymList and x.cls is y.cls:
        if len(x.segs) == len(y.segs) and x.concrete() and y.concrete():
            return SymList([merge2(d, a, b, what) for a, b in zip(x.segs, y.segs)], x.cls)
        if len(x.segs) == len(y.segs) == 1 and isinstance(x.segs[0], MapSeg) and isinstance(y.segs[0], MapSeg):
            a, b = x.segs[0], y.segs[0]
            i = a.i
            t = merge2(d, a.tmpl, subst(b.tmpl, [(b.i, simp(i - a.lo + b.lo))]), what)
            return SymList([MapSeg(i, t, a.lo, simp(z3.If(d, a.hi, simp(b.hi - b.lo + a.lo))))], x.cls)
    if type(x) is type(y):
        fx, fy = obj_fields(x), obj_fields(y)
        if fx is not None and fy is not None and set(fx) == set(fy):
            return obj_make(type(x), {k: merge2(d, fx[k], fy[k], what) for k in fx})
    raise Unsupported('merging %s of different shape (%s / %s)' % (what, type(x).__name__, type(y).__name__))


def is_sub(x, t):
    return not isinstance(x, Sym) and type(x) is not t


class IntAcc(Acc):
    linear = None        # step, once all iterations are known to add it

    def __init__(self, name, start, kind):
        self.name, self.start, self.kind = name, start, kind

    def closed(self, t):
        return simp(zint(self.start) + self.linear * (zlen(t) - zlen(self.lo)))

    def promote(self, c, i, vals):
        """every iteration adds the same constant: known in closed form"""
        if self.linear is not None or self.kind != 'int' or not vals:
            return False
        ds = [simp(zint(v) - c.app(self.name, c.idx() + [i])) for v in vals]
        if not is_c(ds[0]) or any(not d.eq(ds[0]) for d in ds):
            return False
        self.linear = ds[0]
        return True

    def check_step(self, i, v):
        return self.linear in (None, False) or is_c(simp(zint(v) - self.closed(i + 1))) and \
            cv(simp(zint(v) - self.closed(i + 1))) == 0

    def pre(self, c, i):
        if self.linear not in (None, False):
            return mkint(self.closed(i))
        e = c.app(self.name, c.idx(), kind=self.kind)
        return mkbool(e) if self.kind == 'bool' else mkint(e)

    def post(self, v):
        if self.kind == 'bool':
            if not isinstance(v, bool):
                raise Unsupported('loop variable changes type')
        elif not isinstance(v, int):
            raise Unsupported('loop variable changes type')
        return v

    def final(self, c, i, lo, hi, outs):
        if self.linear not in (None, False):
            return mkint(self.closed(hi))
        v = merge_vals(outs)
        outer = c.idx()
        zz = zbool if self.kind == 'bool' else zint
        if self.kind == 'int':
            me = c.app(self.name, outer + [i], kind='int')
            ds = [(e, simp(zint(x) - me)) for e, x in outs]
            d = ds[-1][1]
            for e, x in reversed(ds[:-1]):
                d = simp(z3.If(e, x, d))
            if not mentions(d, self.name):
                # plain accumulation
                if is_c(d):
                    return mkint(zint(self.start) + d * (zlen(hi) - zlen(lo)))
                return mkint(zint(self.start) + c.sum_term(i, d, simp(zlen(lo)), simp(zlen(hi)), c.valid(z3.Implies(z3.And(zlen(lo) <= i, i < zlen(hi)), d >= 0)), fold=True))

        def at(t):
            return c.app(self.name, outer + [t], kind=self.kind)
        step = zz(v)
        c.assume(at(zlen(lo)) == zz(self.start))
        c.add_forall(lo, hi, lambda j: at(simp(j + 1)) == zsub(step, [(i, j)]))
        # the last step is always of interest
        hm = simp(zlen(hi) - 1)
        c._add(z3.Implies(zlen(hi) > zlen(lo), at(zlen(hi)) == zsub(step, [(i, hm)])))
        r = at(zlen(hi))
        return mkbool(r) if self.kind == 'bool' else mkint(r)


def mentions(e, name):
    todo, seen = [e], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() == name:
            return True
        todo.extend(t.children())
    return False


class TempAcc(Acc):
    def __init__(self, what):
        self.what = what

    def pre(self, c, i):
        return Poison('%s before it is assigned in the iteration' % self.what)

    def post(self, v):
        return v

    def final(self, c, i, lo, hi, outs):
        return Poison('%s after a loop of symbolic length' % self.what)


class ListAcc(Acc):
    def __init__(self, name, start):
        self.name, self.start = name, start

    counted = False
    lo = None

    def pre(self, c, i):
        try:
            n = SymList(self.start).count() + (i - zlen(self.lo))
        except Unsupported:
            n = None
        return [PreSeg(self.name, n, self)]

    def post(self, segs):
        if not segs or not isinstance(segs[0], PreSeg) or segs[0].name != self.name:
            raise Unsupported('accumulated list is not only appended to')
        if len(segs) > 2 or (len(segs) == 2 and isinstance(segs[1], (MapSeg, PreSeg))):
            raise Unsupported('more than one element appended per iteration')
        return segs[1:]

    def final(self, c, i, lo, hi, outs):
        if self.counted and any(len(s) != 1 for _, s in outs):
            raise Unsupported('length of a list that does not grow in every iteration')
        if all(len(s) == 0 for _, s in outs):
            return list(self.start)
        if any(len(s) != 1 for _, s in outs):
            raise Unsupported('conditional append to a list')
        t = merge_vals([(d, s[0]) for d, s in outs], 'list elements')
        # consecutive mappings of one loop are one mapping
        return list(self.start) + [MapSeg(i, t, lo, hi)]


class SplitLoop(Exception):
    """the loop has to be split in two at iteration mid"""

    def __init__(self, mid):
        self.mid = mid


class ReadAcc(Acc):
    """stream read inside the loop"""

    def __init__(self, name, start, c, lo, hi):
        self.name = name
        self.start = start
        done, rest = start[:2]
        self.kind = None
        rest = norm(rest)
        n = simp(zlen(hi) - zlen(lo))
        while rest and type(rest[0]) is FMap and c.valid(rest[0].hi <= rest[0].lo):
            rest = rest[1:]
        if rest and type(rest[0]) is FMap and not c.valid(rest[0].hi - rest[0].lo >= n) and \
                c.decide(rest[0].hi - rest[0].lo < n):
            raise SplitLoop(simp(zlen(lo) + rest[0].hi - rest[0].lo))
        if rest and type(rest[0]) is FMap and c.valid(rest[0].hi - rest[0].lo >= n):
            self.kind = 'map'
            self.m = rest[0]
            self.tail = rest[1:]
        elif rest and type(rest[0]) is FMap and c.valid(rest[0].hi - rest[0].lo == zlen(hi) - zlen(lo)):
            self.kind = 'map'
            self.m = rest[0]
            self.tail = rest[1:]
        elif len(rest) >= 1 and type(rest[0]) is Atom and len(rest) == 1:
            self.kind = 'atom'
            self.a = rest[0]
            self.end = simp(zlen(self.a.off) + zlen(self.a.n))
        elif not rest:
            self.kind = 'empty'
        else:
            raise Unsupported('reading a stream of this shape in a loop of symbolic length')
        self.lo = lo

    def pos(self, c, outer, t):
        return c.app(self.name + '.pos', outer + [zlen(t)])

    def pre(self, c, i):
        d = [Pre(self.name, c.app(self.name + '.done', c.idx(), rng=(0, None)))]
        if self.kind == 'map':
            m = self.m
            return (d, [FMap(m.i, m.body, simp(m.lo + i - zlen(self.lo)), m.hi)] + self.tail)
        if self.kind == 'atom':
            p = self.pos(c, c.idx()[:-1], i)
            c.assume(z3.And(p >= zlen(self.a.off), p <= self.end))
            return (d, [Atom(self.a.fn, self.a.args, p, simp(self.end - p))])
        return (d, [])

    def post(self, st):
        return norm(st[1])

    def check(self, c, i, rest):
        """remaining input after one iteration has the expected form"""
        if self.kind == 'map':
            m = self.m
            nxt = FMap(m.i, m.body, simp(m.lo + i - zlen(self.lo) + 1), m.hi)
            exp = norm([nxt] + self.tail)
            got = norm(rest)
            if [x.key() for x in got] == [x.key() for x in exp]:
                return None
            # elements that were taken off but not consumed are put back
            k = next((j for j, x in enumerate(got) if type(x) is FMap), None)
            if k is not None:
                f = got[k]
                one = f.at(simp(f.lo - 1))
                b = len(one)
                if 0 < b <= k and [x.key() for x in got[k - b:k]] == [x.key() for x in one]:
                    got = norm(got[:k - b] + [FMap(f.i, f.body, simp(f.lo - 1), f.hi)] + got[k + 1:])
                    if [x.key() for x in got] == [x.key() for x in exp]:
                        return None
            if os.environ.get('PV_DBG'):
                print('EXP', exp, 'GOT', got, flush=True)
                import traceback; traceback.print_stack()
            raise Unsupported('one iteration does not consume one element')
        if self.kind == 'atom':
            if not rest:
                return self.end
            if len(rest) == 1 and type(rest[0]) is Atom and rest[0].fn == self.a.fn:
                return zlen(rest[0].off)
            raise Unsupported('stream left in an unexpected state')
        return None

    def final(self, c, i, lo, hi, outs):
        outer = c.idx()
        if self.kind == 'map':
            m = self.m
            h = simp(m.lo + zlen(hi) - zlen(lo))
            rest = [] if c.valid(h == m.hi) else [FMap(m.i, m.body, h, m.hi)]
            used = [FMap(m.i, m.body, m.lo, h)]
            return (norm(self.start[0] + used), norm(rest + self.tail))
        if self.kind == 'atom':
            nxt = [(d, o) for d, o in outs]
            e = nxt[-1][1]
            for d, x in reversed(nxt[:-1]):
                e = z3.If(d, x, e)
            P = lambda t: self.pos(c, outer, t)
            off, end = zlen(self.a.off), self.end
            c.assume(P(lo) == off)
            c.add_forall(lo, hi, lambda j: P(simp(j + 1)) == zsub(e, [(i, j)]))
            c.add_forall(lo, simp(zlen(hi) + 1), lambda j: z3.And(P(j) >= off, P(j) <= end))
            p = P(hi)
            c._add(z3.And(p >= off, p <= end))
            c._add(z3.Implies(zlen(hi) > zlen(lo), p == zsub(e, [(i, simp(zlen(hi) - 1))])))
            a = self.a
            return (norm(self.start[0] + [Atom(a.fn, a.args, a.off, simp(p - off))]),
                    norm([Atom(a.fn, a.args, p, simp(end - p))]))
        return self.start


def element_effects(c, i, dirty, reads):
    """{segment: (offset, element after the iteration)}"""
    r = {}
    for k, v in dirty.items():
        if not (isinstance(k, str) and k.startswith('seg:')):
            continue
        s, j, o = v
        off = offset(c, j, i)
        if not is_c(off):
            raise Unsupported('iteration modifies a list element that is not its own')
        if s in r:
            raise Unsupported('iteration modifies two elements of a list')
        r[s] = (off, o, snapshot(o))
    return r


def offset(c, j, i):
    off = simp(j - i)
    if not is_c(off) and c.valid(off == 0):
        return z3.IntVal(0)
    return off


def snapshot(o):
    if isinstance(o, Sym):
        return o.subst([]) if type(o) is SymList else o
    if isinstance(o, tuple) and type(o) is tuple:
        return tuple(snapshot(x) for x in o)
    d = obj_fields(o)
    if d is None or isinstance(o, (int, bytes, str)):
        return o
    return obj_make(type(o), {k: snapshot(x) for k, x in d.items()})


def check_elements(c, i, outs):
    """iterations are independent: each reads and modifies, of every modified
    list, its own element only"""
    mod = {}
    for r in outs:
        for s, (off, o, snap) in r['elems'].items():
            if mod.setdefault(s, off) is not off and not mod[s].eq(off):
                raise Unsupported('iterations modify elements at different offsets')
            if r['leave']:
                raise Unsupported('iteration that leaves the loop modifies a list element')
    if not mod:
        return
    for r in outs:
        for s, j in r['reads']:
            if s in mod and not j.eq(mod[s]):
                raise Unsupported('iteration reads an element of a list that other iterations modify')


def install_elements(c, i, lo, upto, normal):
    segs = {}
    for r in normal:
        for s, (off, o, snap) in r['elems'].items():
            segs[s] = off
    for s, off in segs.items():
        if s.split is not None or s.proxy:
            raise Unsupported('modified list changed while looping')
        a, b = simp(zlen(lo) + off), simp(zlen(upto) + off)
        if c.valid(a <= s.lo):
            a = s.lo
        elif not c.valid(z3.And(a >= s.lo, a <= s.hi)):
            raise Unsupported('range of modified elements')
        if c.valid(b >= s.hi):
            b = s.hi
        elif not c.valid(z3.And(b >= s.lo, b <= s.hi)):
            raise Unsupported('range of modified elements')
        me = simp(i + off)
        pre = subst(s.tmpl, [(s.i, me)])
        inr = z3.And(zlen(lo) <= i, i < zlen(upto), a <= me, me < b)
        outs = []
        for r in normal:
            if not c.sat(z3.And(inr, r['dec'])):
                continue
            outs.append((r['dec'], r['elems'][s][2] if s in r['elems'] else pre))
        if not outs:
            continue
        t = merge_vals(outs, 'modified list elements')
        held = []
        for k, ent in list(s.cache.items()):
            if not models.in_use(ent, s.tmpl) or sym.dead_index(c, ent[1]):
                continue
            x, j = ent
            if c.valid(z3.Or(j < a, j >= b)):
                continue
            if not c.valid(z3.And(a <= j, j < b)):
                raise Unsupported('element of a list in use while a loop modifies it')
            held.append((k, x, j))
        # indices of the new template are shifted back
        t = subst(t, [(i, simp(s.i - off))])
        parts = [(s.lo, a, MapSeg(s.i, s.tmpl, s.lo, a)), (a, b, MapSeg(s.i, t, a, b)),
                 (b, s.hi, MapSeg(s.i, s.tmpl, b, s.hi))]
        for k, x, j in held:
            # the same object, with the values that the loop left
            new = obj_fields(subst(t, [(s.i, j)]))
            old = obj_fields(subst(s.tmpl, [(s.i, j)]))
            for n, v in new.items():
                if same(v, old[n]) or same(v, obj_fields(x)[n]):
                    continue
                if not isinstance(v, (Sym, int, bytes, bytearray, str, type(None))) or type(v) is SymList:
                    raise Unsupported('element of a list in use while a loop modifies its parts')
                o = object.__getattribute__(x, n)
                c.journal.append(lambda x=x, n=n, o=o: object.__setattr__(x, n, o))
                object.__setattr__(x, n, v)
            parts[1][2].cache[k] = (x, j)
            models.live_segs().append(parts[1][2])
        s.set_split([p for p in parts if not (p[0].eq(p[1]) or c.valid(p[0] >= p[1]))])
        if c.dirty is not None:
            raise Unsupported('list elements modified in nested loops')


def sym_loop(seg, body, getters, setter, names, inv=None, stage=None):
    c = ctx()
    i = z3.Int(c.name('i'))
    c.fam[i.decl().name()] = (None, (), 'int')
    lo, hi = seg.lo, seg.hi
    lname = c.name('loop')
    uid0 = c.uid
    start_locals = get_locals(getters)
    accs = {}                 # ('L', k) or ('H', uid) -> Acc
    heap = {}                 # uid -> object

    def make_local(k, v):
        nm = '%s.%s' % (lname, names[k])
        if isinstance(v, bool):
            return IntAcc(nm, v, 'bool')
        if isinstance(v, int):
            return IntAcc(nm, v, 'int')
        if isinstance(v, (bytes, bytearray)) and type(v) is not SymBuf and \
                v.__class__ in (bytes, bytearray):
            return RopeAcc(nm, chunks_of(v))
        return TempAcc('variable %r' % names[k])

    def make_heap(o):
        nm = '%s.obj%d' % (lname, o.uid)
        st = o._pv_state()
        if isinstance(o, SymIO):
            if o.rest:
                return ReadAcc(nm, st, c, lo, hi)
            return RopeAcc(nm, st[0])
        if type(o) in (SymHash, SymHMAC, SymBuf):
            return RopeAcc(nm, st)
        if type(o) is SymList:
            return ListAcc(nm, st)
        raise Unsupported('modifying %s in a loop of symbolic length' % type(o).__name__)

    def set_heap(o, a, st):
        if isinstance(o, SymIO) and isinstance(a, RopeAcc):
            o._pv_restore((st, []))
        else:
            o._pv_restore(st)

    def get_heap(o, a):
        st = o._pv_state()
        if isinstance(o, SymIO) and isinstance(a, RopeAcc):
            if st[1]:
                raise Unsupported('stream is both written and read')
            if len(st) > 2 and st[2]:
                raise Unsupported('loop goes on after the end of a stream')
            return st[0]
        return st

    # a local that is certain to be overwritten first (loop targets) is
    # recognised by the fixpoint below
    for round_ in range(16):
        outs = []
        new = {}

        def thunk():
            c.assume(z3.And(lo <= i, i < hi))
            c.index_stack.append(i)
            if getters:
                vals = list(start_locals)
                for k in range(len(vals)):
                    if ('L', k) in accs:
                        a = accs[('L', k)]
                        v = a.pre(c, i)
                        vals[k] = mkbytes(v) if isinstance(a, RopeAcc) else v
                        if isinstance(a, RopeAcc):
                            vals[k] = SymBytes(v)
                setter(*vals)
            for u, o in heap.items():
                o._pv_touch()
                set_heap(o, accs[('H', u)], accs[('H', u)].pre(c, i))
            saved = c.dirty, getattr(c, 'dirty_new', None)
            c.dirty, c.dirty_new = {}, {}
            reads, c.seg_reads = c.seg_reads, []
            try:
                s = body(seg.at(i))
                return s, (s is None and inv is not None and not inv(i))
            finally:
                c.last_reads, c.seg_reads = c.seg_reads, reads
                if reads is not None:
                    reads.extend(c.last_reads)
                d = c.dirty
                for x in list(d):
                    if isinstance(x, tuple) and x[1] in c.dirty_new:
                        del d[x]
                c.last_dirty = d
                if saved[0] is not None:
                    saved[0].update(d)
                    saved[1].update(c.dirty_new)
                c.dirty, c.dirty_new = saved

        def on_path(kind, v, conds):
            dec = [e for e, isd in conds if isd]
            ass = [e for e, isd in conds if not isd][1:]
            dirty = dict(c.last_dirty)
            sig = v[0] if kind == 'ok' else v
            leave = kind == 'exc' or sig is not None
            elems = element_effects(c, i, dirty, c.last_reads)
            rec = {'broken': kind == 'ok' and v[1], 'kind': kind, 'sig': sig, 'leave': leave,
                   'dec': z3.And(dec) if dec else z3.BoolVal(True),
                   'ass': z3.And(ass) if ass else z3.BoolVal(True), 'vals': {},
                   'elems': elems,
                   'reads': [(s, offset(c, j, i)) for s, j in c.last_reads if obj_fields(s.tmpl) is not None]}
            if not leave:
                post = get_locals(getters)
                for k in range(len(post)):
                    key = ('L', k)
                    if key in accs:
                        a = accs[key]
                        if isinstance(a, RopeAcc):
                            if not isinstance(post[k], (bytes, bytearray)):
                                accs[key] = TempAcc('variable %r' % names[k])
                                new[key] = accs[key]
                                continue
                            rec['vals'][key] = a.post(chunks_of(post[k]))
                        else:
                            try:
                                rec['vals'][key] = a.post(post[k])
                                if type(a) is IntAcc and not a.check_step(i, post[k]):
                                    a.linear = False
                                    new[key] = a
                            except Unsupported:
                                accs[key] = TempAcc('variable %r' % names[k])
                                new[key] = accs[key]
                    elif not same(post[k], start_locals[k]):
                        new[key] = None
                for u, o in heap.items():
                    a = accs[('H', u)]
                    st = get_heap(o, a)
                    rec['vals'][('H', u)] = a.check(c, i, a.post(st)) if isinstance(a, ReadAcc) else a.post(st)
            for x, o in dirty.items():
                if isinstance(x, tuple):
                    if any(models._contains(e[1], o[0]) for e in elems.values()):
                        continue
                    raise Unsupported('attribute %r of an outer object is set in a loop of symbolic length' % (x[2],))
                if isinstance(x, str):
                    if x.startswith('seg:'):
                        continue
                    raise Unsupported('native container modified in a loop of symbolic length')
                if '_sub' in o.__dict__ and any(models._contains(e[1], o) for e in elems.values()):
                    continue
                if x <= uid0 and x not in heap:
                    new[('H', x)] = o
            outs.append(rec)

        before = list(get_locals(getters))
        c.explore(thunk, on_path)
        if getters:
            setter(*before)
        if not new:
            up = [a for key, a in accs.items() if type(a) is IntAcc and a.promote(
                c, i, [r['vals'][key] for r in outs if not r['leave'] and key in r['vals']])]
            if not up:
                break
        for key, o in new.items():
            if key[0] == 'L':
                if o is None and key not in accs:
                    # first guess by the type before the loop
                    accs[key] = make_local(key[1], start_locals[key[1]])
                    accs[key].lo = lo
            else:
                heap[key[1]] = o
                try:
                    accs[key] = make_heap(o)
                    if type(accs[key]) is ListAcc:
                        accs[key].lo = lo
                except SplitLoop as e:
                    for a, b in ((lo, e.mid), (e.mid, hi)):
                        r = sym_loop(MapSeg(seg.i, seg.tmpl, a, b, True), body, getters, setter, names, inv, stage)
                        if r is not None:
                            return r
                    return None
    else:
        raise Unsupported('loop effects do not stabilise')

    if any(r['broken'] for r in outs):
        raise Unsupported('a while loop whose number of iterations is not known')
    if stage is not None:
        stage.append('exact')
    normal = [r for r in outs if not r['leave']]
    leaves = [r for r in outs if r['leave']]

    def E(j):
        return z3.Or([zsub(r['dec'], [(i, j)]) for r in leaves])

    def facts(upto):
        if leaves:
            c.add_forall(lo, upto, lambda j: z3.Not(E(j)))
        for r in normal:
            if not z3.is_true(r['ass']):
                c.add_forall(lo, upto, lambda j, r=r: z3.Implies(
                    zsub(r['dec'], [(i, j)]), zsub(r['ass'], [(i, j)])))

    def install(upto):
        vals = list(start_locals)
        for key, a in accs.items():
            o = [(r['dec'], r['vals'][key]) for r in normal if key in r['vals']]
            if not o:
                # no iteration completes normally
                if key[0] == 'L':
                    continue
                continue
            f = a.final(c, i, lo, upto, o)
            if key[0] == 'L':
                vals[key[1]] = mkbytes(f) if isinstance(a, RopeAcc) else f
            else:
                ob = heap[key[1]]
                ob._pv_touch()
                set_heap(ob, a, f)
        if getters:
            setter(*vals)
        install_elements(c, i, lo, upto, normal)

    if i.decl().name() not in c.dead_vars:
        c.dead_vars.add(i.decl().name())
        c.journal.append(lambda: c.dead_vars.discard(i.decl().name()))
    check_elements(c, i, outs)
    if not leaves:
        facts(hi)
        install(hi)
        return None
    if not normal:
        # the first iteration leaves
        if not c.decide(lo < hi):
            return None
        s = body(seg.at(lo))
        if s is None:
            raise Infeasible()
        return s
    flag = c.fresh_bool(lname + '.completes')
    if c.decide(flag):
        facts(hi)
        if not c.sat():
            raise Infeasible()
        install(hi)
        return None
    i0 = c.app(c.name(lname + '.at'), c.idx())
    c.assume(z3.And(lo <= i0, i0 < hi))
    facts(i0)
    c.add_index(i0, c.solver.add)
    c.assume(E(i0))
    if not c.sat():
        raise Infeasible()
    install(i0)
    s = body(seg.at(i0))
    if s is None:
        raise Infeasible()
    return s


# ------------------------------------------------------------------ folds

def comp_list(iterable, elt, cond, kind):
    """[elt(x) for x in iterable if cond(x)]"""
    if kind == 'gen' and not is_symseq(iterable):
        return _gen(iterable, elt, cond)
    if not is_symseq(iterable):
        if cond is None:
            r = [elt(x) for x in iterable]
        else:
            r = [elt(x) for x in iterable if cond(x)]
        return SymList(r, list) if sym.CTX is not None else r
    acc = SymList([], list)

    def body(x):
        if cond is None or cond(x):
            acc.append(elt(x))
    run_loop(iterable, body, (), None, ())
    if kind == 'gen':
        return models.SymIter(acc.segs)
    return acc


def _gen(iterable, elt, cond):
    for x in iterable:
        if cond is None or cond(x):
            yield elt(x)


def fold_concat(parts, f):
    acc = SymBuf(b'')

    def body(x):
        acc.extend(f(x))
    run_loop(models.SymIter(parts), body, (), None, ())
    return acc.value()


class _IntCell(Model):
    def __init__(self, v):
        self.__dict__['v'] = v
        self._pv_init()


def fold_sum(it, start):
    cell = [start]

    def body(x):
        cell[0] = cell[0] + x

    def setter(v):
        cell[0] = v
    run_loop(it, body, (lambda: cell[0],), setter, ('sum',))
    return cell[0]
