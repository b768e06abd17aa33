"""Models of the standard-library objects used by the code under verification:
lists, byte streams, hash objects, iterators.  Each model is exact for the
operations it offers and raises Unsupported for the others."""
import hashlib
import io
import sys
import z3
from . import sym
from .sym import (Sym, SymBytes, SymInt, SymBool, SymStr, Unsupported, Lit, IntB, App,
                  FMap, Pre, Atom, Infeasible, ctx, zint, mkint, mkbytes, chunks_of, simp, is_c, cv, zlen,
                  subst, norm, rope_len)


class Model(Sym):
    """mutable object with an explicit, copyable state"""

    def _pv_init(self):
        c = sym.CTX
        if c is not None:
            c.uid += 1
            self.__dict__['uid'] = c.uid
        else:
            self.__dict__['uid'] = 0

    def _pv_touch(self):
        """call before every change"""
        c = sym.CTX
        if c is None:
            return
        if c.live_segs and type(self) is SymList and '_sub' in self.__dict__:
            touch_element(self)
        if self.uid <= c.frames[-1].uid0:
            # objects created on this path vanish with it or are its result
            st = self._pv_state()
            c.journal.append(lambda: self._pv_restore(st))
        if c.dirty is not None:
            c.dirty[self.uid] = self

    def __hash__(self):
        return id(self)


# ------------------------------------------------------------------- lists

class MapSeg:
    """elements tmpl[i] for lo <= i < hi of a list

    Elements are materialized on demand (at).  When one is modified, the
    segment is split around it; after a loop that modifies its elements the
    parts have a new template (pv.loops).  proxy: the elements are (parts of)
    elements of another segment, which must not be modified here."""
    __slots__ = ('i', 'tmpl', 'lo', 'hi', 'cache', 'split', 'proxy', 'reads', '__weakref__')

    def __init__(self, i, tmpl, lo, hi, proxy=False):
        self.i, self.tmpl = i, tmpl
        self.lo, self.hi = simp(zlen(lo)), simp(zlen(hi))
        self.cache = {}
        self.split = None               # [(lo, hi, MapSeg or element)]
        self.proxy = proxy

    def at(self, j):
        j = simp(zlen(j))
        if self.split is not None:
            c = ctx()
            for lo, hi, p in self.split:
                if c.decide(z3.And(lo <= j, j < hi)):
                    return p.at(j) if isinstance(p, MapSeg) else p
            raise Unsupported('element of a modified list')
        k = j.sexpr()
        r = self.cache.get(k)
        if r is None:
            v = subst(self.tmpl, [(self.i, j)])
            r = self.cache[k] = (v, j)
            if sym.obj_fields(v) is not None or isinstance(v, tuple):
                live_segs().append(self)
        c = sym.CTX
        if c is not None and c.seg_reads is not None:
            c.seg_reads.append((self, j))
        return r[0]

    def subst(self, sub):
        if self.split is not None:
            raise Unsupported('substitution in a modified segment')
        sub2 = [s for s in sub if not s[0].eq(self.i)]
        return MapSeg(self.i, subst(self.tmpl, sub2), sym.zsub(self.lo, sub),
                      sym.zsub(self.hi, sub), self.proxy)

    def count(self):
        return simp(self.hi - self.lo)

    def parts(self):
        if self.split is None:
            return [self]
        return [x for _, _, p in self.split for x in (p.parts() if isinstance(p, MapSeg) else [p])]

    def set_split(self, parts):
        c = ctx()
        old = self.split
        c.journal.append(lambda: setattr(self, 'split', old))
        self.split = parts

    def modify(self, k, o):
        """element o = at(k) is about to be modified"""
        if self.proxy:
            raise Unsupported('modifying an element of a derived sequence')
        if o is self.tmpl:
            raise Unsupported('modifying an element that occurs several times')
        c = ctx()
        o2, j = self.cache[k]
        left = MapSeg(self.i, self.tmpl, self.lo, j)
        right = MapSeg(self.i, self.tmpl, simp(j + 1), self.hi)
        for k2, ent in list(self.cache.items()):
            if k2 == k or not in_use(ent, self.tmpl) or sym.dead_index(c, ent[1]):
                continue
            x, j2 = ent
            if c.valid(j2 < j):
                left.cache[k2] = (x, j2)
                live_segs().append(left)
            elif c.valid(j2 > j):
                right.cache[k2] = (x, j2)
                live_segs().append(right)
            else:
                raise Unsupported('list elements that may be the same one')
        ps = []
        if not c.valid(left.lo >= left.hi):
            ps.append((left.lo, left.hi, left))
        ps.append((j, simp(j + 1), o2))
        if not c.valid(right.lo >= right.hi):
            ps.append((right.lo, right.hi, right))
        self.set_split(ps)
        if c.dirty is not None:
            c.dirty['seg:%d' % id(self)] = (self, j, o2)


def in_use(ent, tmpl):
    """the element may be referenced from outside of the segment"""
    v = ent[0]
    if sym.obj_fields(v) is None:
        return isinstance(v, (tuple, list)) and not isinstance(v, Sym) and \
            any(sym.obj_fields(y) is not None for y in v)
    if sys.getrefcount(v) > 3:
        return True
    return _part_in_use(v, tmpl)


def _part_in_use(v, tmpl):
    t = sym.obj_fields(tmpl) or {}
    for n in t:
        p = object.__getattribute__(v, n)
        if sym.obj_fields(p) is None and type(p) is not SymList or p is t[n] or isinstance(p, (int, bytes, str)):
            continue
        # one reference from v, p, and the argument
        if sys.getrefcount(p) > 3 or (type(p) is not SymList and _part_in_use(p, t[n])):
            return True
    return False


def mark_proxy(s):
    if not s.proxy:
        ctx().journal.append(lambda: setattr(s, 'proxy', False))
        s.proxy = True


def live_segs():
    c = ctx()
    if c.live_segs is None:
        c.live_segs = []
    return c.live_segs


def _contains(v, o, depth=0):
    if v is o:
        return True
    if depth > 4:
        return False
    if isinstance(v, Sym):
        return type(v) is SymList and any(_contains(x, o, depth + 1) for x in v.segs if not isinstance(x, (MapSeg, PreSeg)))
    if isinstance(v, (tuple, list)):
        return any(_contains(x, o, depth + 1) for x in v)
    d = sym.obj_fields(v)
    return d is not None and any(_contains(x, o, depth + 1) for x in d.values())


def touch_element(o):
    """o is about to be modified: it may be (part of) an element of a list of
    symbolic length"""
    c = sym.CTX
    if c is None or not c.live_segs:
        return
    for s in list(c.live_segs):
        if s.split is not None:
            for lo, hi, p in s.split:
                if not isinstance(p, MapSeg) and _contains(p, o):
                    if c.dirty is not None:
                        c.dirty['seg:%d' % id(s)] = (s, lo, p)
                    return
            continue
        for k, (x, j) in list(s.cache.items()):
            if _contains(x, o):
                if x is s.tmpl or (x is not o and _contains(s.tmpl, o)):
                    raise Unsupported('modifying an object shared by list elements')
                s.modify(k, x)
                return


class PreSeg:
    """unknown earlier content of a list (loop induction only)"""
    def __init__(self, name, n=None, acc=None):
        self.name = name
        self.n = n              # its length if each iteration appends one
        self.acc = acc

    def subst(self, sub):
        return PreSeg(self.name, simp(z3.substitute(self.n, *sub)) if self.n is not None else None, self.acc)


class SymList(Model):
    """list or tuple whose length may be symbolic"""

    def __init__(self, segs=(), cls=list):
        self.__dict__['_segs'] = list(segs)
        self.__dict__['cls'] = cls
        self._pv_init()

    @property
    def segs(self):
        r = self.__dict__['_segs']
        for s in r:
            if isinstance(s, MapSeg) and s.split is not None:
                return [x for s in r for x in (s.parts() if isinstance(s, MapSeg) else (s,))]
        return r

    _pv_segments = True

    @property
    def __class__(self):
        return self.__dict__['cls']

    def _pv_state(self):
        return list(self.segs)

    def _pv_restore(self, st):
        self.__dict__['_segs'] = list(st)

    def concrete(self):
        return not any(isinstance(s, (MapSeg, PreSeg)) for s in self.segs)

    def _conc(self, what):
        if not self.concrete():
            # a mapped segment of known length can be unfolded
            out = []
            for s in self.segs:
                if isinstance(s, MapSeg) and is_c(s.count()):
                    out += [s.at(simp(s.lo + k)) for k in range(cv(s.count()))]
                elif isinstance(s, (MapSeg, PreSeg)):
                    raise Unsupported('%s of a list of symbolic length' % what)
                else:
                    out.append(s)
            return out
        return self.segs

    def count(self):
        n = z3.IntVal(0)
        k = 0
        for s in self.segs:
            if isinstance(s, MapSeg):
                n = n + s.count()
            elif isinstance(s, PreSeg):
                if s.n is None:
                    raise Unsupported('length of an accumulator list inside the loop')
                # the accumulator checks that every iteration appends one
                s.acc.counted = True
                n = n + s.n
            else:
                k += 1
        return simp(n + k)

    def length(self):
        return mkint(self.count())

    def __len__(self):
        n = self.count()
        if is_c(n):
            return cv(n)
        raise Unsupported('native len() of a list of symbolic length')

    def __bool__(self):
        n = self.count()
        if is_c(n):
            return cv(n) != 0
        return ctx().decide(n != 0)

    def __iter__(self):
        if self.concrete() and self.cls is list:
            return _live_iter(self)
        return iter(list(self._conc('native iteration')))

    def parts(self):
        return list(self.segs)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._slice(k)
        c = sym.CTX
        if self.concrete() and not isinstance(k, Sym):
            return self.segs[k]
        if self.concrete():
            n = len(self.segs)
            e = zint(k)
            if not c.decide(z3.And(e >= -n, e < n)):
                raise IndexError('list index out of range')
            return self.segs[c.concretize(mkint(e))]
        n = self.count()
        e = simp(zint(k))
        if is_c(e) and cv(e) < 0:
            e = simp(n + e)
            if not c.decide(e >= 0):
                raise IndexError('list index out of range')
        elif not is_c(e):
            if not c.decide(z3.And(e >= -n, e < n)):
                raise IndexError('list index out of range')
            if c.decide(e < 0):
                e = simp(e + n)
        elif not c.decide(n > e):
            raise IndexError('list index out of range')
        for s in self.segs:
            if isinstance(s, MapSeg):
                m = s.count()
                if c.decide(e < m):
                    return s.at(s.lo + e)
                e = simp(e - m)
            else:
                if c.decide(e == 0):
                    return s
                e = simp(e - 1)
        raise IndexError('list index out of range')

    def _slice(self, k):
        if self.concrete() and not any(isinstance(x, Sym) for x in (k.start, k.stop, k.step)):
            return SymList(self.segs[k], self.cls)
        if k.step is None and k.start in (None, 0) and k.stop is None:
            return SymList(self.segs, self.cls)
        if len(self.segs) == 1 and k.step is None and isinstance(self.segs[0], MapSeg):
            s = self.segs[0]
            c = ctx()
            n = s.count()

            def b(x, d):
                if x is None:
                    return d
                e = simp(zint(x))
                if c.decide(e < 0):
                    e = simp(e + n)
                    if c.decide(e < 0):
                        return z3.IntVal(0)
                    return e
                return e if c.decide(e <= n) else n
            lo, hi = b(k.start, z3.IntVal(0)), b(k.stop, n)
            if not c.decide(lo < hi):
                return SymList([], self.cls)
            mark_proxy(s)
            return SymList([MapSeg(s.i, s.tmpl, s.lo + lo, s.lo + hi, True)], self.cls)
        if self.concrete():
            c = ctx()
            return self._slice(slice(*[c.concretize(x) if isinstance(x, Sym) else x
                                       for x in (k.start, k.stop, k.step)]))
        return SymList(list(self._conc('slice'))[k], self.cls)

    def __setitem__(self, k, v):
        if self.cls is not list:
            raise TypeError("'tuple' object does not support item assignment")
        self._conc('item assignment')
        self._pv_touch()
        if isinstance(k, Sym):
            k = ctx().concretize(k)
        if isinstance(k, slice):
            v = list(seq_items(v))
        segs = list(self._conc('item assignment'))
        segs[k] = v
        self.__dict__['_segs'] = segs

    def __delitem__(self, k):
        self._pv_touch()
        segs = list(self._conc('item deletion'))
        del segs[k]
        self.__dict__['_segs'] = segs

    # -- list methods
    def _mut(self):
        if self.cls is not list:
            raise AttributeError("'tuple' object has no such attribute")
        self._pv_touch()

    def append(self, v):
        self._mut()
        self.__dict__['_segs'] = self.segs + [v]

    def extend(self, it):
        self._mut()
        self.__dict__['_segs'] = self.segs + seq_parts(it)

    def insert(self, k, v):
        self._mut()
        segs = list(self._conc('insert'))
        segs.insert(k, v)
        self.__dict__['_segs'] = segs

    def pop(self, k=-1):
        self._mut()
        segs = list(self._conc('pop'))
        r = segs.pop(k)
        self.__dict__['_segs'] = segs
        return r

    def clear(self):
        self._mut()
        self.__dict__['_segs'] = []

    def reverse(self):
        self._mut()
        self.__dict__['_segs'] = list(self._conc('reverse'))[::-1]

    def copy(self):
        return SymList(self.segs, list)

    def index(self, v, *a):
        return list(self._conc('index')).index(v, *a)

    def count_of(self, v):
        return list(self._conc('count')).count(v)

    def remove(self, v):
        self._mut()
        segs = list(self._conc('remove'))
        segs.remove(v)
        self.__dict__['_segs'] = segs

    def sort(self, **kw):
        self._mut()
        segs = list(self._conc('sort'))
        segs.sort(**kw)
        self.__dict__['_segs'] = segs

    def __contains__(self, v):
        from . import hooks
        return bool(hooks.contains(v, tuple(self._conc('in'))))

    def __add__(self, o):
        if not isinstance(o, self.cls):
            return NotImplemented
        return SymList(self.segs + seq_parts(o), self.cls)

    def __radd__(self, o):
        if not isinstance(o, self.cls):
            return NotImplemented
        return SymList(seq_parts(o) + self.segs, self.cls)

    def __iadd__(self, o):
        if self.cls is list:
            self.extend(o)
            return self
        return self + o

    def __mul__(self, k):
        if isinstance(k, Sym):
            if self.concrete() and len(self.segs) == 1:
                c = ctx()
                i = z3.Int(c.name('rep'))
                n = zint(k)
                return SymList([MapSeg(i, self.segs[0], 0, z3.If(n > 0, n, 0), True)], self.cls)
            raise Unsupported('list repeated a symbolic number of times')
        return SymList(list(self.segs) * k, self.cls)
    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, (list, tuple)) or isinstance(o, list) != (self.cls is list):
            return False
        a, b = self._conc('=='), (o._conc('==') if isinstance(o, SymList) else list(o))
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x is y:
                continue
            if not (x == y):
                return False
        return True

    def __ne__(self, o):
        return not self.__eq__(o)

    def __lt__(self, o):
        raise Unsupported('ordering of lists')
    __gt__ = __le__ = __ge__ = __lt__

    __hash__ = Model.__hash__

    def __repr__(self):
        return '<list>' if not self.concrete() else repr(self.cls(self.segs))

    def _pv_subst(v, sub, memo):
        return v.subst(sub)

    def subst(self, sub):
        segs = [s.subst(sub) if isinstance(s, (MapSeg, PreSeg)) else subst(s, sub) for s in self.segs]
        if all(a is b for a, b in zip(segs, self.segs)) and self.cls is not list:
            return self
        r = SymList(segs, self.cls)
        r.__dict__['_sub'] = True
        return r


def _live_iter(lst):
    k = 0
    while k < len(lst.segs):
        if not lst.concrete():
            raise Unsupported('list grew symbolically during iteration')
        yield lst.segs[k]
        k += 1


class SymIter(Sym):
    """one-shot iterator over parts (elements and mapped segments)"""

    def __init__(self, parts):
        self._parts = list(parts)

    def take(self):
        p, self._parts = self._parts, []
        return p

    def parts(self):
        return self.take()

    def __iter__(self):
        return self

    def __next__(self):
        while self._parts:
            p = self._parts[0]
            if isinstance(p, MapSeg):
                c = ctx()
                if c.decide(p.lo < p.hi):
                    self._parts[0] = MapSeg(p.i, p.tmpl, simp(p.lo + 1), p.hi, True)
                    return p.at(p.lo)
                self._parts.pop(0)
                continue
            return self._parts.pop(0)
        raise StopIteration


class SymRange(Sym):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def parts(self):
        c = ctx()
        i = z3.Int(c.name('r'))
        if not c.decide(zint(self.lo) < zint(self.hi)):
            return []
        return [MapSeg(i, mkint(i), zint(self.lo), zint(self.hi))]

    def length(self):
        d = zint(self.hi) - zint(self.lo)
        return mkint(z3.If(d > 0, d, 0))

    def __iter__(self):
        return SymIter(self.parts())

    def __getitem__(self, k):
        raise Unsupported('indexing a symbolic range')


def is_symseq(x):
    if isinstance(x, SymList):
        return not x.concrete()
    return type(x) in (SymIter, SymRange)


def seq_parts(x):
    """elements and mapped segments of any iterable"""
    if type(x) in (SymList, SymIter, SymRange):
        return list(x.parts())
    if type(x) is SymBytes:
        return list(iter(x))
    return list(x)


def seq_items(x):
    r = seq_parts(x)
    if any(isinstance(p, (MapSeg, PreSeg)) for p in r):
        return SymList(r)._conc('native iteration')
    return r


# ------------------------------------------------------------------ streams

class SymIO(Model):
    """io.BytesIO for sequential use (read from the start, or append)"""

    def __init__(self, initial=b''):
        d = self.__dict__
        d['done'] = []                   # chunks before the position
        d['rest'] = chunks_of(initial) if initial is not None else []
        # arbitrary input that is made up as it is read (SymS.source): its
        # name, whether its end was seen, whether a read gave less than asked
        d['gen'], d['ended'], d['short'] = None, False, False
        if sym.CTX is not None and len(d['rest']) == 1 and type(d['rest'][0]) is Atom:
            src = sym.CTX.sources
            nm = d['rest'][0].fn
            if nm in src:
                if src[nm] is not None:
                    raise Unsupported('second stream on the same arbitrary input')
                a = d['rest'][0]
                if a.key() != src.get(nm + '.key'):
                    raise Unsupported('stream on a part of an arbitrary input')
                d['gen'], d['rest'] = nm, []
                src[nm] = self
                sym.CTX.journal.append(lambda: src.__setitem__(nm, None))
        self._pv_init()

    def _pv_state(self):
        return (list(self.done), list(self.rest), self.ended, self.short)

    def _pv_restore(self, st):
        self.__dict__['done'], self.__dict__['rest'] = list(st[0]), list(st[1])
        if len(st) > 2:
            self.__dict__['ended'], self.__dict__['short'] = st[2], st[3]

    def make_up(self, n, least=0):
        """n further bytes of an arbitrary input"""
        c = ctx()
        nm = c.name(self.gen + '.read')
        a = tuple(c.idx())
        if n is None:
            n = c.app(nm + '.len', a, rng=(least, None))
        c.fn(nm, len(a) + 1, (0, 255), range(len(a)))
        at = Atom(nm, a, 0, n)
        self.__dict__['done'] = norm(self.done + [at])
        return at

    def read_gen(self, n):
        c = ctx()
        self._pv_touch()
        d = self.__dict__
        everything = n is None or (not isinstance(n, Sym) and n < 0)
        if self.rest:
            # after a seek
            have = self.read_known(-1)
            if everything:
                if self.ended:
                    return have
                return have + self.read_gen(-1)
            k = ctx().decide(zint(n) <= rope_len(chunks_of(have)))
            if k:
                a, b = c.rope_split(chunks_of(have), zint(n))
                full = self.done
                d['done'], rest = c.rope_split(full, simp(rope_len(full) - rope_len(b)))
                d['rest'] = rest
                return mkbytes(a)
            if self.ended:
                return have
            return have + self.read_gen(mkint(zint(n) - rope_len(chunks_of(have))))
        if self.ended:
            if not everything and c.decide(zint(n) > 0):
                d['short'] = True
            return b''
        if everything:
            d['ended'] = True
            if c.decide(c.fresh_bool(self.gen + '.end')):
                return b''
            return mkbytes([self.make_up(None, 1)])
        e = simp(zint(n))
        if not is_c(e) and c.decide(e < 0):
            return self.read_gen(-1)
        if is_c(e) and cv(e) == 0:
            return b''
        if c.decide(c.fresh_bool(self.gen + '.end')):
            d['ended'] = True
            at = self.make_up(None)
            c.assume(zlen(at.n) < e)
            if not c.sat():
                raise Infeasible()
            d['short'] = True
            return mkbytes([at])
        return mkbytes([self.make_up(cv(e) if is_c(e) else e)])

    def read(self, n=-1):
        if self.gen is not None:
            return self.read_gen(n)
        return self.read_known(n)

    def read_known(self, n=-1):
        c = sym.CTX
        self._pv_touch()
        if n is None or (not isinstance(n, Sym) and n < 0):
            r = self.rest
            self.__dict__['done'] = norm(self.done + r)
            self.__dict__['rest'] = []
            return mkbytes(r)
        e = simp(zint(n))
        if not is_c(e) and c.decide(e < 0):
            return self.read(-1)
        if all(type(x) is Lit for x in self.rest) and is_c(e):
            b = self.rest[0].b if self.rest else b''
            k = cv(e)
            r, t = b[:k], b[k:]
            self.__dict__['done'] = norm(self.done + [Lit(r)])
            self.__dict__['rest'] = [Lit(t)] if t else []
            return r
        if not self.enough(e):
            r = self.rest
            self.__dict__['done'] = norm(self.done + r)
            self.__dict__['rest'] = []
            return mkbytes(r)
        a, b = c.rope_split(self.rest, e)
        self.__dict__['done'] = norm(self.done + a)
        self.__dict__['rest'] = b
        return mkbytes(a)

    def enough(self, e):
        """len(rest) >= e, looking at as little of rest as necessary"""
        c = ctx()
        n = z3.IntVal(0)
        if is_c(e) and cv(e) <= 0:
            return True
        for k, ch in enumerate(self.rest):
            n = simp(n + zlen(ch.len()))
            if simp(n - e).eq(z3.IntVal(0)) or (is_c(n) and is_c(e) and cv(n) >= cv(e)):
                return True
            if k < len(self.rest) - 1 and c.valid(n >= e):
                return True
        if not self.rest:
            return c.decide(e <= 0)
        # the length of what is left is non-negative by construction
        h = self.rest[0]
        if type(h) is FMap:
            # compare on the next element only
            if c.decide(h.lo < h.hi):
                self.__dict__['rest'] = norm(h.at(h.lo) + [FMap(h.i, h.body, simp(h.lo + 1), h.hi)] + self.rest[1:])
            else:
                self.__dict__['rest'] = norm(self.rest[1:])
            return self.enough(e)
        return c.decide(n >= e)

    def write(self, b):
        self._pv_touch()
        if self.rest or self.gen is not None:
            raise Unsupported('overwriting stream content')
        if not isinstance(b, (bytes, bytearray)):
            raise TypeError("a bytes-like object is required, not '%s'" % b.__class__.__name__)
        self.__dict__['done'] = norm(self.done + chunks_of(b))
        return b.length() if isinstance(b, SymBytes) else len(b)

    def getvalue(self):
        if self.gen is not None:
            raise Unsupported('content of an arbitrary stream')
        return mkbytes(self.done + self.rest)

    def tell(self):
        return mkint(rope_len(self.done))

    def seek(self, pos, whence=0):
        self._pv_touch()
        if self.gen is not None and (whence != 0 or not ctx().valid(zint(pos) <= rope_len(self.done + self.rest))):
            raise Unsupported('seek beyond what was read of an arbitrary stream')
        if whence == 2 and not isinstance(pos, Sym) and pos == 0:
            self.__dict__['done'], self.__dict__['rest'] = norm(self.done + self.rest), []
            return self.tell()
        if whence != 0:
            raise Unsupported('seek')
        a, b = ctx().rope_split(self.done + self.rest, zint(pos))
        self.__dict__['done'], self.__dict__['rest'] = a, b
        return pos

    def getbuffer(self):
        v = self.getvalue()
        return SymBuffer(v) if isinstance(v, Sym) else memoryview(v)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, name):
        if hasattr(io.BytesIO, name):
            raise Unsupported('BytesIO.%s' % name)
        raise AttributeError("'_io.BytesIO' object has no attribute %r" % name)

    def subst(self, sub):
        return self


class SymBuffer:
    """memoryview of a whole stream: only its size"""

    def __init__(self, v):
        self.v = v

    @property
    def nbytes(self):
        return self.v.length()

    def _pv_len(self):
        return self.v.length()

    def __getattr__(self, name):
        raise Unsupported('memoryview.%s' % name)


# ------------------------------------------------------------------- hashes

def uf_bytes(fname, n, *args):
    """n bytes given by an uninterpreted function of args; computed for real
    when everything is concrete and the function is known"""
    real = REAL.get(fname)
    args = tuple(bytes(a) if isinstance(a, bytearray) else a for a in args)
    if real is not None and not any(isinstance(a, Sym) for a in args):
        return real(*args)
    return mkbytes([App(fname, args, n)])


REAL = {
    'sha256': lambda b: hashlib.sha256(b).digest(),
    'sha1': lambda b: hashlib.sha1(b).digest(),
    'sha512': lambda b: hashlib.sha512(b).digest(),
}
SIZES = {'sha256': 32, 'sha1': 20, 'sha512': 64}


class SymHash(Model):
    def __init__(self, name, data=b''):
        self.__dict__['name'] = name
        self.__dict__['buf'] = chunks_of(data)
        self._pv_init()

    def _pv_state(self):
        return list(self.buf)

    def _pv_restore(self, st):
        self.__dict__['buf'] = list(st)

    @property
    def digest_size(self):
        return SIZES[self.name]

    block_size = 64

    def update(self, b):
        if not isinstance(b, (bytes, bytearray)):
            raise TypeError('object supporting the buffer API required')
        self._pv_touch()
        self.__dict__['buf'] = norm(self.buf + chunks_of(b))

    def digest(self):
        return uf_bytes(self.name, SIZES[self.name], mkbytes(self.buf))

    def hexdigest(self):
        d = self.digest()
        return d.hex()

    def copy(self):
        r = SymHash(self.name)
        r.__dict__['buf'] = list(self.buf)
        return r

    def subst(self, sub):
        return self


class SymHMAC(Model):
    def __init__(self, key, msg, name):
        self.__dict__['key'] = key
        self.__dict__['name'] = name
        self.__dict__['buf'] = chunks_of(msg) if msg is not None else []
        self._pv_init()

    def _pv_state(self):
        return list(self.buf)

    def _pv_restore(self, st):
        self.__dict__['buf'] = list(st)

    def update(self, b):
        self._pv_touch()
        self.__dict__['buf'] = norm(self.buf + chunks_of(b))

    def digest(self):
        return uf_bytes('hmac_' + self.name, SIZES[self.name], self.key, mkbytes(self.buf))

    def subst(self, sub):
        return self


def _real_hmac(name):
    import hmac
    return lambda k, m: hmac.new(k, m, name).digest()


for _n in SIZES:
    REAL['hmac_' + _n] = _real_hmac(_n)


class SymBuf(Model):
    """bytearray"""

    def __init__(self, data=b''):
        self.__dict__['buf'] = chunks_of(data)
        self._pv_init()

    @property
    def __class__(self):
        return bytearray

    def _pv_state(self):
        return list(self.buf)

    def _pv_restore(self, st):
        self.__dict__['buf'] = list(st)

    def value(self):
        return mkbytes(self.buf)

    @property
    def chunks(self):
        return tuple(self.buf)

    def length(self):
        return mkint(rope_len(self.buf))

    def __len__(self):
        n = simp(rope_len(self.buf))
        if is_c(n):
            return cv(n)
        raise Unsupported('native len() of symbolic bytearray')

    def append(self, v):
        from . import hooks
        self._pv_touch()
        self.__dict__['buf'] = norm(self.buf + chunks_of(hooks.h_bytes([v])))

    def extend(self, v):
        self._pv_touch()
        if isinstance(v, (bytes, bytearray)):
            self.__dict__['buf'] = norm(self.buf + chunks_of(v))
        else:
            for x in seq_items(v):
                self.append(x)

    def __iadd__(self, v):
        self.extend(v)
        return self

    def __add__(self, o): return SymBuf(self.value() + o)
    def __radd__(self, o): return o + self.value()
    def __getitem__(self, k): return self.value()[k]

    def __setitem__(self, k, v):
        self._pv_touch()
        n = len(self)
        if isinstance(k, slice):
            raise Unsupported('bytearray slice assignment')
        k = range(n)[k]
        from . import hooks
        b = self.value()
        self.__dict__['buf'] = norm(chunks_of(b[:k]) + chunks_of(hooks.h_bytes([v])) + chunks_of(b[k + 1:]))

    def __iter__(self): return iter(self.value())
    def __bool__(self): return bool(self.value())

    def __eq__(self, o): return self.value() == (o.value() if isinstance(o, SymBuf) else o)
    def __ne__(self, o): return self.value() != (o.value() if isinstance(o, SymBuf) else o)
    __hash__ = None
    def hex(self): return self.value().hex()
    def subst(self, sub): return self


_old_chunks_of = sym.chunks_of


def _chunks_of(b):
    if type(b) is SymBuf:
        return list(b.buf)
    return _old_chunks_of(b)


sym.chunks_of = _chunks_of
chunks_of = _chunks_of


def single_app(d, last=False):
    """(function, arguments) if d is literally the complete result of an
    external function (or ends with one)"""
    if type(d) is not SymBytes or not d.chunks or (len(d.chunks) != 1 and not last):
        return None
    c = d.chunks[-1]
    if type(c) is not App or not isinstance(c.off, int) or c.off != 0:
        return None
    return c.fname, c.args


def same_term(a, b):
    """literally the same value (verifier), or an equal one (native runs)"""
    if sym.CTX is None:
        return a == b
    if isinstance(a, int) != isinstance(b, int):
        return False
    return repr(sym.arg_key(a)) == repr(sym.arg_key(b))
