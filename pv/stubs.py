"""Contracts of dependency functions that callers are checked against.

Each is applied only where its precondition is certain; the bodies are
checked against them by the contracts in specs/c01.py (named in the text)."""
import z3
from . import sym, hooks
from .sym import Sym, SymInt, VarI, ctx, zint, mkint, mkbytes, simp, zlen, norm
from .models import SymIO, SymList, SymIter, SymRange, MapSeg, PreSeg, is_symseq, seq_parts

USED = set()
U64 = (1 << 64) - 1


def made_up(f):
    """a read of unknown input by a function under contract: goes on if it
    accepts, else raises after reading something"""
    import elementstx.core as ec
    import bitcointx.core.serialize as ser
    c = ctx()
    if c.decide(c.fresh_bool(f.gen + '.accepts')):
        return
    f._pv_touch()
    f.make_up(None)
    for x in (ser.SerializationTruncationError, ec.WitnessSerializationError, ec.TxInSerializationError,
              ser.SerializationError):
        if c.decide(c.fresh_bool(f.gen + '.error')):
            if x is ser.SerializationTruncationError:
                f.__dict__['ended'] = f.__dict__['short'] = True
            raise x('refused')
    if c.decide(c.fresh_bool(f.gen + '.error')):
        raise ser.DeserializationValueBoundsError('refused', klass=ec.CElementsTransaction, value=0, lower_bound=0,
                                                  upper_bound=0)
    raise ValueError('refused')



def install():
    import bitcointx.core.serialize as ser
    import bitcointx.core.script as scr
    V = ser.VarIntSerializer
    MAX_SIZE = ser.MAX_SIZE
    Bounds = ser.DeserializationValueBoundsError

    def stub(key):
        def deco(g):
            hooks.FUNC_STUBS[id(key)] = g
            return g
        return deco

    @stub(V.__dict__['stream_serialize'].__func__)
    def varint_ser(cls, obj, f, **kw):
        """0 <= obj < 2**64: writes the compact size of obj
        (C01.varint_serialize)"""
        if type(obj) is not SymInt or type(f) is not SymIO:
            return NotImplemented
        e = obj.e
        if not ctx().valid(z3.And(e >= 0, e < (1 << 64))):
            return NotImplemented
        USED.add('VarIntSerializer.stream_serialize')
        f.write(mkbytes([sym.mkvarint_chunk(e)]))
        return None

    @stub(V.__dict__['stream_deserialize'].__func__)
    def varint_deser(cls, f, allow_full_range=False, **kw):
        """at the compact size of e: returns e if e <= MAX_SIZE, else raises
        (C01.varint_deserialize)"""
        if type(f) is SymIO and f.gen is not None and not f.rest and not f.ended:
            # any input: a value whose compact size is what was read, or an
            # exception (C02.varint)
            USED.add('VarIntSerializer.stream_deserialize')
            made_up(f)
            c = ctx()
            e = c.app(c.name(f.gen + '.size'), c.idx(), rng=(0, U64 if allow_full_range else MAX_SIZE))
            f._pv_touch()
            f.__dict__['done'] = norm(f.done + [sym.mkvarint_chunk(e)])
            return mkint(e)
        if type(f) is not SymIO or not f.rest:
            return NotImplemented
        h = f.rest[0]
        if type(h) is sym.FMap and h.body and type(h.body[0]) is VarI:
            if ctx().decide(h.lo < h.hi):
                f._pv_touch()
                f.__dict__['rest'] = norm(h.at(h.lo) + [sym.FMap(h.i, h.body, simp(h.lo + 1), h.hi)] + f.rest[1:])
            else:
                return NotImplemented
            h = f.rest[0]
        if type(h) is not VarI:
            return NotImplemented
        USED.add('VarIntSerializer.stream_deserialize')
        f._pv_touch()
        f.__dict__['done'] = norm(f.done + [h])
        f.__dict__['rest'] = f.rest[1:]
        if not allow_full_range and not ctx().decide(h.e <= MAX_SIZE):
            raise Bounds('compact size', klass=cls, value=mkint(h.e), lower_bound=0, upper_bound=MAX_SIZE)
        return mkint(h.e)

    @stub(scr.CScriptWitness)
    def witness(cls, stack=()):
        """stack of byte strings: kept as it is (C01.script_witness, bounded)"""
        if type(stack) in (SymList, SymIter, SymRange):
            ps = seq_parts(stack) if type(stack) is not SymIter else list(stack._parts)
        elif isinstance(stack, (tuple, list)):
            ps = list(stack)
        else:
            return NotImplemented
        sy = False
        for p in ps:
            x = p.tmpl if isinstance(p, MapSeg) else p
            sy = sy or isinstance(p, MapSeg) or isinstance(x, Sym)
            if isinstance(x, PreSeg):
                return NotImplemented
            if not isinstance(x, bytes) or x.__class__ is not bytes:
                return NotImplemented
        if not sy:
            return NotImplemented
        USED.add('CScriptWitness.__init__')
        if type(stack) is SymIter:
            stack.take()
        o = object.__new__(cls)
        object.__setattr__(o, 'stack', SymList(ps, tuple) if any(isinstance(p, MapSeg) for p in ps) else tuple(ps))
        return o


    @stub(scr.CScript.__dict__['is_witness_scriptpubkey'].method)
    def is_witness(self):
        """4..42 bytes: OP_0 or OP_1..OP_16 and a push of all the rest
        (C05.is_witness)"""
        if type(self) is not sym.SymBytes:
            return NotImplemented
        n = ctx().decide(z3.And(self.zlen() >= 4, self.zlen() <= 42))
        if not n:
            return False
        USED.add('CScript.is_witness_scriptpubkey')
        a, b = sym.rope_byte(self.chunks, 0), sym.rope_byte(self.chunks, 1)
        return sym.mkbool(z3.And(z3.Or(a == 0, z3.And(a >= 0x51, a <= 0x60)), b + 2 == self.zlen()))

    @stub(scr.FindAndDelete)
    def find_and_delete(script, sig):
        """assumed, for scripts with complete pushes: a function of its
        arguments that returns a script of the same class, not longer"""
        if type(script) is not sym.SymBytes or isinstance(sig, Sym):
            return NotImplemented
        c = ctx()
        if c.idx():
            return NotImplemented
        USED.add('FindAndDelete (assumed)')
        if not hasattr(c, 'fad'):
            c.fad = {}
        key = (repr([x.key() for x in script.chunks]), bytes(sig), script.__class__)
        if key not in c.fad:
            nm = c.name('FindAndDelete')
            n = c.app(nm + '.len', (), rng=(0, None))
            c.assume(n <= script.zlen())
            c.fn(nm, 1, (0, 255), ())
            c.fad[key] = sym.mkbytes([sym.Atom(nm, (), 0, n)], script.__class__)
        return c.fad[key]

    import bitcointx.core._ripemd160 as rip
    from . import models

    models.REAL.setdefault('ripemd160', rip.ripemd160)

    @stub(rip.ripemd160)
    def ripemd160(data):
        """assumed: a function of the data, 20 bytes"""
        if not isinstance(data, Sym):
            return NotImplemented
        USED.add('ripemd160 (assumed)')
        return models.uf_bytes('ripemd160', 20, data)

    import bitcointx.core.sha256 as sh

    @stub(sh.CSHA256.Transform)
    def transform(self, chunk, blocks):
        """assumed: the state becomes a function of the state and the block"""
        if isinstance(blocks, Sym) or not isinstance(chunk, (bytes, bytearray)):
            return NotImplemented
        if 'sha256_compress' not in models.REAL:
            return NotImplemented
        USED.add('CSHA256.Transform (assumed)')
        k = 0
        while blocks:
            blocks -= 1
            st = hooks.call(b''.join, [hooks.call(x.to_bytes, 4, 'big') for x in self.s])
            r = models.uf_bytes('sha256_compress', 32, st, hooks.getitem(chunk, slice(k, k + 64)))
            self.s[:] = [hooks.call(int.from_bytes, hooks.getitem(r, slice(4 * j, 4 * j + 4)), 'big') for j in range(8)]
            k += 64


def install_elements():
    """contracts of the element serializers of elementstx.core (proved by the
    contracts of specs/elements.py)"""
    import elementstx.core as ec
    from specs import lib
    from .contract import SymS
    from .sym import Enc, FMap

    def orig(cls, name):
        m = cls.__dict__.get(name)
        while m is not None and hasattr(m, 'method'):
            m = m.method
        return getattr(m, '__func__', m)

    def reg(key, name, g):
        if key is not None:
            g.__name__ = name
            hooks.FUNC_STUBS[id(key)] = g

    def symbolic(o):
        return any(isinstance(v, Sym) or (not isinstance(v, (int, bytes, str, tuple)) and symbolic(v))
                   for v in (sym.obj_fields(o) or {}).values())

    def S():
        return SymS(ctx(), None)

    def head(f, kind, *params):
        """the unit of this kind at the read position"""
        if type(f) is not SymIO or not f.rest:
            return None
        h = f.rest[0]
        if type(h) is FMap and h.body and type(h.body[0]) is Enc and h.body[0].kind == kind:
            if not ctx().decide(h.lo < h.hi):
                return None
            f._pv_touch()
            f.__dict__['rest'] = norm(h.at(h.lo) + [FMap(h.i, h.body, simp(h.lo + 1), h.hi)] + f.rest[1:])
            h = f.rest[0]
        if type(h) is Enc and h.kind == kind and h.params == params:
            return h
        return None

    def consume(f, h, kind):
        USED.add('elementstx.core:%s.stream_deserialize' % kind)
        f._pv_touch()
        f.__dict__['done'] = norm(f.done + [h])
        f.__dict__['rest'] = f.rest[1:]

    def valid(e):
        return ctx().valid(sym.zbool(e))

    # -- serializers
    def mkser(cls, enc, pre=None):
        def g(self, f, *a, **kw):
            if a or kw or type(f) is not SymIO or not symbolic(self):
                return NotImplemented
            if pre is not None and not valid(pre(self)):
                return NotImplemented
            USED.add('elementstx.core:%s.stream_serialize' % cls.__name__)
            f.write(enc(S(), self))
        reg(orig(cls, 'stream_serialize'), cls.__name__ + '.stream_serialize', g)

    mkser(ec.CAssetIssuance, lib.enc_issuance)
    mkser(ec.CElementsTxOut, lib.enc_txout)
    mkser(ec.CElementsTxInWitness, lib.enc_inwit)
    mkser(ec.CElementsTxOutWitness, lib.enc_outwit)

    def ser_txin(self, f, for_sighash=False, **kw):
        if kw or isinstance(for_sighash, Sym) or type(f) is not SymIO or not symbolic(self):
            return NotImplemented
        s = S()
        n = self.prevout.n
        if not valid(lib.b_or(s, n == 0xffffffff, n <= 0x3fffffff)):
            return NotImplemented
        USED.add('elementstx.core:CElementsTxIn.stream_serialize')
        f.write(lib.enc_txin(s, self, not for_sighash))
    reg(orig(ec.CElementsTxIn, 'stream_serialize'), 'CElementsTxIn.stream_serialize', ser_txin)

    # -- deserializers
    ENC = {'issuance': lib.enc_issuance, 'txout': lib.enc_txout, 'inwit': lib.enc_inwit, 'outwit': lib.enc_outwit,
           'txin': lib.enc_txin}

    def mkdes(cls, kind, params, wf, make):
        def g(c, f, **kw):
            if kw:
                return NotImplemented
            if type(f) is SymIO and f.gen is not None and not f.rest and not f.ended:
                # any input (C02): an object whose encoding was read
                USED.add('elementstx.core:%s.stream_deserialize' % cls.__name__)
                made_up(f)
                s = S()
                o = lib.PARSED[kind](s, ctx().name(f.gen + '.' + kind))
                f._pv_touch()
                f.__dict__['done'] = norm(f.done + list(sym.chunks_of(ENC[kind](s, o))))
                return make(c, o)
            h = head(f, kind, *params)
            if h is None or (wf is not None and not valid(wf(S(), h.obj))):
                return NotImplemented
            consume(f, h, cls.__name__)
            return make(c, h.obj)
        reg(orig(cls, 'stream_deserialize'), cls.__name__ + '.stream_deserialize', g)

    call = hooks.call
    mkdes(ec.CAssetIssuance, 'issuance', (), lib.wf_issuance, lambda c, o: call(
        c, o.assetBlindingNonce, o.assetEntropy, o.nAmount, o.nInflationKeys))
    mkdes(ec.CElementsTxOut, 'txout', (), lib.wf_txout, lambda c, o: call(
        c, o.nValue, o.scriptPubKey, o.nAsset, o.nNonce))
    mkdes(ec.CElementsTxInWitness, 'inwit', (), None, lambda c, o: call(
        c, o.scriptWitness, o.issuanceAmountRangeproof, o.inflationKeysRangeproof, o.pegin_witness))
    mkdes(ec.CElementsTxOutWitness, 'outwit', (), None, lambda c, o: call(c, o.surjectionproof, o.rangeproof))
    mkdes(ec.CElementsTxIn, 'txin', (True,), lib.wf_txin, lambda c, o: call(
        c, call(ec.CElementsOutPoint, o.prevout.hash, o.prevout.n), o.scriptSig, o.nSequence, o.assetIssuance,
        o.is_pegin))
