"""Address strings.  In proofs a string is what its codec was given: the codecs
(base58 and bech32 of python-bitcointx, blech32 of this library) are replaced
by their contract, decode(encode(x)) == x for everything that encode accepts,
and what one codec made is refused by the others.  For blech32 this contract is
property C09; for the dependency it is assumed.  Native runs use the codecs."""
import bitcointx.base58 as b58
import bitcointx.segwit_addr as segwit
import elementstx.liquid_addr as liquid
from pv import hooks, sym
from pv.sym import Unsupported

PROGRAMS = {'bech32': (20, 32, 40), 'blech32': (20 + 33, 32 + 33, 40 + 33)}


class Coded(str):
    """(kind, data): base58 bytes, or (prefix, version, program)"""
    made = 0

    def __new__(cls, kind, data):
        cls.made += 1
        self = str.__new__(cls, '<%s %d>' % (kind, cls.made))
        self.kind, self.data = kind, data
        return self

    def __str__(self):
        return self

    def __repr__(self):
        return 'Coded(%r, %r)' % (self.kind, self.data)

    __hash__ = None


def _no(name):
    def f(self, *a, **k):
        raise Unsupported('str.%s of a coded address' % name)
    return f


for _n in dir(str):
    if _n not in ('__new__', '__str__', '__repr__', '__init__', '__class__', '__getattribute__', '__setattr__',
                  '__delattr__', '__dir__', '__doc__', '__init_subclass__', '__subclasshook__', '__sizeof__',
                  '__reduce__', '__reduce_ex__', '__getnewargs__', '__getstate__', '__hash__', '__format__'):
        setattr(Coded, _n, _no(_n))


def permitted(kind, version, program):
    """is there a string with this witness version and program"""
    k, s, m = PROGRAMS[kind]
    n = hooks.h_len(program)
    if n < 2 or n > m or version < 0 or version > 16:
        return False
    return bool(version != 0 or n == k or n == s)


def _encode(kind):
    def encode(hrp, version, program):
        if sym.CTX is None:
            return NotImplemented
        if not permitted(kind, version, program):
            return None
        return Coded(kind, (hrp, version, sym.mkbytes(sym.chunks_of(program))))
    return encode


def _decode(kind):
    def decode(hrp, s):
        if not isinstance(s, Coded):
            return NotImplemented
        if s.kind != kind or s.data[0] != hrp:
            return (None, None)
        return s.data[1], s.data[2]
    return decode


def _b58encode(b):
    if sym.CTX is None:
        return NotImplemented
    return Coded('base58', sym.mkbytes(sym.chunks_of(b)))


def _b58decode(s):
    if not isinstance(s, Coded):
        return NotImplemented
    if s.kind != 'base58':
        raise b58.InvalidBase58Error('Character is not a valid base58 character')
    return s.data


def stub():
    for f, g in ((b58.encode, _b58encode), (b58.decode, _b58decode),
                 (segwit.encode, _encode('bech32')), (segwit.decode, _decode('bech32')),
                 (liquid.encode, _encode('blech32')), (liquid.decode, _decode('blech32'))):
        hooks.FUNC_STUBS[id(f)] = g


def segwit_text(S, kind, hrp, version, program):
    """string with this content; None: there is none"""
    if S.symbolic:
        return _encode(kind)(hrp, version, program)
    return {'bech32': segwit, 'blech32': liquid}[kind].encode(hrp, int(version), bytes(program))


def base58_text(S, data):
    return _b58encode(data) if S.symbolic else b58.encode(data)


def same_text(S, what, a, b):
    """equal up to letter case where that carries no meaning"""
    if S.symbolic:
        S.ensure(what + ': encoding', a.kind == b.kind)
        if a.kind == 'base58':
            # the checksum is a function of the rest
            S.ensure_eq(what, a.data[:-4], b.data[:-4])
        else:
            S.ensure(what + ': prefix', a.data[0] == b.data[0])
            S.ensure(what + ': version', a.data[1] == b.data[1])
            S.ensure_eq(what + ': program', a.data[2], b.data[2])
    else:
        S.ensure(what, a == b)
