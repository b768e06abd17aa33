"""C07 Confidential fields are unambiguous and faithful"""
from io import BytesIO
from pv.contract import contract
from .lib import (CAsset, CConfidentialAsset, CConfidentialNonce, CConfidentialValue, I64)
from elementstx.core import WitnessSerializationError

KINDS = ((CConfidentialValue, 9, 8, 9), (CConfidentialAsset, 33, 10, 11), (CConfidentialNonce, 33, 2, 3))


@contract('C07')
def construct(S):
    """construction from bytes or bytearray accepts exactly the permitted
    lengths, keeps the bytes, and the classification predicates are those of
    the format"""
    cls, esz, pa, pb = KINDS[S.choice('cls', 3)]
    raw = S.bytes('raw', lo=0, hi=200)
    as_array = S.choice('bytearray', 2)
    arg = bytearray(raw) if as_array else raw
    err, o = S.catch(cls, arg)
    n = len(raw)
    ok = n == 0 or n == esz or n == 33
    if err is not None:
        S.ensure('rejects with ValueError', isinstance(err, ValueError))
        S.ensure('permitted lengths are accepted', not ok)
        return
    S.ensure('only permitted lengths', ok)
    S.ensure('stored as bytes', type(o.commitment) is bytes)
    S.ensure_eq('content kept', o.commitment, raw)
    null, ex, com = o.is_null(), o.is_explicit(), o.is_commitment()
    S.ensure('null iff empty', null == (n == 0))
    S.ensure('explicit', ex == (n == esz and raw[0] == 1))
    S.ensure('committed', com == (n == 33 and (raw[0] == pa or raw[0] == pb)))
    S.ensure('valid iff one of the three', o.is_valid() == (null or ex or com))
    S.ensure('never two of the three', not (null and ex) and not (null and com) and not (ex and com))


@contract('C07')
def wrong_type(S):
    """other argument types are refused"""
    cls, esz, pa, pb = KINDS[S.choice('cls', 3)]
    bad = [None, 'a' * 33, 1.5, (1,), [1]][S.choice('bad', 5)]
    err, o = S.catch(cls, bad)
    S.ensure('TypeError', isinstance(err, TypeError))


@contract('C07')
def amount_roundtrip(S):
    """every signed 64-bit amount round-trips through a value field"""
    v = S.int('v', -I64 - 1, I64)
    o = CConfidentialValue(v) if S.choice('ctor', 2) else CConfidentialValue.from_amount(v)
    S.ensure_eq('encoding', o.commitment, b'\x01' + v.to_bytes(8, 'big', signed=True))
    S.ensure('explicit', o.is_explicit() and o.is_valid() and not o.is_null() and not o.is_commitment())
    S.ensure_eq('amount', o.to_amount(), v)


@contract('C07')
def amount_out_of_range(S):
    v = S.int('v', -(1 << 70), 1 << 70)
    S.assume(v > I64 or v < -I64 - 1)
    err, o = S.catch(CConfidentialValue, v)
    S.ensure('rejected', err is not None)


@contract('C07')
def asset_roundtrip(S):
    a = S.bytes('a', 32)
    asset = CAsset(a)
    o = CConfidentialAsset(asset) if S.choice('ctor', 2) else CConfidentialAsset.from_asset(asset)
    S.ensure_eq('encoding', o.commitment, b'\x01' + a)
    S.ensure('explicit', o.is_explicit() and o.is_valid() and not o.is_null() and not o.is_commitment())
    b = o.to_asset()
    S.ensure('is an asset', isinstance(b, CAsset))
    S.ensure_eq('asset', b.data, a)


@contract('C07')
def not_explicit(S):
    """conversion to an explicit amount or asset of anything that is not
    explicit raises TypeError"""
    k = S.choice('cls', 2)
    cls, esz, pa, pb = KINDS[k]
    n = [0, esz, 33][S.choice('len', 3)]
    raw = S.bytes('raw', n)
    o = cls(raw)
    err, v = S.catch(o.to_asset if k else o.to_amount)
    ex = n == esz and raw[0] == 1
    if ex:
        S.ensure('converts', err is None)
        if k:
            S.ensure_eq('asset', v.data, raw[1:])
        else:
            S.ensure_eq('amount', v, int.from_bytes(raw[1:], 'big', signed=True))
    else:
        S.ensure('TypeError', isinstance(err, TypeError))


@contract('C07')
def serialize(S):
    """serialization of a valid field is its content (one zero byte if null)
    and deserialization of it followed by anything yields an equal field and
    leaves the rest"""
    cls, esz, pa, pb = KINDS[S.choice('cls', 3)]
    k = S.choice('kind', 3)
    raw = b'' if k == 0 else (b'\x01' + S.bytes('ex', esz - 1) if k == 1
                              else bytes([S.int('pfx', pa, pb)]) + S.bytes('cm', 32))
    o = cls(raw)
    S.ensure('valid', o.is_valid())
    f = BytesIO()
    o.stream_serialize(f)
    b = f.getvalue()
    S.ensure_eq('encoding', b, raw if k else b'\x00')
    S.ensure_eq('serialize()', o.serialize(), b)
    rest = S.bytes('rest', lo=0, hi=1000)
    g = BytesIO(b + rest)
    p = cls.stream_deserialize(g)
    S.ensure('class', type(p) is cls)
    S.ensure_eq('content', p.commitment, raw)
    S.ensure_eq('rest', g.read(), rest)
    S.ensure('equal', p == o)


@contract('C07')
def deserialize(S):
    """parsing accepts exactly the canonical encodings"""
    cls, esz, pa, pb = KINDS[S.choice('cls', 3)]
    raw = S.bytes('raw', lo=0, hi=200)
    f = BytesIO(raw)
    err, o = S.catch(cls.stream_deserialize, f)
    if err is not None:
        S.ensure('no encoding is a prefix of the input',
                 len(raw) == 0 or raw[0] not in (0, 1, pa, pb) or
                 (raw[0] == 1 and len(raw) < esz) or (raw[0] >= 2 and len(raw) < 33))
        return
    rest = f.read()
    g = BytesIO()
    o.stream_serialize(g)
    S.ensure('valid', o.is_valid())
    S.ensure_eq('canonical', g.getvalue() + rest, raw)
