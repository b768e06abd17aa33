"""contracts of the element serializers, against which their callers are
checked (pv.stubs); each property that relies on them includes them"""
from bitcointx.core.serialize import VarIntSerializer, MAX_SIZE
from pv.contract import contract
from .lib import *


def for_props(*props):
    def deco(f):
        for p in props:
            contract(p)(f)
        return f
    return deco


def callee_contracts(prop):
    for f in (varint_serialize, varint_deserialize, txin_serialize, txin_deserialize, issuance_serialize,
              issuance_deserialize, txout_serialize, txout_deserialize, inwit_serialize, inwit_deserialize,
              outwit_serialize, outwit_deserialize, script_witness, nulls):
        contract(prop)(f)


def serializer_contracts(prop, *names):
    """contracts of the serializers only"""
    for f in (varint_serialize, txin_serialize, issuance_serialize, txout_serialize, inwit_serialize,
              outwit_serialize, nulls):
        if not names or f.__name__ in names:
            contract(prop)(f)


def varint_serialize(S):
    """VarIntSerializer.stream_serialize writes the compact size of its argument"""
    S.bodies()
    n = S.int('n', 0, U64)
    f = BytesIO()
    VarIntSerializer.stream_serialize(n, f)
    S.ensure_eq('compact size', f.getvalue(), S.varint(n))


def varint_deserialize(S):
    """VarIntSerializer.stream_deserialize reads a compact size back, up to the
    size limit"""
    S.bodies()
    n = S.int('n', 0, U64)
    rest = S.bytes('rest', lo=0, hi=1000)
    f = BytesIO(S.varint(n) + rest)
    err, v = S.catch(VarIntSerializer.stream_deserialize, f)
    if err is not None:
        S.ensure('refused only above the limit', n > MAX_SIZE)
        return
    S.ensure('limit', n <= MAX_SIZE)
    S.ensure_eq('value', v, n)
    S.ensure_eq('rest', f.read(), rest)


def script_witness(S):
    """CScriptWitness keeps the byte strings it is given"""
    S.bodies()
    sizes = (0, 1, 75, 76, 255, 256, 65535, 65536)
    n = S.choice('n', 3)
    items = [S.bytes('item%d' % k, sizes[S.choice('size%d' % k, len(sizes))]) for k in range(n)]
    w = CScriptWitness(items)
    S.each('stack', w.stack, items, lambda a, b: S.ensure_eq('item', a, b))


script_witness._bounded = 'stacks of at most 2 items, of 0, 1, 75, 76, 255, 256, 65535 or 65536 arbitrary bytes'


def raw_issuance_obj(S, p):
    return CAssetIssuance(Uint256(S.bytes(p + '.nonce', 32)), Uint256(S.bytes(p + '.entropy', 32)),
                          any_conf(S, p + '.amount', 'value'), any_conf(S, p + '.keys', 'value'))


def raw_txin_obj(S, p, m):
    cls, oc = (CElementsMutableTxIn, CElementsMutableOutPoint) if m else (CElementsTxIn, CElementsOutPoint)
    n = S.int(p + '.n', 0, U32)
    S.assume(S.ite(n <= 0x3fffffff, True, n == U32))
    return cls(oc(S.bytes(p + '.hash', 32), n), CElementsScript(S.bytes(p + '.scriptSig', lo=0, hi=MAX)),
               S.int(p + '.nSequence', 0, U32), raw_issuance_obj(S, p + '.iss'), S.bool(p + '.pegin'))


def txin_serialize(S):
    """CElementsTxIn.stream_serialize: exactly the wire encoding"""
    S.bodies('CElementsTxIn.stream_serialize')
    x = raw_txin_obj(S, 'in', S.choice('mutable', 2))
    marks = not S.choice('for_sighash', 2)
    f = BytesIO()
    if marks:
        x.stream_serialize(f)
    else:
        x.stream_serialize(f, for_sighash=True)
    S.ensure_eq('encoding', f.getvalue(), raw_txin(S, x, marks))


def txin_high_bits(S):
    """an output index that collides with the marks is refused"""
    x = txin(S, 'in', S.choice('mutable', 2), coinbase=False)
    n = S.int('high', 0x40000000, 0xfffffffe)
    y = type(x)(type(x.prevout)(x.prevout.hash, n), x.scriptSig, x.nSequence, x.assetIssuance, x.is_pegin)
    err, b = S.catch(y.serialize)
    S.ensure('refused', err is not None)


def txin_deserialize(S):
    """CElementsTxIn.stream_deserialize: the input that was encoded"""
    S.bodies('CElementsTxIn.stream_deserialize')
    m = S.choice('mutable', 2)
    x = txin(S, 'in', m)
    S.ensure('precondition of the contract', wf_txin(S, x))
    rest = S.bytes('rest', lo=0, hi=1000)
    g = BytesIO(raw_txin(S, x) + rest)
    y = (CElementsMutableTxIn if m else CElementsTxIn).stream_deserialize(g)
    S.ensure('class', type(y) is type(x))
    eq_txin(S, 'parsed input', y, x)
    S.ensure_eq('rest', g.read(), rest)


def issuance_serialize(S):
    S.bodies('CAssetIssuance.stream_serialize')
    x = raw_issuance_obj(S, 'iss')
    f = BytesIO()
    x.stream_serialize(f)
    S.ensure_eq('encoding', f.getvalue(), raw_issuance(S, x))


def issuance_deserialize(S):
    S.bodies('CAssetIssuance.stream_deserialize')
    x = CAssetIssuance(Uint256(S.bytes('nonce', 32)), Uint256(S.bytes('entropy', 32)), conf(S, 'amount', 'value'),
                       conf(S, 'keys', 'value'))
    S.ensure('precondition of the contract', wf_issuance(S, x))
    rest = S.bytes('rest', lo=0, hi=1000)
    g = BytesIO(raw_issuance(S, x) + rest)
    y = CAssetIssuance.stream_deserialize(g)
    eq_issuance(S, 'parsed', y, x)
    S.ensure_eq('rest', g.read(), rest)


def txout_serialize(S):
    S.bodies('CElementsTxOut.stream_serialize')
    m = S.choice('mutable', 2)
    x = (CElementsMutableTxOut if m else CElementsTxOut)(
        any_conf(S, 'value', 'value'), CElementsScript(S.bytes('spk', lo=0, hi=MAX)), any_conf(S, 'asset', 'asset'),
        any_conf(S, 'nonce', 'nonce'))
    f = BytesIO()
    x.stream_serialize(f)
    S.ensure_eq('encoding', f.getvalue(), raw_txout(S, x))


def txout_deserialize(S):
    S.bodies('CElementsTxOut.stream_deserialize')
    m = S.choice('mutable', 2)
    x = txout(S, 'out', m)
    S.ensure('precondition of the contract', wf_txout(S, x))
    rest = S.bytes('rest', lo=0, hi=1000)
    g = BytesIO(raw_txout(S, x) + rest)
    y = (CElementsMutableTxOut if m else CElementsTxOut).stream_deserialize(g)
    S.ensure('class', type(y) is type(x))
    eq_txout(S, 'parsed output', y, x)
    S.ensure_eq('rest', g.read(), rest)


def inwit_serialize(S):
    S.bodies('CElementsTxInWitness.stream_serialize')
    x = inwit(S, 'w', S.choice('mutable', 2))
    f = BytesIO()
    x.stream_serialize(f)
    S.ensure_eq('encoding', f.getvalue(), raw_inwit(S, x))


def inwit_deserialize(S):
    S.bodies('CElementsTxInWitness.stream_deserialize')
    m = S.choice('mutable', 2)
    x = inwit(S, 'w', m)
    rest = S.bytes('rest', lo=0, hi=1000)
    g = BytesIO(raw_inwit(S, x) + rest)
    y = (CElementsMutableTxInWitness if m else CElementsTxInWitness).stream_deserialize(g)
    S.ensure('class', type(y) is type(x))
    eq_inwit(S, 'parsed input witness', y, x)
    S.ensure_eq('rest', g.read(), rest)


def outwit_serialize(S):
    S.bodies('CElementsTxOutWitness.stream_serialize')
    x = outwit(S, 'w', S.choice('mutable', 2))
    f = BytesIO()
    x.stream_serialize(f)
    S.ensure_eq('encoding', f.getvalue(), raw_outwit(S, x))


def outwit_deserialize(S):
    S.bodies('CElementsTxOutWitness.stream_deserialize')
    m = S.choice('mutable', 2)
    x = outwit(S, 'w', m)
    rest = S.bytes('rest', lo=0, hi=1000)
    g = BytesIO(raw_outwit(S, x) + rest)
    y = (CElementsMutableTxOutWitness if m else CElementsTxOutWitness).stream_deserialize(g)
    S.ensure('class', type(y) is type(x))
    eq_outwit(S, 'parsed output witness', y, x)
    S.ensure_eq('rest', g.read(), rest)


def nulls(S):
    """what counts as absent: witness entries, issuances"""
    S.bodies('CElementsTxInWitness.stream_serialize', 'CElementsTxOutWitness.stream_serialize')
    m = S.choice('mutable', 2)
    w = inwit(S, 'wi', m)
    S.ensure('input witness', w.is_null() == null_inwit(S, w))
    w = outwit(S, 'wo', m)
    S.ensure('output witness', w.is_null() == null_outwit(S, w))
    x = raw_issuance_obj(S, 'iss')
    S.ensure('issuance', x.is_null() == null_iss(S, x))
