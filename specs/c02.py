"""C02 Only canonical encodings are accepted

The input is any byte string: whatever a read gives is made up at the read
(S.source), and any read may give less than it asks for.  If the parser
accepts, what it has read has to be the encoding of the result."""
from bitcointx.core.serialize import VarIntSerializer, MAX_SIZE
from bitcointx.core import CTxIn, CTxOut
from pv.contract import contract
from .lib import *
from . import elements

elements.serializer_contracts('C02')
contract('C02')(elements.script_witness)

CONFS = {'value': CConfidentialValue, 'asset': CConfidentialAsset, 'nonce': CConfidentialNonce}


def any_wf(S, kind):
    """natively: an encoding to change"""
    return {'issuance': raw_issuance, 'txin': raw_txin, 'txout': raw_txout, 'inwit': raw_inwit,
            'outwit': raw_outwit}[kind](S, {
                'issuance': lambda: issuance(S, 'm'), 'txin': lambda: txin(S, 'm'), 'txout': lambda: txout(S, 'm'),
                'inwit': lambda: inwit(S, 'm'), 'outwit': lambda: outwit(S, 'm')}[kind]())


def read(S, cls, make):
    """(result of the stream deserializer, what it read)"""
    b = S.source('b', make)
    f = BytesIO(b)
    err, x = S.catch(cls.stream_deserialize, f)
    if err is not None:
        return None, None
    S.ensure('nothing is read past the end', not S.short(f))
    return x, S.consumed(f)


@contract('C02')
def varint(S):
    """compact sizes: only the shortest form, up to the limit"""
    S.bodies()
    x, raw = read(S, VarIntSerializer, lambda: S.varint(S.int('m', 0, U64)))
    if raw is None:
        return
    S.ensure('range', b_and(S, 0 <= x, x <= MAX_SIZE))
    S.ensure_eq('compact size', raw, S.varint(x))


@contract('C02')
def conf_field(S):
    """confidential fields: the first byte is 0, 1 or one of the two prefixes"""
    S.bodies()
    kind = sorted(CONFS)[S.choice('kind', 3)]
    x, raw = read(S, CONFS[kind], lambda: enc_conf(S, conf(S, 'm', kind)))
    if raw is None:
        return
    S.ensure('class', type(x) is CONFS[kind])
    S.ensure('well-formed', wf_conf(S, x, kind))
    S.ensure_eq('encoding', raw, enc_conf(S, x))


@contract('C02')
def issuance_record(S):
    """issuance records"""
    S.bodies('CAssetIssuance.stream_deserialize')
    x, raw = read(S, CAssetIssuance, lambda: any_wf(S, 'issuance'))
    if raw is None:
        return
    S.ensure('well-formed', wf_issuance(S, x))
    S.ensure_eq('encoding', raw, raw_issuance(S, x))


@contract('C02')
def tx_input(S):
    """inputs"""
    S.bodies('CElementsTxIn.stream_deserialize')
    m = S.choice('mutable', 2)
    x, raw = read(S, CElementsMutableTxIn if m else CElementsTxIn, lambda: any_wf(S, 'txin'))
    if raw is None:
        return
    S.ensure('class', type(x) is (CElementsMutableTxIn if m else CElementsTxIn))
    n = x.prevout.n
    S.ensure('index', b_or(S, n == U32, n <= 0x3fffffff))
    S.ensure_eq('encoding', raw, raw_txin(S, x))


@contract('C02')
def tx_output(S):
    """outputs"""
    S.bodies('CElementsTxOut.stream_deserialize')
    m = S.choice('mutable', 2)
    x, raw = read(S, CElementsMutableTxOut if m else CElementsTxOut, lambda: any_wf(S, 'txout'))
    if raw is None:
        return
    S.ensure('class', type(x) is (CElementsMutableTxOut if m else CElementsTxOut))
    S.ensure_eq('encoding', raw, raw_txout(S, x))


@contract('C02')
def input_witness(S):
    """witness entries of inputs"""
    S.bodies('CElementsTxInWitness.stream_deserialize')
    m = S.choice('mutable', 2)
    cls = CElementsMutableTxInWitness if m else CElementsTxInWitness
    x, raw = read(S, cls, lambda: any_wf(S, 'inwit'))
    if raw is None:
        return
    S.ensure('class', type(x) is cls)
    S.ensure_eq('encoding', raw, raw_inwit(S, x))


@contract('C02')
def output_witness(S):
    """witness entries of outputs"""
    S.bodies('CElementsTxOutWitness.stream_deserialize')
    m = S.choice('mutable', 2)
    cls = CElementsMutableTxOutWitness if m else CElementsTxOutWitness
    x, raw = read(S, cls, lambda: any_wf(S, 'outwit'))
    if raw is None:
        return
    S.ensure('class', type(x) is cls)
    S.ensure_eq('encoding', raw, raw_outwit(S, x))


@contract('C02', samples=400)
def transaction(S):
    """whole transactions: accepted input is the serialization of the result"""
    m = S.choice('mutable', 2)
    cls = CElementsMutableTransaction if m else CElementsTransaction
    b = S.source('b', lambda: mktx(S, 'm', mutable=0, coinbase=False).serialize())
    err, tx = S.catch(cls.deserialize, b)
    if err is not None:
        return
    S.ensure('class', type(tx) is cls)
    S.ensure('nothing is read past the end', not S.short(b))
    S.ensure_eq('serialization', tx.serialize(), S.consumed(b))


@contract('C02')
def empty_witness_record(S):
    """a witness record without any content is refused"""
    m = S.choice('mutable', 2)
    tx = mktx(S, mutable=m, wit='none')
    err, x = S.catch(type(tx).deserialize, enc_tx(S, tx, False)[:4] + b'\x01' + enc_tx(S, tx, False)[5:] +
                     b''.join([b'\x00\x00\x00\x00' for i in range(len(tx.vin))]) +
                     b''.join([b'\x00\x00' for i in range(len(tx.vout))]))
    S.ensure('refused', err is not None)


@contract('C02')
def issuance_without_amount(S):
    """an input that is marked to have an issuance, with both amounts null"""
    S.bodies('CElementsTxIn.stream_deserialize')
    m = S.choice('mutable', 2)
    n = S.int('n', 0, 0xfffffffe)
    S.assume(n & ISSUANCE_FLAG != 0)
    sc = S.bytes('script', lo=0, hi=MAX)
    raw = (S.bytes('hash', 32) + n.to_bytes(4, 'little') + S.varint(len(sc)) + sc + S.bytes('sequence', 4) +
           S.bytes('nonce', 32) + S.bytes('entropy', 32) + b'\x00\x00' + S.bytes('rest', lo=0, hi=1000))
    err, x = S.catch((CElementsMutableTxIn if m else CElementsTxIn).stream_deserialize, BytesIO(raw))
    S.ensure('refused', err is not None)


@contract('C02')
def unknown_flags(S):
    """optional data flags other than 0 and 1"""
    m = S.choice('mutable', 2)
    flag = S.int('flag', 2, 255)
    err, x = S.catch((CElementsMutableTransaction if m else CElementsTransaction).deserialize,
                     S.bytes('version', 4) + bytes([flag]) + S.bytes('rest', lo=0, hi=100000))
    S.ensure('refused', err is not None)
