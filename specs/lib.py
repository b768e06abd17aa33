"""inputs and reference encodings shared by the contracts"""
import struct
import hashlib
from io import BytesIO

import elementstx                                            # noqa: F401
import elementstx.core as ec
import elementstx.core.script as es
from bitcointx.core import Uint256
from bitcointx.core.script import CScriptWitness, CScript
from bitcointx import select_chain_params

select_chain_params('elements')

from elementstx.core import (                                # noqa: E402
    CAsset, CConfidentialAsset, CConfidentialValue, CConfidentialNonce,
    CElementsOutPoint, CElementsMutableOutPoint, CElementsTxIn, CElementsMutableTxIn,
    CElementsTxOut, CElementsMutableTxOut, CElementsTxInWitness, CElementsMutableTxInWitness,
    CElementsTxOutWitness, CElementsMutableTxOutWitness, CElementsTxWitness,
    CElementsMutableTxWitness, CElementsTransaction, CElementsMutableTransaction,
    CAssetIssuance)
from elementstx.core.script import CElementsScript           # noqa: E402

U32 = 0xffffffff
U64 = (1 << 64) - 1
I64 = (1 << 63) - 1
Z32 = b'\x00' * 32
MAX = 0x02000000        # limit of python-bitcointx on the length of anything in a transaction
ISSUANCE_FLAG = 1 << 31
PEGIN_FLAG = 1 << 30

# ------------------------------------------------ inputs
# Builders of sequence elements do not split the path: alternatives are
# expressed with S.cases and S.ite.

CONF = {'value': (CConfidentialValue, 9, 8), 'asset': (CConfidentialAsset, 33, 10),
        'nonce': (CConfidentialNonce, 33, 2)}


def conf(S, name, kind, null=True, explicit=True, committed=True):
    """any valid confidential field of the permitted kinds"""
    cls, esz, pa = CONF[kind]
    alts = []
    if null:
        alts.append(b'')
    if explicit:
        alts.append(b'\x01' + S.bytes(name + '.ex', esz - 1))
    if committed:
        alts.append(bytes([S.int(name + '.pfx', pa, pa + 1)]) + S.bytes(name + '.cm', 32))
    k = S.int(name + '.kind', 0, len(alts) - 1)
    return S.variants(k, cls, alts)


def b_or(S, a, b):
    return S.ite(a, True, b)


def b_and(S, a, b):
    return S.ite(a, b, False)


def b_not(S, a):
    return S.ite(a, False, True)


def issuance(S, name, allowed=True):
    """null, or with any of the two amounts present"""
    has = b_and(S, allowed, S.bool(name + '.has'))
    cls, esz, pa = CONF['value']

    def alts(nm):
        return [b'', b'\x01' + S.bytes(nm + '.ex', 8), bytes([S.int(nm + '.pfx', 8, 9)]) + S.bytes(nm + '.cm', 32)]
    ka, kk = S.int(name + '.amount.kind', 0, 2), S.int(name + '.keys.kind', 0, 2)
    # at least one of the two is present
    ka = S.ite(b_and(S, ka == 0, kk == 0), 3, ka)
    amount = S.variants(S.ite(has, ka, 0), cls, alts(name + '.amount') + [b'\x01' + S.bytes(name + '.amount2', 8)])
    keys = S.variants(S.ite(has, kk, 0), cls, alts(name + '.keys'))
    return CAssetIssuance(
        Uint256(S.ite(has, S.bytes(name + '.nonce', 32), Z32)),
        Uint256(S.ite(has, S.bytes(name + '.entropy', 32), Z32)),
        amount, keys)


def txin(S, p, mutable=False, coinbase=True, pegin=True, ambiguous=False):
    cb = S.bool(p + '.coinbase') if coinbase else False
    n = S.ite(cb, 0xffffffff, S.int(p + '.n', 0, 0x3fffffff))
    iss = issuance(S, p + '.iss', b_not(S, cb))
    pg = b_and(S, b_not(S, cb), S.bool(p + '.pegin')) if pegin else False
    if not ambiguous:
        # index 0x3fffffff with both marks reads as a coinbase input
        both = b_and(S, n == 0x3fffffff, b_and(S, pg, b_not(S, null_iss(S, iss))))
        n = S.ite(both, 0x3ffffffe, n)
    cls, oc = (CElementsMutableTxIn, CElementsMutableOutPoint) if mutable else (CElementsTxIn, CElementsOutPoint)
    return cls(oc(S.bytes(p + '.hash', 32), n), CElementsScript(S.bytes(p + '.scriptSig', lo=0, hi=MAX)),
               S.int(p + '.nSequence', 0, U32), iss, pg)


def txout(S, p, mutable=False):
    cls = CElementsMutableTxOut if mutable else CElementsTxOut
    return cls(conf(S, p + '.value', 'value'), CElementsScript(S.bytes(p + '.spk', lo=0, hi=MAX)),
               conf(S, p + '.asset', 'asset'), conf(S, p + '.nonce', 'nonce'))


def inwit(S, p, mutable=False):
    cls = CElementsMutableTxInWitness if mutable else CElementsTxInWitness
    return cls(CScriptWitness(S.seq(p + '.stack', lambda j: S.bytes(p + '.item', lo=0, hi=MAX), 0, MAX)),
               S.bytes(p + '.arp', lo=0, hi=MAX), S.bytes(p + '.krp', lo=0, hi=MAX),
               CScriptWitness(S.seq(p + '.pstack', lambda j: S.bytes(p + '.pitem', lo=0, hi=MAX), 0, MAX)))


def outwit(S, p, mutable=False):
    cls = CElementsMutableTxOutWitness if mutable else CElementsTxOutWitness
    return cls(S.bytes(p + '.sp', lo=0, hi=MAX), S.bytes(p + '.rp', lo=0, hi=MAX))


def mktx(S, p='tx', mutable=None, wit='any', vin=None, vout=None, coinbase=True, min_in=0, min_out=0, ver=None):
    """any transaction; wit: 'any', 'none' (no entries)"""
    if mutable is None:
        mutable = S.choice(p + '.mutable', 2)
    if vin is None:
        vin = S.seq(p + '.vin', lambda i: txin(S, p + '.in', mutable, coinbase), min_in, MAX, cls=list)
    if vout is None:
        vout = S.seq(p + '.vout', lambda i: txout(S, p + '.out', mutable), min_out, MAX, cls=list)
    nver = S.int(p + '.version', -(1 << 31), (1 << 31) - 1) if ver is None else ver
    lock = S.int(p + '.locktime', 0, U32)
    w = None
    if wit == 'any':
        ni = S.int(p + '.nwi', 0, MAX)
        no = S.int(p + '.nwo', 0, MAX)
        S.assume(ni <= len(vin))
        S.assume(no <= len(vout))
        w = mkwit(S, p, mutable, ni, no)
    cls = CElementsMutableTransaction if mutable else CElementsTransaction
    return cls(vin, vout, lock, nver, w)


def mkwit(S, p, mutable, ni, no):
    cls = CElementsMutableTxWitness if mutable else CElementsTxWitness
    return cls(S.seq(p + '.wi', lambda i: inwit(S, p + '.wi', mutable), cls=list, n=ni),
               S.seq(p + '.wo', lambda i: outwit(S, p + '.wo', mutable), cls=list, n=no))


def any_conf(S, name, kind):
    """any content of a permitted length, valid or not"""
    cls, esz, pa = CONF[kind]
    alts = [b'', S.bytes(name + '.a', 33)] + ([S.bytes(name + '.b', esz)] if esz != 33 else [])
    return S.variants(S.int(name + '.raw', 0, len(alts) - 1), cls, alts)


# what the deserializers give for any input they accept (C02)

def parsed_issuance(S, p):
    return CAssetIssuance(Uint256(S.bytes(p + '.nonce', 32)), Uint256(S.bytes(p + '.entropy', 32)),
                          any_conf(S, p + '.amount', 'value'), any_conf(S, p + '.keys', 'value'))


def parsed_txin(S, p):
    n = S.ite(S.bool(p + '.coinbase'), U32, S.int(p + '.n', 0, 0x3fffffff))
    return CElementsTxIn(CElementsOutPoint(S.bytes(p + '.hash', 32), n),
                         CElementsScript(S.bytes(p + '.scriptSig', lo=0, hi=MAX)), S.int(p + '.nSequence', 0, U32),
                         parsed_issuance(S, p + '.iss'), S.bool(p + '.pegin'))


def parsed_txout(S, p):
    return CElementsTxOut(any_conf(S, p + '.value', 'value'), CElementsScript(S.bytes(p + '.spk', lo=0, hi=MAX)),
                          any_conf(S, p + '.asset', 'asset'), any_conf(S, p + '.nonce', 'nonce'))


PARSED = {'issuance': parsed_issuance, 'txin': parsed_txin, 'txout': parsed_txout,
          'inwit': lambda S, p: inwit(S, p), 'outwit': lambda S, p: outwit(S, p)}


# preconditions of the contracts of the deserializers, as one formula

def wf_conf(S, c, kind):
    cls, esz, pa = CONF[kind]
    raw = c.commitment
    n = len(raw)
    first = S.byte0(raw)
    return b_or(S, n == 0, b_or(S, b_and(S, n == esz, first == 1),
                                b_and(S, n == 33, b_or(S, first == pa, first == pa + 1))))


def wf_issuance(S, a):
    return b_and(S, wf_conf(S, a.nAmount, 'value'), wf_conf(S, a.nInflationKeys, 'value'))


def wf_txin(S, x):
    n = x.prevout.n
    null = null_iss(S, x.assetIssuance)
    cb = n == 0xffffffff
    a = x.assetIssuance
    zero = b_and(S, S.same_bytes(a.assetBlindingNonce.data, Z32), S.same_bytes(a.assetEntropy.data, Z32))
    return b_and(S, wf_issuance(S, a), b_and(S, b_or(S, b_not(S, null), zero), S.ite(
        cb, b_and(S, null, b_not(S, x.is_pegin)),
        b_and(S, n <= 0x3fffffff, b_or(S, n != 0x3fffffff, b_or(S, null, b_not(S, x.is_pegin)))))))


def wf_txout(S, o):
    return b_and(S, wf_conf(S, o.nValue, 'value'), b_and(S, wf_conf(S, o.nAsset, 'asset'), wf_conf(S, o.nNonce, 'nonce')))


# ---------------------------------------------- reference encodings

def varint(S, n):
    return S.varint(n)


def vb(S, b):
    """length-prefixed bytes"""
    return S.varint(len(b)) + b


def null_iss(S, a):
    """both amounts are null"""
    return b_and(S, len(a.nAmount.commitment) == 0, len(a.nInflationKeys.commitment) == 0)


def enc_conf(S, c):
    raw = c.commitment
    return S.ite(len(raw) == 0, b'\x00', raw)


def enc_issuance(S, a):
    return S.enc('issuance', a, raw_issuance(S, a))


def raw_issuance(S, a):
    return a.assetBlindingNonce.data + a.assetEntropy.data + enc_conf(S, a.nAmount) + enc_conf(S, a.nInflationKeys)


def enc_txin(S, x, marks=True):
    return S.enc('txin', x, raw_txin(S, x, marks), marks)


def raw_txin(S, x, marks=True, script=None):
    n = x.prevout.n
    has = b_and(S, b_not(S, n == 0xffffffff), b_not(S, null_iss(S, x.assetIssuance)))
    if marks:
        k = (n + S.ite(has, ISSUANCE_FLAG, 0) +
             S.ite(b_and(S, x.is_pegin, b_not(S, n == 0xffffffff)), PEGIN_FLAG, 0))
    else:
        k = n
    sc = x.scriptSig if script is None else script
    return (x.prevout.hash + k.to_bytes(4, 'little') + vb(S, sc) + x.nSequence.to_bytes(4, 'little') +
            S.ite(has, enc_issuance(S, x.assetIssuance), b''))


def enc_txout(S, o):
    return S.enc('txout', o, raw_txout(S, o))


def raw_txout(S, o):
    return enc_conf(S, o.nAsset) + enc_conf(S, o.nValue) + enc_conf(S, o.nNonce) + vb(S, o.scriptPubKey)


def enc_stack(S, st):
    return S.varint(len(st)) + b''.join([vb(S, b) for b in st])


def enc_inwit(S, w):
    return S.enc('inwit', w, raw_inwit(S, w))


def raw_inwit(S, w):
    return (vb(S, w.issuanceAmountRangeproof) + vb(S, w.inflationKeysRangeproof) +
            enc_stack(S, w.scriptWitness.stack) + enc_stack(S, w.pegin_witness.stack))


def enc_outwit(S, w):
    return S.enc('outwit', w, raw_outwit(S, w))


def raw_outwit(S, w):
    return vb(S, w.surjectionproof) + vb(S, w.rangeproof)


def enc_wit(S, tx):
    """witness data, absent entries are empty"""
    return (b''.join([enc_inwit(S, w) for w in tx.wit.vtxinwit]) +
            b''.join([b'\x00\x00\x00\x00' for i in range(len(tx.wit.vtxinwit), len(tx.vin))]) +
            b''.join([enc_outwit(S, w) for w in tx.wit.vtxoutwit]) +
            b''.join([b'\x00\x00' for i in range(len(tx.wit.vtxoutwit), len(tx.vout))]))


def null_inwit(S, w):
    return b_and(S, len(w.issuanceAmountRangeproof) == 0, b_and(S, len(w.inflationKeysRangeproof) == 0, b_and(
        S, len(w.scriptWitness.stack) == 0, len(w.pegin_witness.stack) == 0)))


def null_outwit(S, w):
    return b_and(S, len(w.surjectionproof) == 0, len(w.rangeproof) == 0)


def null_wit(S, wit):
    """there is no witness data (splits the path)"""
    for w in wit.vtxinwit:
        if not null_inwit(S, w):
            return False
    for w in wit.vtxoutwit:
        if not null_outwit(S, w):
            return False
    return True


def enc_body(S, tx, marks=True):
    return (S.varint(len(tx.vin)) + b''.join([enc_txin(S, x, marks) for x in tx.vin]) +
            S.varint(len(tx.vout)) + b''.join([enc_txout(S, o) for o in tx.vout]) +
            tx.nLockTime.to_bytes(4, 'little'))


def enc_tx(S, tx, witness, marks=True):
    r = tx.nVersion.to_bytes(4, 'little', signed=True) + (b'\x01' if witness else b'\x00') + enc_body(S, tx, marks)
    return r + enc_wit(S, tx) if witness else r


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


# ------------------------------------------------------ comparison

def eq_txin(S, nm, a, b):
    S.ensure_eq(nm + ' prevout hash', a.prevout.hash, b.prevout.hash)
    S.ensure_eq(nm + ' prevout index', a.prevout.n, b.prevout.n)
    S.ensure_eq(nm + ' scriptSig', bytes(a.scriptSig), bytes(b.scriptSig))
    S.ensure_eq(nm + ' nSequence', a.nSequence, b.nSequence)
    S.ensure(nm + ' is_pegin', a.is_pegin == b.is_pegin)
    eq_issuance(S, nm, a.assetIssuance, b.assetIssuance)


def eq_issuance(S, nm, a, b):
    S.ensure_eq(nm + ' blinding nonce', a.assetBlindingNonce.data, b.assetBlindingNonce.data)
    S.ensure_eq(nm + ' entropy', a.assetEntropy.data, b.assetEntropy.data)
    S.ensure_eq(nm + ' issuance amount', a.nAmount.commitment, b.nAmount.commitment)
    S.ensure_eq(nm + ' inflation keys', a.nInflationKeys.commitment, b.nInflationKeys.commitment)


def eq_txout(S, nm, a, b):
    S.ensure_eq(nm + ' value', a.nValue.commitment, b.nValue.commitment)
    S.ensure_eq(nm + ' asset', a.nAsset.commitment, b.nAsset.commitment)
    S.ensure_eq(nm + ' nonce', a.nNonce.commitment, b.nNonce.commitment)
    S.ensure_eq(nm + ' scriptPubKey', bytes(a.scriptPubKey), bytes(b.scriptPubKey))


def eq_stack(S, nm, a, b):
    S.each(nm, a, b, lambda x, y: S.ensure_eq(nm + ' item', x, y))


def eq_inwit(S, nm, a, b):
    S.ensure_eq(nm + ' amount rangeproof', a.issuanceAmountRangeproof, b.issuanceAmountRangeproof)
    S.ensure_eq(nm + ' keys rangeproof', a.inflationKeysRangeproof, b.inflationKeysRangeproof)
    eq_stack(S, nm + ' stack', a.scriptWitness.stack, b.scriptWitness.stack)
    eq_stack(S, nm + ' pegin stack', a.pegin_witness.stack, b.pegin_witness.stack)


def eq_outwit(S, nm, a, b):
    S.ensure_eq(nm + ' surjection proof', a.surjectionproof, b.surjectionproof)
    S.ensure_eq(nm + ' range proof', a.rangeproof, b.rangeproof)


def eq_tx(S, nm, a, b, wit=True):
    S.ensure_eq(nm + ' version', a.nVersion, b.nVersion)
    S.ensure_eq(nm + ' lock time', a.nLockTime, b.nLockTime)
    S.each(nm + ' inputs', a.vin, b.vin, lambda x, y: eq_txin(S, nm + ' input', x, y))
    S.each(nm + ' outputs', a.vout, b.vout, lambda x, y: eq_txout(S, nm + ' output', x, y))
    if wit:
        S.each(nm + ' input witnesses', a.wit.vtxinwit, b.wit.vtxinwit,
               lambda x, y: eq_inwit(S, nm + ' input witness', x, y))
        S.each(nm + ' output witnesses', a.wit.vtxoutwit, b.wit.vtxoutwit,
               lambda x, y: eq_outwit(S, nm + ' output witness', x, y))
