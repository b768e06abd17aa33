"""C06 Taproot and tapscript signature hash commits exactly as specified"""
import hashlib
from bitcointx.core.script import (SIGVERSION_TAPROOT, SIGVERSION_TAPSCRIPT, SIGHASH_Type)
from elementstx.core.script import ElementsSignatureHashSchnorr
from pv.contract import contract
from .lib import *
from . import elements

elements.serializer_contracts('C06', 'varint_serialize', 'issuance_serialize', 'txout_serialize',
                              'outwit_serialize')

HASHTYPES = [None, 1, 2, 3, 0x81, 0x82, 0x83]


def sha(b):
    return hashlib.sha256(b).digest()


def tagged(tag, b):
    return sha(sha(tag) + sha(tag) + b)


def mark(S, x):
    return bytes([S.ite(null_iss(S, x.assetIssuance), 0, 0x80) + S.ite(x.is_pegin, 0x40, 0)])


def outpoint(x):
    return x.prevout.hash + x.prevout.n.to_bytes(4, 'little')


def iss_or_zero(S, x):
    return S.ite(null_iss(S, x.assetIssuance), b'\x00', enc_issuance(S, x.assetIssuance))


def in_proofs(S, tx):
    """issuance range proofs of all inputs, absent witnesses are empty"""
    return (b''.join([vb(S, w.issuanceAmountRangeproof) + vb(S, w.inflationKeysRangeproof)
                      for w in tx.wit.vtxinwit]) +
            b''.join([b'\x00\x00' for i in range(len(tx.wit.vtxinwit), len(tx.vin))]))


def out_proofs(S, tx):
    return (b''.join([enc_outwit(S, w) for w in tx.wit.vtxoutwit]) +
            b''.join([b'\x00\x00' for i in range(len(tx.wit.vtxoutwit), len(tx.vout))]))


def own_proofs(S, tx, k):
    if k < len(tx.wit.vtxinwit):
        w = tx.wit.vtxinwit[k]
        return vb(S, w.issuanceAmountRangeproof) + vb(S, w.inflationKeysRangeproof)
    return b'\x00\x00'


def message(S, tx, k, spent, ht, annex, ext):
    """the specification of the signed message; ext: b'' or the tapscript
    extension"""
    t = 1 if ht is None else ht
    m = bytes([0 if ht is None else ht]) + tx.nVersion.to_bytes(4, 'little', signed=True) + \
        tx.nLockTime.to_bytes(4, 'little')
    if not t & 0x80:
        m += sha(b''.join([mark(S, x) for x in tx.vin]))
        m += sha(b''.join([outpoint(x) for x in tx.vin]))
        m += sha(b''.join([enc_conf(S, o.nAsset) + enc_conf(S, o.nValue) for o in spent]))
        m += sha(b''.join([vb(S, o.scriptPubKey) for o in spent]))
        m += sha(b''.join([x.nSequence.to_bytes(4, 'little') for x in tx.vin]))
        m += sha(b''.join([iss_or_zero(S, x) for x in tx.vin]))
        m += sha(in_proofs(S, tx))
    if t & 3 == 1:
        m += sha(b''.join([enc_txout(S, o) for o in tx.vout]))
        m += sha(out_proofs(S, tx))
    m += bytes([(2 if ext else 0) + (1 if annex is not None else 0)])
    if t & 0x80:
        x, o = tx.vin[k], spent[k]
        m += mark(S, x) + outpoint(x) + enc_conf(S, o.nAsset) + enc_conf(S, o.nValue) + vb(S, o.scriptPubKey)
        m += x.nSequence.to_bytes(4, 'little')
        if null_iss(S, x.assetIssuance):
            m += b'\x00'
        else:
            m += enc_issuance(S, x.assetIssuance) + sha(own_proofs(S, tx, k))
    else:
        m += k.to_bytes(4, 'little')
    if annex is not None:
        m += annex
    if t & 3 == 3:
        m += sha(enc_txout(S, tx.vout[k]))
        if k < len(tx.wit.vtxoutwit):
            m += sha(enc_outwit(S, tx.wit.vtxoutwit[k]))
        else:
            m += sha(b'\x00\x00')
    return m + ext


def args(S, mutable=0, hts=HASHTYPES):
    tx = mktx(S, min_in=1, mutable=mutable, coinbase=False)
    k = S.int('inIdx', 0, MAX)
    S.assume(k < len(tx.vin))
    spent = S.seq('spent', lambda i: txout(S, 'spent'), cls=list, n=len(tx.vin))
    i = S.choice('hashtype', len(hts))
    ht = hts[i]
    annex = S.bytes('annex', 32) if S.choice('annexed', 2) else None
    genesis = S.bytes('genesis', 32)
    return tx, k, spent, ht, annex, genesis


def judge(S, err, h, tx, k, spent, ht, annex, genesis, ext):
    if ht is not None and ht & 3 == 3 and k >= len(tx.vout):
        S.ensure('no matching output: ValueError', isinstance(err, ValueError))
        return
    S.ensure('no exception', err is None)
    S.ensure_eq('signature hash', h, tagged(b'TapSighash/elements',
                                            genesis + genesis + message(S, tx, k, spent, ht, annex, ext)))


@contract('C06', budget=500)
def key_path(S):
    """SIGVERSION_TAPROOT"""
    tx, k, spent, ht, annex, genesis = args(S)
    err, h = S.catch(ElementsSignatureHashSchnorr, tx, k, spent,
                     hashtype=None if ht is None else SIGHASH_Type(ht), annex_hash=annex, genesis_block_hash=genesis)
    judge(S, err, h, tx, k, spent, ht, annex, genesis, b'')


@contract('C06', budget=500)
def tapscript(S):
    """CElementsScript.sighash_schnorr: leaf hash of the script, key version 0
    and code separator position are committed"""
    tx, k, spent, ht, annex, genesis = args(S, hts=[None, 0x82, 3])
    raw = S.bytes('script', lo=0, hi=MAX)
    pos = S.int('codeseparator', -1, (1 << 31) - 1)
    err, h = S.catch(CElementsScript(raw).sighash_schnorr, tx, k, spent,
                     hashtype=None if ht is None else SIGHASH_Type(ht), annex_hash=annex,
                     codeseparator_pos=pos, genesis_block_hash=genesis)
    ext = (tagged(b'TapLeaf/elements', b'\xc4' + vb(S, raw)) + b'\x00' + pos.to_bytes(4, 'little', signed=True))
    judge(S, err, h, tx, k, spent, ht, annex, genesis, ext)


@contract('C06')
def explicit_leaf(S):
    """SIGVERSION_TAPSCRIPT with a given leaf hash; without one it is refused"""
    tx = mktx(S, min_in=1, mutable=1, coinbase=False, wit='none')
    k = S.int('inIdx', 0, MAX)
    S.assume(k < len(tx.vin))
    spent = S.seq('spent', lambda i: txout(S, 'spent'), cls=list, n=len(tx.vin))
    genesis = S.bytes('genesis', 32)
    leaf = S.bytes('leaf', 32)
    pos = S.int('codeseparator', -1, (1 << 31) - 1)
    err, h = S.catch(ElementsSignatureHashSchnorr, tx, k, spent, hashtype=SIGHASH_Type(0x82),
                     sigversion=SIGVERSION_TAPSCRIPT, tapleaf_hash=leaf, codeseparator_pos=pos,
                     genesis_block_hash=genesis)
    judge(S, err, h, tx, k, spent, 0x82, None, genesis, leaf + b'\x00' + pos.to_bytes(4, 'little', signed=True))
    err, h = S.catch(ElementsSignatureHashSchnorr, tx, k, spent, hashtype=SIGHASH_Type(0x82),
                     sigversion=SIGVERSION_TAPSCRIPT, genesis_block_hash=genesis)
    S.ensure('leaf hash needed', isinstance(err, ValueError))


@contract('C06')
def refused(S):
    """indexes out of range, wrong number of spent outputs, malformed hashes,
    other signature versions"""
    tx = mktx(S, mutable=0, coinbase=False)
    k = S.int('inIdx', -(1 << 31), (1 << 31) - 1)
    ns = S.int('nspent', 0, MAX if S.symbolic else 6)
    spent = S.seq('spent', lambda i: txout(S, 'spent'), cls=list, n=ns)
    ht = HASHTYPES[S.choice('hashtype', 7)]
    ht = None if ht is None else SIGHASH_Type(ht)
    case = S.choice('case', 6)
    kw = dict(hashtype=ht, genesis_block_hash=b'\x01' * 32)
    if case == 0:
        S.assume(k < 0 or k >= len(tx.vin))
    elif case == 1:
        S.assume(ns != len(tx.vin))
    elif case == 2:
        kw['genesis_block_hash'] = S.bytes('genesis', lo=0, hi=100)
        S.assume(len(kw['genesis_block_hash']) != 32)
    elif case == 3:
        kw['annex_hash'] = S.bytes('annex', lo=0, hi=100)
        S.assume(len(kw['annex_hash']) != 32)
    elif case == 4:
        kw['tapleaf_hash'] = S.bytes('leaf', lo=0, hi=100)
        S.assume(len(kw['tapleaf_hash']) != 32)
        kw['sigversion'] = SIGVERSION_TAPSCRIPT
    else:
        v = S.int('sigversion', -10, 300)
        S.assume(v != SIGVERSION_TAPROOT and v != SIGVERSION_TAPSCRIPT)
        kw['sigversion'] = v
    err, h = S.catch(ElementsSignatureHashSchnorr, tx, k, spent, **kw)
    S.ensure('ValueError', isinstance(err, ValueError))


@contract('C06')
def refused_types(S):
    """hashes that are not bytes, hash types that are not standard"""
    tx = mktx(S, mutable=0, coinbase=False, min_in=1)
    spent = S.seq('spent', lambda i: txout(S, 'spent'), cls=list, n=len(tx.vin))
    g = b'\x01' * 32
    case = S.choice('case', 6)
    kw = [dict(genesis_block_hash='11' * 16), dict(genesis_block_hash=None),
          dict(genesis_block_hash=g, annex_hash='1' * 32), dict(genesis_block_hash=g, tapleaf_hash=5),
          dict(genesis_block_hash=g, hashtype=1), dict(genesis_block_hash=g, hashtype='ALL')][case]
    err, h = S.catch(ElementsSignatureHashSchnorr, tx, 0, spent, **kw)
    S.ensure('refused', isinstance(err, (TypeError, ValueError)))
