"""C04 Segwit v0 signature hash commits exactly as specified"""
from bitcointx.core.script import SIGVERSION_WITNESS_V0, SIGHASH_Type
from elementstx.core.script import RawElementsSignatureHash
from pv.contract import contract
from .lib import *
from . import elements

elements.serializer_contracts('C04', 'varint_serialize', 'issuance_serialize', 'txout_serialize')


def outpoint(x):
    return x.prevout.hash + x.prevout.n.to_bytes(4, 'little')


def enc_iss_or_zero(S, x):
    return S.ite(null_iss(S, x.assetIssuance), b'\x00', enc_issuance(S, x.assetIssuance))


def preimage_v0(S, script, tx, k, hashtype, amount):
    """the specification of the preimage"""
    acp = (hashtype // 128) % 2 == 1
    kind = hashtype % 32
    single, none = kind == 3, kind == 2
    x = tx.vin[k]
    hp = S.ite(acp, Z32, dsha(b''.join([outpoint(i) for i in tx.vin])))
    hi = S.ite(acp, Z32, dsha(b''.join([enc_iss_or_zero(S, i) for i in tx.vin])))
    hs = S.ite(b_or(S, acp, b_or(S, single, none)), Z32,
               dsha(b''.join([i.nSequence.to_bytes(4, 'little') for i in tx.vin])))
    if single:
        ho = dsha(enc_txout(S, tx.vout[k])) if k < len(tx.vout) else Z32
    elif none:
        ho = Z32
    else:
        ho = dsha(b''.join([enc_txout(S, o) for o in tx.vout]))
    return (tx.nVersion.to_bytes(4, 'little', signed=True) + hp + hs + hi + outpoint(x) + vb(S, script) +
            amount.commitment + x.nSequence.to_bytes(4, 'little') +
            S.ite(null_iss(S, x.assetIssuance), b'', enc_issuance(S, x.assetIssuance)) + ho +
            tx.nLockTime.to_bytes(4, 'little') + hashtype.to_bytes(4, 'little', signed=True))


def args(S, hashtypes=None):
    tx = mktx(S, min_in=1)
    k = S.int('inIdx', 0, MAX)
    S.assume(k < len(tx.vin))
    amount = conf(S, 'amount', 'value', null=False)
    script = CElementsScript(S.bytes('script', lo=0, hi=MAX))
    return tx, k, amount, script


@contract('C04')
def raw_hash(S):
    """RawElementsSignatureHash for any 32-bit hash type"""
    tx, k, amount, script = args(S)
    ht = S.int('hashtype', -(1 << 31), (1 << 31) - 1)
    h, err = RawElementsSignatureHash(script, tx, k, ht, amount, SIGVERSION_WITNESS_V0)
    S.ensure('no error', err is None)
    S.ensure_eq('signature hash', h, dsha(preimage_v0(S, script, tx, k, ht, amount)))


@contract('C04')
def script_methods(S):
    """CElementsScript.sighash and raw_sighash for the standard hash types"""
    tx, k, amount, script = args(S)
    ht = [1, 2, 3, 0x81, 0x82, 0x83][S.choice('hashtype', 6)]
    h = script.sighash(tx, k, SIGHASH_Type(ht), amount, SIGVERSION_WITNESS_V0)
    S.ensure_eq('signature hash', h, dsha(preimage_v0(S, script, tx, k, ht, amount)))
    h2, err = script.raw_sighash(tx, k, SIGHASH_Type(ht), amount=amount, sigversion=SIGVERSION_WITNESS_V0)
    S.ensure('no error', err is None)
    S.ensure_eq('raw_sighash', h2, h)


@contract('C04')
def amount_type(S):
    """the amount has to be a confidential value"""
    tx, k, amount, script = args(S)
    bad = [None, 5, b'\x01' + b'\x00' * 8][S.choice('bad', 3)]
    err, h = S.catch(RawElementsSignatureHash, script, tx, k, 1, bad, SIGVERSION_WITNESS_V0)
    S.ensure('refused', err is not None)
