"""C05 Legacy signature hash uses the Elements transaction form"""
from bitcointx.core.script import (SIGVERSION_BASE, SIGVERSION_WITNESS_V0, SIGHASH_Type, FindAndDelete,
                                   OP_CODESEPARATOR)
from elementstx.core.script import RawElementsSignatureHash
from pv.contract import contract
from .lib import *
from . import elements

elements.serializer_contracts('C05', 'varint_serialize', 'issuance_serialize', 'txout_serialize', 'txin_serialize')

HASH_ONE = b'\x01' + b'\x00' * 31
SEP = bytes([OP_CODESEPARATOR])
BLANK = b'\x00' * 4


def legacy_input(S, x, script, seq):
    """an input as it is signed: no marks in the outpoint, issuance kept"""
    return b''.join([x.prevout.hash, x.prevout.n.to_bytes(4, 'little'), vb(S, script), seq.to_bytes(4, 'little'),
                     S.ite(null_iss(S, x.assetIssuance), b'', enc_issuance(S, x.assetIssuance))])


def preimage(S, script, tx, k, ht):
    """the specification, for a hash type with an existing output"""
    acp = (ht // 128) % 2 == 1
    single, none = ht % 32 == 3, ht % 32 == 2
    code = FindAndDelete(script, SEP)
    own = legacy_input(S, tx.vin[k], code, tx.vin[k].nSequence)
    if acp:
        ins = S.varint(1) + own
    elif single or none:
        ins = S.varint(len(tx.vin)) + b''.join(
            [legacy_input(S, tx.vin[i], b'', 0) for i in range(k)]) + own + b''.join(
            [legacy_input(S, tx.vin[i], b'', 0) for i in range(k + 1, len(tx.vin))])
    else:
        ins = S.varint(len(tx.vin)) + b''.join(
            [legacy_input(S, tx.vin[i], b'', tx.vin[i].nSequence) for i in range(k)]) + own + b''.join(
            [legacy_input(S, tx.vin[i], b'', tx.vin[i].nSequence) for i in range(k + 1, len(tx.vin))])
    if none:
        outs = S.varint(0)
    elif single:
        outs = S.varint(k + 1) + b''.join([BLANK for i in range(k)]) + enc_txout(S, tx.vout[k])
    else:
        outs = S.varint(len(tx.vout)) + b''.join([enc_txout(S, o) for o in tx.vout])
    return (tx.nVersion.to_bytes(4, 'little', signed=True) + ins + outs + tx.nLockTime.to_bytes(4, 'little') +
            ht.to_bytes(4, 'little', signed=True))


def parsable(S, script):
    """precondition: no incomplete push in the script"""
    err, _ = S.catch(FindAndDelete, script, SEP)
    S.assume(err is None)


def mkscript(S, lo, hi):
    b = S.bytes('script', lo=lo, hi=hi)
    if not S.symbolic:
        # random scripts: an incomplete push is cut off
        n = 0
        try:
            for _, _, n in CScript(b).raw_iter():
                pass
        except Exception:
            b = b[:n] + bytes([0x51]) * (len(b) - n) if len(b) else b
    return b


def args(S, mutable=None):
    tx = mktx(S, min_in=1, mutable=mutable)
    k = S.int('inIdx', 0, MAX)
    S.assume(k < len(tx.vin))
    script = CElementsScript(mkscript(S, 43, MAX))
    parsable(S, script)
    return tx, k, script


@contract('C05', budget=500)
def raw_hash(S):
    """RawElementsSignatureHash, base version, any 32-bit hash type"""
    tx, k, script = args(S)
    ht = S.int('hashtype', -(1 << 31), (1 << 31) - 1)
    amount = CConfidentialValue(7) if tx.is_mutable() else None
    h, err = RawElementsSignatureHash(script, tx, k, ht, amount, SIGVERSION_BASE)
    if ht % 32 == 3 and k >= len(tx.vout):
        S.ensure('error for SINGLE without output', err is not None)
        S.ensure_eq('hash one', h, HASH_ONE)
    else:
        S.ensure('no error', err is None)
        S.ensure_eq('signature hash', h, dsha(preimage(S, script, tx, k, ht)))


@contract('C05')
def short_script(S):
    """short scripts: witness programs are refused, the others are signed"""
    tx = mktx(S, min_in=1, mutable=0)
    k = S.int('inIdx', 0, MAX)
    S.assume(k < len(tx.vin))
    raw = mkscript(S, 0, 42)
    script = CElementsScript(raw)
    parsable(S, script)
    err, r = S.catch(RawElementsSignatureHash, script, tx, k, 1, None, SIGVERSION_BASE)
    n = len(raw)
    prog = False
    if n >= 4:
        prog = (raw[0] == 0 or 0x51 <= raw[0] <= 0x60) and raw[1] == n - 2
    if prog:
        S.ensure('witness program refused', isinstance(err, ValueError))
    else:
        S.ensure('no exception', err is None)
        S.ensure_eq('signature hash', r[0], dsha(preimage(S, script, tx, k, 1)))


@contract('C05')
def is_witness(S):
    """CScript.is_witness_scriptpubkey (callee contract)"""
    S.bodies('is_witness')
    raw = S.bytes('script', lo=0, hi=MAX)
    script = CElementsScript(raw)
    n = len(raw)
    prog = 4 <= n <= 42 and (raw[0] == 0 or 0x51 <= raw[0] <= 0x60) and raw[1] == n - 2
    S.ensure('witness program', script.is_witness_scriptpubkey() == bool(prog))


@contract('C05')
def script_methods(S):
    """CElementsScript.sighash and raw_sighash for the standard hash types"""
    tx, k, script = args(S, mutable=0)
    ht = [1, 2, 3, 0x81, 0x82, 0x83][S.choice('hashtype', 6)]
    err, h = S.catch(script.sighash, tx, k, SIGHASH_Type(ht))
    h2, err2 = script.raw_sighash(tx, k, SIGHASH_Type(ht))
    if ht % 32 == 3 and k >= len(tx.vout):
        S.ensure('ValueError', isinstance(err, ValueError))
        S.ensure('reported', err2 is not None and h2 == HASH_ONE)
    else:
        S.ensure('no exception', err is None and err2 is None)
        S.ensure_eq('signature hash', h, dsha(preimage(S, script, tx, k, ht)))
        S.ensure_eq('the same', h, h2)


@contract('C05')
def unchanged(S):
    """the transaction that is signed is not changed"""
    tx = mktx(S, min_in=1, mutable=1, wit='none', coinbase=False)
    k = S.int('inIdx', 0, MAX)
    S.assume(k < len(tx.vin))
    script = CElementsScript(mkscript(S, 43, MAX))
    parsable(S, script)
    ht = [1, 0x82, 3][S.choice('hashtype', 3)]
    before = tx.serialize()
    h, err = script.raw_sighash(tx, k, SIGHASH_Type(ht))
    S.ensure_eq('unchanged', tx.serialize(), before)


@contract('C05')
def refused(S):
    """index out of range, unsupported version"""
    tx = mktx(S, mutable=0)
    script = CElementsScript(mkscript(S, 43, MAX))
    parsable(S, script)
    k = S.int('inIdx', -(1 << 31), (1 << 31) - 1)
    ht = S.int('hashtype', -(1 << 31), (1 << 31) - 1)
    if S.choice('case', 2):
        S.assume(k < 0 or k >= len(tx.vin))
        err, h = S.catch(script.sighash, tx, k, SIGHASH_Type([1, 2, 3, 0x81, 0x82, 0x83][S.choice('hashtype2', 6)]))
        S.ensure('ValueError', isinstance(err, ValueError))
        err, h = S.catch(script.raw_sighash, tx, k, ht)
        if k < 0:
            S.ensure('negative', isinstance(err, ValueError))
        else:
            S.ensure('reported', err is None and h[1] is not None)
            S.ensure_eq('hash one', h[0], HASH_ONE)
    else:
        v = S.int('sigversion', -10, 300)
        S.assume(v != 0 and v != 1)
        S.assume(k >= 0)
        S.assume(k < len(tx.vin))
        err, h = S.catch(RawElementsSignatureHash, script, tx, k, ht, CConfidentialValue(7), v)
        S.ensure('sigversion', isinstance(err, ValueError))
        err, h = S.catch(script.sighash, tx, k, SIGHASH_Type(1), CConfidentialValue(7), v)
        S.ensure('sigversion 2', isinstance(err, ValueError))
