"""C14 Unblinding returns only data proven by the commitments"""
import hashlib
from pv.contract import contract
from bitcointx.core.key import CKey
from bitcointx.core import Uint256
import elementstx.core as ec
from elementstx.core import (
    CAsset, CConfidentialAsset, CConfidentialValue, CConfidentialNonce, UnblindingSuccess, UnblindingFailure)
from elementstx.wallet import CElementsKey
from .lib import CElementsScript, CElementsTxOut, CElementsMutableTxOut, MAX, any_conf
from . import zkp

MAX_MONEY = 21000000 * 100000000
# generator_serialize and pedersen_commitment_serialize of the library always
# return 1
TOTAL = ('gen_ser', 'commit_ser')


def commitment_in(S, nm, base):
    """a serialized point, valid or not"""
    return bytes([S.int(nm + '.pfx', base, base + 1)]) + S.bytes(nm + '.x', 32)


def expected(S, lib, sk, value, asset, nonce, script, proof):
    """None for a failure, else amount, blinding factor, asset, asset blinding
    factor: the only data that the commitments prove"""
    if len(proof) == 0:
        return None
    if len(nonce) > 0:
        if not zkp.pub_valid(nonce):
            return None
        key = hashlib.sha256(zkp.ecdh(zkp.pub_point(nonce), sk)).digest()
        extra = script if len(script) else b''
    else:
        key, extra = sk, b''
    if len(value) != 33 or (value[0] != 8 and value[0] != 9) or not zkp.commit_valid(value):
        return None
    if len(asset) != 33:
        return None
    if asset[0] == 1:
        if not zkp.bit('gen', asset[1:], b'\x00' * 32):
            return None
        g = zkp.gen(asset[1:], b'\x00' * 32)
    elif asset[0] == 10 or asset[0] == 11:
        if not zkp.gen_valid(asset):
            return None
        g = zkp.gen_point(asset)
    else:
        return None
    done, a = zkp.called(S, lib, 'rewind', key, zkp.commit_point(value), proof, extra, g)
    if not done:
        return None
    amount, n = zkp.num('rewind_value', 8, *a), zkp.num('rewind_len', 2, *a) % 4097
    if amount > MAX_MONEY or n != 64:
        return None
    msg = zkp.uf_bytes('rewind_msg', 4096, *a)
    tag, factor = msg[:32], msg[32:64]
    if not zkp.bit('gen', tag, factor):
        return None
    if zkp.gen_ser(zkp.gen(tag, factor)) != zkp.gen_ser(g):
        return None
    return amount, zkp.uf_bytes('rewind_blind', 32, *a), tag, factor


def check(S, lib, sk, value, asset, nonce, script, proof, call):
    err, r = S.catch(call)
    S.ensure('no exception', err is None)
    want = expected(S, lib, sk, value, asset, nonce, script, proof)
    if want is None:
        S.ensure('failure', type(r) is UnblindingFailure and not r.ok)
        S.ensure('reason', len(r.error) > 0)
        return
    S.ensure('success', type(r) is UnblindingSuccess and r.ok)
    S.ensure_eq('amount', r.amount, want[0])
    S.ensure('types', type(r.asset) is CAsset and type(r.blinding_factor) is Uint256 and
             type(r.asset_blinding_factor) is Uint256)
    S.ensure_eq('blinding factor', r.blinding_factor.data, want[1])
    S.ensure_eq('asset', r.asset.data, want[2])
    S.ensure_eq('asset blinding factor', r.asset_blinding_factor.data, want[3])


def run(S, value, asset, nonce, proof=None):
    lib = zkp.fresh(S, {'gen': 0.1})
    lib.sure = TOTAL
    sk = zkp.seckey(S, 'key')
    script = S.bytes('script', lo=0, hi=MAX)
    v, a, n = value(S), asset(S), nonce(S)
    proof = S.bytes('proof', lo=0, hi=MAX) if proof is None else proof
    if not S.symbolic and S.choice('real proof', 2):
        v, a, n, proof = made(S, sk, script, v, a, n, proof)
    kind = S.choice('interface', 4)
    key = CElementsKey.from_secret_bytes(sk, False) if kind & 1 else CKey(sk)
    p = bytearray(proof) if kind in (1, 2) else proof
    if kind < 2:
        def call():
            return ec.unblind_confidential_pair(
                blinding_key=key, confValue=CConfidentialValue(v), confAsset=CConfidentialAsset(a),
                confNonce=CConfidentialNonce(n), committedScript=CElementsScript(script), rangeproof=p)
    else:
        out = (CElementsTxOut if kind == 2 else CElementsMutableTxOut)(
            CConfidentialValue(v), CElementsScript(script), CConfidentialAsset(a), CConfidentialNonce(n))

        def call():
            return out.unblind_confidential_pair(key, p)
    check(S, lib, sk, v, a, n, script, proof, call)


def committed(nm, base):
    return lambda S: commitment_in(S, nm, base)


VALUE, ASSET, NONCE = committed('value', 8), committed('asset', 10), committed('nonce', 2)


def anything(nm, cls, sizes):
    """content of every length that the class accepts, valid or not"""
    return lambda S: S.bytes(nm, sizes[S.choice(nm + ' size', len(sizes))])


def made(S, sk, script, v, a, n, proof):
    """native runs: an output blinded for that key, as it would be by the code,
    with one of its parts replaced"""
    asset, ab, vb, e = [S.bytes(x, 32) for x in ('m.asset', 'm.ab', 'm.vb', 'm.e')]
    amount = S.int('m.amount', 0, 2 * MAX_MONEY)
    try:
        nonce, eph = ec.generate_output_rangeproof_nonce(CKey(sk).pub, _rand_func=lambda n: e)
        if len(n) == 0:
            nonce, eph, script = Uint256(sk), b'', b''
        ca, g = ec.blinded_asset(CAsset(asset), Uint256(ab))
        cv, c = ec.create_value_commitment(vb, g, amount)
        p = ec.generate_rangeproof([Uint256(vb)], nonce, amount, CElementsScript(script), c, g, CAsset(asset),
                                   [Uint256(ab)])
    except (RuntimeError, ValueError):
        return v, a, n, proof
    k = S.choice('replaced', 8)
    return (v if k == 0 else cv.commitment, a if k == 1 else ca.commitment, n if k == 2 else bytes(eph),
            proof if k == 3 else p)


@contract('C14', samples=200)
def committed_pair(S):
    """committed value and asset, any nonce commitment"""
    run(S, VALUE, ASSET, NONCE)


@contract('C14', samples=200)
def null_nonce(S):
    """without nonce the blinding key itself rewinds the proof and no script is
    committed to"""
    run(S, VALUE, ASSET, lambda S: b'')


@contract('C14', samples=200)
def any_nonce(S):
    """nonces of other forms"""
    run(S, VALUE, ASSET, anything('nonce', CConfidentialNonce, (0, 33)))


@contract('C14', samples=200)
def any_asset(S):
    """explicit, null and malformed assets"""
    run(S, VALUE, anything('asset', CConfidentialAsset, (0, 33)), NONCE)


@contract('C14')
def any_value(S):
    """explicit, null and malformed values"""
    run(S, anything('value', CConfidentialValue, (0, 9, 33)), ASSET, NONCE)


@contract('C14')
def empty_proof(S):
    """nothing can be proved without a proof"""
    run(S, anything('value', CConfidentialValue, (0, 9, 33)), anything('asset', CConfidentialAsset, (0, 33)),
        anything('nonce', CConfidentialNonce, (0, 33)), b'')


@contract('C14')
def wrong_types(S):
    """arguments of other types are refused"""
    zkp.fresh(S)
    good = dict(blinding_key=CKey(zkp.seckey(S, 'key')), confValue=CConfidentialValue(VALUE(S)),
                confAsset=CConfidentialAsset(ASSET(S)), confNonce=CConfidentialNonce(NONCE(S)),
                committedScript=CElementsScript(S.bytes('script', lo=0, hi=MAX)),
                rangeproof=S.bytes('proof', lo=0, hi=MAX))
    name = sorted(good)[S.choice('argument', 6)]
    good[name] = [None, 'abc', 5, [b'a'], CKey(bytes(31) + b'\x01').pub if name != 'rangeproof' else 1.5][S.choice('bad', 5)]
    err, r = S.catch(lambda: ec.unblind_confidential_pair(**good))
    S.ensure('TypeError', isinstance(err, TypeError))
