"""C18 Blinding keys are derived by HMAC-SHA256 of the script"""
import hmac
import hashlib
from pv.contract import contract
from bitcointx.core.key import CKey, CKeyBase
from bitcointx.core.script import CBitcoinScript
from elementstx.wallet import CElementsKey
from elementstx.core import derive_blinding_key
from .lib import CElementsScript, MAX
from . import zkp


def refhmac(key, msg):
    """RFC 2104 with a key shorter than a block"""
    return hmac.new(key, msg, hashlib.sha256).digest()


@contract('C18')
def derive(S):
    """HMAC-SHA256(derivation key, script) as a private key, for every kind of
    script argument"""
    zkp.fresh(S)
    sk = zkp.seckey(S, 'key')
    key = [CKey(sk), CKey(sk, compressed=False), CElementsKey.from_secret_bytes(sk),
           CElementsKey.from_secret_bytes(sk, False)][S.choice('kind of key', 4)]
    raw = S.bytes('script', lo=0, hi=MAX)
    k = S.choice('as', 3)
    script = raw if k == 0 else (bytearray(raw) if k == 1 else CElementsScript(raw))
    mac = refhmac(sk, raw)
    err, r = S.catch(derive_blinding_key, key, script)
    valid = zkp.bit('seckey', mac)
    S.ensure('fails only if the code is not a private key', (err is None) == valid)
    if err is not None:
        S.ensure('ValueError', isinstance(err, ValueError))
        return
    S.ensure('a key', isinstance(r, CKey))
    S.ensure_eq('secret', r.secret_bytes, mac)
    S.ensure_eq('public key', bytes(r.pub), zkp.pub_ser33(zkp.uf_bytes('pubkey', 64, mac)))


@contract('C18')
def method(S):
    """the method of the script gives the key of the function"""
    zkp.fresh(S)
    sk = zkp.seckey(S, 'key')
    raw = S.bytes('script', lo=0, hi=MAX)
    mac = refhmac(sk, raw)
    S.assume(zkp.bit('seckey', mac))
    r = CElementsScript(raw).derive_blinding_key(CKey(sk))
    S.ensure('a key', isinstance(r, CKey))
    S.ensure_eq('secret', r.secret_bytes, mac)


@contract('C18')
def foreign_script(S):
    """scripts of another chain are refused"""
    zkp.fresh(S)
    key = CKey(zkp.seckey(S, 'key'))
    raw = S.bytes('script', lo=0, hi=MAX)
    err, r = S.catch(derive_blinding_key, key, CBitcoinScript(raw))
    S.ensure('TypeError', isinstance(err, TypeError))


@contract('C18')
def wrong_script(S):
    """arguments that are no scripts are refused"""
    zkp.fresh(S)
    key = CKey(zkp.seckey(S, 'key'))
    bad = [None, 'ab', 5, [1, 2], (1,), 1.5, memoryview(b'ab'), key.pub.key_id.hex][S.choice('bad', 8)]
    err, r = S.catch(derive_blinding_key, key, bad)
    S.ensure('TypeError', isinstance(err, TypeError))


@contract('C18')
def wrong_key(S):
    """derivation keys that are no keys are refused"""
    zkp.fresh(S)
    sk = zkp.seckey(S, 'key')
    bad = [None, 'ab', 5, sk, bytearray(sk), CKey(sk).pub, CKey][S.choice('bad', 7)]
    raw = S.bytes('script', lo=0, hi=MAX)
    if S.choice('method', 2):
        err, r = S.catch(CElementsScript(raw).derive_blinding_key, bad)
    else:
        err, r = S.catch(derive_blinding_key, bad, CElementsScript(raw))
    S.ensure('TypeError', isinstance(err, TypeError))
