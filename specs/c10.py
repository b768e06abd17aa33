"""C10 Confidential address conversion is lossless and type-safe

Public keys are valid or not as the stand-in of libsecp256k1 in specs/zkp.py
says."""
from pv.contract import contract
from bitcointx import ChainParams
from bitcointx.core.key import CPubKey
from bitcointx.wallet import CCoinAddressError
import bitcointx.wallet as bw
import elementstx.wallet as w
from .lib import MAX
from .addr import *
from . import zkp


def same_address(S, what, a, cls, data):
    S.ensure(what + ': class', type(a) is cls)
    S.ensure_eq(what + ': data', bytes(a), data)


def targets(chain, t):
    """classes that may be asked for the confidential address"""
    return [conf(chain, t), conf_base(chain), coded(chain, t, True), conf_coin(t), w.CCoinConfidentialAddress]


def given_key(p, k):
    return p if k == 0 else CPubKey(p) if k == 1 else bytearray(p)


@contract('C10')
def combine(S):
    """address and key are recovered, scripts are those of the address"""
    chain, t = chain_type(S)
    zkp.fresh(S)
    h, p = payload(S, t), zkp.pubkey(S, 'pub')
    with ChainParams(chain):
        a = plain(chain, t).from_bytes(h)
        x = targets(chain, t)[S.choice('class', 5)].from_unconfidential(a, given_key(p, S.choice('key', 3)))
        same_address(S, 'confidential', x, conf(chain, t), p + h)
        k = x.blinding_pubkey
        S.ensure('key: class', type(k) is CPubKey)
        S.ensure_eq('key', bytes(k), p)
        same_address(S, 'unconfidential', x.to_unconfidential(), plain(chain, t), h)
        for y in (x, a):
            S.ensure_eq('scriptPubKey', bytes(y.to_scriptPubKey()), script(t, h))
            err, r = S.catch(y.to_redeemScript)
            if redeem(t, h) is None:
                S.ensure('no redeem script', isinstance(err, NotImplementedError))
            else:
                S.ensure('redeem script', err is None)
                S.ensure_eq('redeemScript', bytes(r), redeem(t, h))


@contract('C10')
def any_current_chain(S):
    """classes of a chain give addresses of this chain, whatever the current
    chain is"""
    chain, t = chain_type(S)
    current = ['elements', 'elements/liquidv1', 'bitcoin'][S.choice('current', 3)]
    zkp.fresh(S)
    h, p = payload(S, t), zkp.pubkey(S, 'pub')
    with ChainParams(current):
        a = plain(chain, t).from_bytes(h)
        x = targets(chain, t)[S.choice('class', 3)].from_unconfidential(a, p)
        same_address(S, 'confidential', x, conf(chain, t), p + h)
        same_address(S, 'unconfidential', x.to_unconfidential(), plain(chain, t), h)
        S.ensure_eq('scriptPubKey', bytes(x.to_scriptPubKey()), script(t, h))


def rejected(S, err):
    S.ensure('rejected', isinstance(err, (TypeError, ValueError, CCoinAddressError)))


@contract('C10')
def other_type(S):
    """address of another type, or of another encoding"""
    chain, t = chain_type(S)
    u = list(TYPES)[S.choice('other', 5)]
    zkp.fresh(S)
    h, p = payload(S, u), zkp.pubkey(S, 'pub')
    S.assume(u != t)
    targ = [conf(chain, t), conf_coin(t)]
    if encoding(u) != encoding(t):
        targ.append(coded(chain, t, True))
    with ChainParams(chain):
        a = plain(chain, u).from_bytes(h)
        err, _ = S.catch(targ[S.choice('class', len(targ))].from_unconfidential, a, p)
        rejected(S, err)


@contract('C10')
def other_chain(S):
    """address of another chain"""
    chain, t = chain_type(S)
    zkp.fresh(S)
    h, p = payload(S, t), zkp.pubkey(S, 'pub')
    other = [c for c in NAMES if c != chain][0]
    with ChainParams(chain):
        if S.choice('bitcoin', 2):
            a = getattr(bw, t + 'BitcoinAddress').from_bytes(h)
        else:
            a = plain(other, t).from_bytes(h)
        err, _ = S.catch(targets(chain, t)[S.choice('class', 5)].from_unconfidential, a, p)
        rejected(S, err)


@contract('C10')
def not_an_address(S):
    """confidential addresses and values that are no address"""
    chain, t = chain_type(S)
    zkp.fresh(S)
    h, p = payload(S, t), zkp.pubkey(S, 'pub')
    with ChainParams(chain):
        k = S.choice('what', 4)
        a = h if k == 0 else None if k == 1 else 'text' if k == 2 else conf(chain, t).from_bytes(p + h)
        err, _ = S.catch(targets(chain, t)[S.choice('class', 5)].from_unconfidential, a, p)
        rejected(S, err)


@contract('C10')
def bad_key(S):
    """keys that are not valid; values that are no key"""
    chain, t = chain_type(S)
    zkp.fresh(S)
    h, p = payload(S, t), S.bytes('pub', lo=0, hi=100)
    k = S.choice('kind', 5)
    if k < 3:
        S.assume(not (len(p) == 33 and zkp.pub_valid(p)))
    with ChainParams(chain):
        a = plain(chain, t).from_bytes(h)
        err, _ = S.catch(targets(chain, t)[S.choice('class', 5)].from_unconfidential, a,
                         given_key(p, k) if k < 3 else None if k == 3 else 'text')
        rejected(S, err)


@contract('C10')
def not_from_script(S):
    """a confidential address cannot be made from a script"""
    chain, t = chain_type(S)
    s = S.bytes('script', lo=0, hi=MAX)
    with ChainParams(chain):
        c = targets(chain, t)[S.choice('class', 5)]
        err, _ = S.catch(c.from_scriptPubKey, w.CElementsTxOut(scriptPubKey=script(t, s[:TYPES[t]])).scriptPubKey)
        S.ensure('refused', isinstance(err, CCoinAddressError))


@contract('C10')
def subclass(S):
    """a confidential address counts as an address of its type"""
    chain, t = chain_type(S)
    with ChainParams(chain):
        S.ensure('is an address of the type', issubclass(conf(chain, t), plain(chain, t)))
        S.ensure('only of this type', not any(issubclass(conf(chain, t), plain(c, u)) for c in NAMES for u in TYPES
                                              if (c, u) != (chain, t)))
