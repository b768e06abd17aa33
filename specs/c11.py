"""C11 Address strings identify one chain and one address type"""
from pv.contract import contract
from bitcointx import ChainParams
from bitcointx.core import Hash
from bitcointx.wallet import CCoinAddressError
from .addr import *
from .text import stub, segwit_text, base58_text, same_text

stub()
OTHER = ['bitcoin', 'bitcoin/testnet', 'bitcoin/regtest', 'bitcoin/signet']
BITCOIN = {'bitcoin': 'Bitcoin', 'bitcoin/testnet': 'BitcoinTestnet', 'bitcoin/regtest': 'BitcoinRegtest',
           'bitcoin/signet': 'BitcoinSignet'}


def generic(t, c):
    """classes that exist once for all chains and stand for the ones of the
    current chain"""
    if c:
        return [bw.CCoinAddress, w.CCoinConfidentialAddress, conf_coin(t),
                w.CBase58CoinConfidentialAddress if encoding(t) == 0 else w.CBlech32CoinConfidentialAddress]
    return [bw.CCoinAddress, coin(t), bw.CBase58CoinAddress if encoding(t) == 0 else bw.CBech32CoinAddress]


def specific(chain, t, c):
    if c:
        return [base(chain), conf_base(chain), coded(chain, t, True), conf(chain, t)]
    return [base(chain), coded(chain, t, False), plain(chain, t)]


def data(S, t, c):
    return S.bytes('data', TYPES[t] + 33 * c)


def leaf(chain, t, c):
    return conf(chain, t) if c else plain(chain, t)


def any_address(S):
    chain, t = chain_type(S)
    c = S.choice('confidential', 2)
    return chain, t, c, leaf(chain, t, c).from_bytes(data(S, t, c))


@contract('C11')
def round_trip(S):
    """parsed under the same parameters: equal, same class"""
    chain, t = chain_type(S)
    c = S.choice('confidential', 2)
    with ChainParams(chain):
        d = data(S, t, c)
        a = leaf(chain, t, c).from_bytes(d)
        s = str(a)
        for e in generic(t, c) + specific(chain, t, c):
            b = e(s)
            S.ensure('class, by ' + e.__name__, type(b) is leaf(chain, t, c))
            S.ensure('equal, by ' + e.__name__, b == a)
            S.ensure_eq('data, by ' + e.__name__, bytes(b), d)


@contract('C11')
def class_of_chain(S):
    """classes of the chain parse the string whatever parameters are current"""
    chain, t = chain_type(S)
    c = S.choice('confidential', 2)
    current = (NAMES + OTHER[:1])[S.choice('current', 3)]
    with ChainParams(current):
        d = data(S, t, c)
        a = leaf(chain, t, c).from_bytes(d)
        s = str(a)
        for e in [base(chain), leaf(chain, t, c)] + [conf_base(chain)] * c:
            b = e(s)
            S.ensure('class, by ' + e.__name__, type(b) is leaf(chain, t, c))
            S.ensure_eq('data, by ' + e.__name__, bytes(b), d)


@contract('C11')
def other_chain(S):
    """string of one chain under the parameters of another"""
    chain, t = chain_type(S)
    c = S.choice('confidential', 2)
    x = [n for n in NAMES if n != chain] + OTHER
    current = x[S.choice('current', len(x))]
    with ChainParams(chain):
        s = str(leaf(chain, t, c).from_bytes(data(S, t, c)))
    with ChainParams(current):
        for e in generic(t, c) + (specific(current, t, c) if current in NAMES else []):
            err, _ = S.catch(e, s)
            S.ensure('refused by ' + e.__name__, err is not None)
            if e is bw.CCoinAddress:
                S.ensure('address error', isinstance(err, CCoinAddressError))


@contract('C11')
def string_of_bitcoin(S):
    """string of a bitcoin network"""
    chain, t = chain_type(S)
    b = OTHER[S.choice('network', 4)]
    with ChainParams(b):
        s = str(getattr(bw, t + BITCOIN[b] + 'Address').from_bytes(data(S, t, 0)))
    with ChainParams(chain):
        for e in generic(t, 0) + generic(t, 1) + specific(chain, t, 0) + specific(chain, t, 1):
            err, _ = S.catch(e, s)
            S.ensure('refused by ' + e.__name__, err is not None)


@contract('C11')
def other_type(S):
    """string of an address of another type, or confidential or not"""
    chain, t = chain_type(S)
    c = S.choice('confidential', 2)
    k = S.choice('other', 10)
    u, d = list(TYPES)[k // 2], k % 2
    if (u, d) == (t, c):
        return
    with ChainParams(chain):
        s = str(leaf(chain, t, c).from_bytes(data(S, t, c)))
        es = [conf(chain, u), conf_coin(u)] if d else [plain(chain, u), coin(u)]
        if d and not c:
            es += [conf_base(chain), w.CCoinConfidentialAddress]
        if encoding(u) != encoding(t) or d and not c:
            es += [coded(chain, u, bool(d))]
        for e in es:
            err, _ = S.catch(e, s)
            S.ensure('refused by ' + e.__name__, err is not None)


HRPS = ['ert', 'el', 'ex', 'lq', 'bc', 'tb', 'x']


@contract('C11')
def accepted(S):
    """any string with a valid checksum: if it is accepted, then as the address
    whose string it is"""
    chain = NAMES[S.choice('chain', 2)]
    k = S.choice('encoding', 3)
    if k == 0:
        d = S.bytes('base58 data', lo=0, hi=80)
        s = base58_text(S, d + Hash(d)[:4])
    else:
        s = segwit_text(S, ['bech32', 'blech32'][k - 1], HRPS[S.choice('prefix', len(HRPS))],
                        S.int('version', 0, 16), S.bytes('program', lo=0, hi=80))
        S.assume(s is not None)
    leaves = [leaf(chain, t, c) for t in TYPES for c in (0, 1)]
    es = [bw.CCoinAddress, w.CCoinConfidentialAddress, base(chain), conf_base(chain)] + leaves
    with ChainParams(chain):
        e = es[S.choice('class', len(es))]
        err, a = S.catch(e, s)
        if err is None:
            S.ensure('class', type(a) in leaves and issubclass(type(a), e))
            S.ensure('length', len(a) == type(a)._data_length)
            same_text(S, 'string', str(a), s)


@contract('C11')
def checksum(S):
    """base58 with a wrong checksum, or too short to have one"""
    chain = NAMES[S.choice('chain', 2)]
    d = S.bytes('data', lo=0, hi=80)
    if S.choice('short', 2):
        d = d[:3]
    else:
        S.assume(len(d) >= 4)
        S.assume(Hash(d[:-4])[:4] != d[-4:])
    s = base58_text(S, d)
    es = [bw.CCoinAddress, w.CCoinConfidentialAddress, base(chain), conf_base(chain)] + [
        leaf(chain, t, c) for t in TYPES for c in (0, 1)]
    with ChainParams(chain):
        err, _ = S.catch(es[S.choice('class', len(es))], s)
        S.ensure('refused', err is not None)
