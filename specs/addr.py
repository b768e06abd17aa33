"""addresses: what the classes are and what they pay to"""
from bitcointx import ChainParams
import elementstx.wallet as w
import bitcointx.wallet as bw

CHAINS = {'elements': 'Elements', 'elements/liquidv1': 'ElementsLiquidV1'}
TYPES = {'P2PKH': 20, 'P2SH': 20, 'P2WPKH': 20, 'P2WSH': 32, 'P2TR': 32}
NAMES = list(CHAINS)


def plain(chain, t):
    """class of unconfidential addresses"""
    return getattr(w, t + CHAINS[chain] + 'Address')


def conf(chain, t):
    return getattr(w, t + CHAINS[chain] + 'ConfidentialAddress')


def base(chain):
    return getattr(w, 'C' + CHAINS[chain] + 'Address')


def conf_base(chain):
    return getattr(w, 'C' + CHAINS[chain] + 'ConfidentialAddress')


def coded(chain, t, confidential):
    """class of all addresses in this encoding"""
    return getattr(w, 'C%s%s%sAddress' % (
        ('Base58' if t in ('P2PKH', 'P2SH') else 'Blech32' if confidential else 'Bech32'),
        CHAINS[chain], 'Confidential' if confidential else ''))


def encoding(t):
    return 0 if t in ('P2PKH', 'P2SH') else 1


def coin(t):
    """type-specific class for all chains"""
    return getattr(bw, t + 'CoinAddress')


def conf_coin(t):
    return getattr(w, t + 'CoinConfidentialAddress')


def keyhash_script(h):
    return b'\x76\xa9\x14' + h + b'\x88\xac'


def script(t, h):
    """scriptPubKey"""
    return {'P2PKH': lambda: keyhash_script(h), 'P2SH': lambda: b'\xa9\x14' + h + b'\x87',
            'P2WPKH': lambda: b'\x00\x14' + h, 'P2WSH': lambda: b'\x00\x20' + h,
            'P2TR': lambda: b'\x51\x20' + h}[t]()


def redeem(t, h):
    """redeem script, None: not known"""
    return keyhash_script(h) if t in ('P2PKH', 'P2WPKH') else None


def chain_type(S):
    chain = NAMES[S.choice('chain', 2)]
    return chain, list(TYPES)[S.choice('type', 5)]


def payload(S, t, name='hash'):
    return S.bytes(name, TYPES[t])
