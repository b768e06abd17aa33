"""C19 Reported output sizes equal real serialized sizes

The serialization itself is checked against the reference encoding by C01."""
from io import BytesIO
from pv.contract import contract
from bitcointx import ChainParams
import elementstx.wallet as w
from elementstx.core import CElementsTxOut, CConfidentialAsset, CConfidentialNonce, CConfidentialValue
from .addr import *
from .c10 import targets
from .elements import serializer_contracts


def serialized(S, o):
    f = BytesIO()
    o.stream_serialize(f)
    return f.getvalue()


def commitment(S, name, lo, hi):
    return bytes([S.int(name + '.prefix', lo, hi)]) + S.bytes(name, 32)


SIZES = {'P2PKH': 25, 'P2SH': 23, 'P2WPKH': 22, 'P2WSH': 34, 'P2TR': 34}


@contract('C19')
def confidential(S):
    """committed value, asset and nonce of 33 bytes"""
    chain, t = chain_type(S)
    cls = conf(chain, t)
    with ChainParams(chain):
        x = cls.from_bytes(S.bytes('pub', 33) + payload(S, t))
        o = CElementsTxOut(
            nValue=CConfidentialValue(commitment(S, 'value', 8, 9)), scriptPubKey=x.to_scriptPubKey(),
            nAsset=CConfidentialAsset(commitment(S, 'asset', 10, 11)), nNonce=CConfidentialNonce(commitment(S, 'nonce', 2, 3)))
        n = len(serialized(S, o))
        S.ensure('size of the instance', x.get_output_size() == n)
        S.ensure('size of the class', cls.get_output_size() == n)
        S.ensure('size of the type', conf_coin(t).get_output_size() == n)
        S.ensure('size', n == 3 * 33 + 1 + SIZES[t])


@contract('C19')
def unconfidential(S):
    """explicit value, null asset and nonce"""
    chain, t = chain_type(S)
    cls = plain(chain, t)
    with ChainParams(chain):
        x = cls.from_bytes(payload(S, t))
        o = CElementsTxOut(nValue=CConfidentialValue(S.int('amount', 0, 21000000 * 100000000)),
                           scriptPubKey=x.to_scriptPubKey())
        n = len(serialized(S, o))
        S.ensure('size of the instance', x.get_output_size() == n)
        S.ensure('size of the class', cls.get_output_size() == n)
        S.ensure('size of the type', coin(t).get_output_size() == n)
        S.ensure('size', n == 9 + 1 + 1 + 1 + SIZES[t])


@contract('C19')
def any_current_chain(S):
    """classes of a chain report the size while another chain is current"""
    chain, t = chain_type(S)
    cls = [plain, conf][S.choice('confidential', 2)](chain, t)
    with ChainParams([n for n in NAMES if n != chain][0]):
        x = cls.from_bytes(S.bytes('data', 33 * (cls is conf(chain, t)) + TYPES[t]))
        n = (3 * 33 if cls is conf(chain, t) else 11) + 1 + SIZES[t]
        S.ensure('size of the instance', x.get_output_size() == n)
        S.ensure('size of the class', cls.get_output_size() == n)


@contract('C19')
def no_fixed_length(S):
    """classes without a fixed payload length refuse"""
    chain = NAMES[S.choice('chain', 2)]
    with ChainParams(chain):
        cls = [w.CCoinConfidentialAddress, w.CBase58CoinConfidentialAddress, w.CBlech32CoinConfidentialAddress,
               base(chain), conf_base(chain), coded(chain, 'P2SH', True), coded(chain, 'P2SH', False),
               coded(chain, 'P2TR', True), coded(chain, 'P2TR', False), bw.CCoinAddress, bw.CBase58CoinAddress,
               bw.CBech32CoinAddress][S.choice('class', 12)]
        err, _ = S.catch(cls.get_output_size)
        S.ensure('TypeError', isinstance(err, TypeError))


@contract('C19')
def asked_before(S):
    """the answer does not depend on what was asked before"""
    chain, t = chain_type(S)
    u = list(TYPES)[S.choice('other', 5)]
    k = S.choice('confidential', 4)
    a, b = [plain, conf][k & 1](chain, t), [plain, conf][k >> 1](chain, u)
    with ChainParams(chain):
        a.get_output_size()
        S.ensure('size of the class', b.get_output_size() == (3 * 33 if k >> 1 else 11) + 1 + SIZES[u])
        a.from_bytes(bytes(a._data_length)).get_output_size()
        S.ensure('size of the instance', b.from_bytes(bytes(b._data_length)).get_output_size()
                 == (3 * 33 if k >> 1 else 11) + 1 + SIZES[u])


serializer_contracts('C19', 'varint_serialize', 'txout_serialize')
