"""C22 Chain constants and opcodes are those of Elements"""
import hashlib
from pv.contract import contract
from bitcointx import ChainParams, get_current_chain_params, select_chain_params
import bitcointx.core as bc
import bitcointx.core.script as bs
import bitcointx.wallet as bw
import elementstx.wallet as ew
import elementstx.core as ec
import elementstx.core.script as es
from . import lib                                       # noqa: F401


def sha(b):
    return hashlib.sha256(b).digest()


def tagged(tag, m):
    return sha(sha(tag) + sha(tag) + m)


# src/script/script.h of Elements Core
NAMES = '''DETERMINISTICRANDOM CHECKSIGFROMSTACK CHECKSIGFROMSTACKVERIFY SUBSTR_LAZY SHA256INITIALIZE SHA256UPDATE
SHA256FINALIZE INSPECTINPUTOUTPOINT INSPECTINPUTASSET INSPECTINPUTVALUE INSPECTINPUTSCRIPTPUBKEY INSPECTINPUTSEQUENCE
INSPECTINPUTISSUANCE PUSHCURRENTINPUTINDEX INSPECTOUTPUTASSET INSPECTOUTPUTVALUE INSPECTOUTPUTNONCE
INSPECTOUTPUTSCRIPTPUBKEY INSPECTVERSION INSPECTLOCKTIME INSPECTNUMINPUTS INSPECTNUMOUTPUTS TXWEIGHT ADD64 SUB64 MUL64
DIV64 NEG64 LESSTHAN64 LESSTHANOREQUAL64 GREATERTHAN64 GREATERTHANOREQUAL64 SCRIPTNUMTOLE64 LE64TOSCRIPTNUM LE32TOLE64
ECMULSCALARVERIFY TWEAKVERIFY'''.split()
CHAINS = [('elements', 7041, 'elementsregtest', ''), ('elements/elementsregtest', 7041, 'elementsregtest', ''),
          ('elements/liquidv1', 7042, 'liquidv1', 'LiquidV1')]
KINDS = ['P2PKH', 'P2SH', 'P2WPKH', 'P2WSH', 'P2TR']
SIZES = {'P2PKH': 20, 'P2SH': 20, 'P2WPKH': 20, 'P2WSH': 32, 'P2TR': 32}
TX = ['Transaction', 'TxOut', 'TxIn', 'OutPoint', 'TxWitness', 'TxInWitness', 'TxOutWitness']


@contract('C22')
def opcodes(S):
    """0xc0 to 0xe4, in the order of Elements Core"""
    for k, n in enumerate(NAMES):
        v = getattr(es, 'OP_' + n)
        S.ensure('value of OP_' + n, v == 0xc0 + k)
        S.ensure('class of OP_' + n, isinstance(v, bs.CScriptOp))
    mine = [n for n in dir(es) if n.startswith('OP_') and isinstance(getattr(es, n), bs.CScriptOp)
            and getattr(bs, n, None) is not getattr(es, n)]
    S.ensure('no others', sorted(mine) == sorted('OP_' + n for n in NAMES))
    S.ensure('distinct', len(set(int(getattr(es, n)) for n in mine)) == len(mine))


@contract('C22')
def hashers(S):
    """tagged hashes of Elements, for any message"""
    m = S.bytes('message', lo=0, hi=1000)
    p = bc.CoreCoinParams
    S.ensure('class', p is ec.CoreElementsParams or isinstance(p, ec.CoreElementsParams) or
             p.TAPROOT_LEAF_TAPSCRIPT == 0xc4)
    for n, tag in (('taptweak', b'TapTweak/elements'), ('tapleaf', b'TapLeaf/elements'),
                   ('tapbranch', b'TapBranch/elements'), ('tap_sighash', b'TapSighash/elements')):
        for q in (ec.CoreElementsParams, p):
            S.ensure_eq(n, getattr(q, n + '_hasher')(m), tagged(tag, m))


@contract('C22')
def constants(S):
    for p in (ec.CoreElementsParams, bc.CoreCoinParams):
        S.ensure('leaf version', p.TAPROOT_LEAF_TAPSCRIPT == 0xc4)
        S.ensure('exponent', p.CT_EXPONENT == 0)
        S.ensure('bits', p.CT_BITS == 52)
        S.ensure('money', p.MAX_MONEY == 2100000000000000 and p.COIN == 100000000)
    S.ensure('issuance', ec.OUTPOINT_ISSUANCE_FLAG == 0x80000000)
    S.ensure('peg-in', ec.OUTPOINT_PEGIN_FLAG == 0x40000000)
    S.ensure('mask', ec.OUTPOINT_INDEX_MASK == 0x3fffffff)
    for c, esz, (a, b) in ((ec.CConfidentialValue, 9, (8, 9)), (ec.CConfidentialAsset, 33, (10, 11)),
                           (ec.CConfidentialNonce, 33, (2, 3))):
        for x in range(256):
            r, v = S.catch(c, bytes([x]) + b'\x07' * 32)
            ok = r is None and bool(v.is_commitment())
            S.ensure('prefix of %s' % c.__name__, ok == (x in (a, b)))
            r, v = S.catch(c, bytes([x]) + b'\x07' * (esz - 1))
            S.ensure('explicit %s' % c.__name__, (r is None and bool(v.is_explicit())) == (x == 1))


def check_chain(S, name, port, folder, infix):
    p = get_current_chain_params()
    S.ensure('port of ' + name, p.RPC_PORT == port)
    S.ensure('data folder of ' + name, p.get_datadir_extra_name() == folder)
    S.ensure('network id of ' + name, p.get_network_id() == folder)
    for t in TX:
        S.ensure('active C%s of %s' % (t, name),
                 type(getattr(bc, 'C' + t)()) is getattr(ec, 'CElements' + t))
        S.ensure('active CMutable%s of %s' % (t, name),
                 type(getattr(bc, 'CMutable' + t)()) is getattr(ec, 'CElementsMutable' + t))
    S.ensure('active script of ' + name, type(bs.CScript(b'\x51')) is es.CElementsScript)
    S.ensure('active core parameters of ' + name, bc.CoreCoinParams.TAPROOT_LEAF_TAPSCRIPT == 0xc4)
    for k in KINDS:
        data = b'\x01' * SIZES[k]
        a = getattr(bw, k + 'CoinAddress').from_bytes(data)
        S.ensure('active %s address of %s' % (k, name), type(a) is getattr(ew, '%sElements%sAddress' % (k, infix)))
        c = getattr(ew, '%sElements%sConfidentialAddress' % (k, infix))
        S.ensure('%s of %s' % (c.__name__, name),
                 issubclass(c, ew.CElementsLiquidV1Address if infix else ew.CElementsAddress) and
                 not issubclass(c, ew.CElementsAddress if infix else ew.CElementsLiquidV1Address))
    b, d = bw.CCoinKey, getattr(ew, 'CElements%sKey' % infix)
    S.ensure('active key of ' + name, b.base58_prefix == d.base58_prefix == b'\xef')


@contract('C22')
def chains(S):
    """selecting by name, from any other chain"""
    before = ['bitcoin', 'bitcoin/testnet'] + [c[0] for c in CHAINS]
    for f in before:
        for name, port, folder, infix in CHAINS:
            with ChainParams(f):
                with ChainParams(name):
                    check_chain(S, name, port, folder, infix)
                S.ensure('restored', get_current_chain_params().NAME == (
                    'elements' if f == 'elements/elementsregtest' else f))
    select_chain_params('bitcoin')
    S.ensure('bitcoin again', type(bc.CTransaction()) is bc.CBitcoinTransaction)
    select_chain_params('elements')


@contract('C22')
def unknown(S):
    """no other names of the elements family"""
    for n in ('elements/', 'elements/liquid', 'liquidv1', 'elements/liquidv2', 'elementsregtest', 'Elements'):
        err, _ = S.catch(select_chain_params, n)
        S.ensure('refused', isinstance(err, ValueError))
