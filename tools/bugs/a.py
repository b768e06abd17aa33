CORE = 'elementstx/core/__init__.py'
SCRIPT = 'elementstx/core/script.py'
TXLIB = '''
import hashlib, struct, elementstx
from bitcointx import select_chain_params
select_chain_params('elements')
from bitcointx.core import Uint256
from bitcointx.core.script import CScriptWitness
from elementstx.core import *
from elementstx.core import CElementsTxOutWitness, CElementsTxInWitness
from elementstx.core.script import *
V, A, N = CConfidentialValue, CConfidentialAsset, CConfidentialNonce
def dsha(b): return hashlib.sha256(hashlib.sha256(b).digest()).digest()
def txout(v=1000, script=b'\\x51', asset=7):
    return CElementsTxOut(V(v), CElementsScript(script), A(CAsset(bytes([asset]) * 32)))
def txin(k=1, n=0, **kw):
    return CElementsTxIn(CElementsOutPoint(bytes([k]) * 32, n), **kw)
'''
BUGS = [
 dict(id='C01-outwit-null', property='C01',
      edits=[(CORE, "return not len(self.surjectionproof) and not len(self.rangeproof)",
                    "return not len(self.surjectionproof)")],
      needs='a transaction whose only witness data is a range proof of an output without surjection proof',
      breaks='the witness is silently dropped from the serialization',
      demo=TXLIB + '''
tx = CElementsTransaction([txin()], [txout()], 0, 2,
                          CElementsTxWitness([CElementsTxInWitness()], [CElementsTxOutWitness(b'', b'\\x01\\x02')]))
tx2 = CElementsTransaction.deserialize(tx.serialize())
assert tx2.wit.vtxoutwit and tx2.wit.vtxoutwit[0].rangeproof == b'\\x01\\x02', 'range proof lost'
'''),
 dict(id='C01-pegin-issuance', property='C01',
      edits=[(CORE, "            is_pegin = bool(base.prevout.n & OUTPOINT_PEGIN_FLAG)",
                    "            is_pegin = not has_asset_issuance and bool(base.prevout.n & OUTPOINT_PEGIN_FLAG)")],
      needs='an input that is a peg-in and has an issuance',
      breaks='the peg-in mark is lost when such a transaction is parsed',
      demo=TXLIB + '''
tx = CElementsTransaction([txin(is_pegin=True, assetIssuance=CAssetIssuance(nAmount=V(5)))], [txout()])
tx2 = CElementsTransaction.deserialize(tx.serialize())
assert tx2.vin[0].is_pegin, 'peg-in mark lost'
assert tx2.serialize() == tx.serialize()
'''),
 dict(id='C03-count', property='C03',
      edits=[(CORE, "                    numIssuances += 1\n                if not txin.assetIssuance.nInflationKeys.is_null():",
                    "                    numIssuances += 1\n                elif not txin.assetIssuance.nInflationKeys.is_null():")],
      needs='an issuance of both an asset and reissuance tokens',
      breaks='such an issuance is counted once instead of twice',
      demo=TXLIB + '''
tx = CElementsTransaction([txin(assetIssuance=CAssetIssuance(nAmount=V(5), nInflationKeys=V(1)))], [txout()])
assert tx.num_issuances == 2, tx.num_issuances
'''),
 dict(id='C04-basetype', property='C04',
      edits=[(SCRIPT, "    elif ((hashtype & 0x1f) == SIGHASH_SINGLE and inIdx < len(txTo.vout)):",
                      "    elif ((hashtype & 0x1f) == SIGHASH_SINGLE and inIdx <= len(txTo.vout)):")],
      needs='SIGHASH_SINGLE for the first input that has no matching output',
      breaks='the signature hash cannot be computed (IndexError)',
      demo=TXLIB + '''
from bitcointx.core.script import SIGHASH_SINGLE, SIGVERSION_WITNESS_V0
tx = CElementsTransaction([txin(1), txin(2)], [txout()])
s = CElementsScript(b'\\x51')
h, err = RawElementsSignatureHash(s, tx, 1, SIGHASH_SINGLE, amount=V(1), sigversion=SIGVERSION_WITNESS_V0)
pre = struct.pack('<i', tx.nVersion) + dsha(b''.join(i.prevout.hash + struct.pack('<I', i.prevout.n) for i in tx.vin)) \\
    + bytes(32) + dsha(bytes(2)) + bytes([2] * 32) + bytes(4) + b'\\x01\\x51' + V(1).commitment + b'\\xff' * 4 \\
    + bytes(32) + bytes(4) + struct.pack('<i', 3)
assert h == dsha(pre)
'''),
 dict(id='C04-mask', property='C04',
      edits=[(SCRIPT, "    if ((hashtype & 0x1f) != SIGHASH_SINGLE and (hashtype & 0x1f) != SIGHASH_NONE):",
                      "    if ((hashtype & 0x1f) != SIGHASH_SINGLE and (hashtype & 0x0f) != SIGHASH_NONE):")],
      needs='a hash type with bit 4 set and low bits 2 (0x12), which is treated as SIGHASH_ALL',
      breaks='the outputs are not committed to for this hash type',
      demo=TXLIB + '''
from bitcointx.core.script import SIGVERSION_WITNESS_V0
s = CElementsScript(b'\\x51')
hh = [RawElementsSignatureHash(s, CElementsTransaction([txin(1)], [txout(v)]), 0, 0x12, amount=V(1),
                               sigversion=SIGVERSION_WITNESS_V0)[0] for v in (1, 2)]
assert hh[0] != hh[1], 'outputs not committed to'
'''),
 dict(id='C05-issuance-bits', property='C05',
      edits=[(CORE, "                if has_asset_issuance:\n                    n |= OUTPOINT_ISSUANCE_FLAG\n                if self.is_pegin:\n                    n |= OUTPOINT_PEGIN_FLAG",
                    "                if has_asset_issuance:\n                    n |= OUTPOINT_ISSUANCE_FLAG\n            if self.is_pegin and not (for_sighash and has_asset_issuance):\n                n |= OUTPOINT_PEGIN_FLAG")],
      needs='the legacy signature hash of a transaction with a peg-in input without issuance',
      breaks='the peg-in bit enters the legacy signature hash',
      demo=TXLIB + '''
s = CElementsScript(b'\\x51')
hh = [s.sighash(CElementsTransaction([txin(1), txin(2, is_pegin=p)], [txout()]), 0, 1) for p in (False, True)]
assert hh[0] == hh[1], 'peg-in bit in the signature hash'
'''),
 dict(id='C06-flags', property='C06',
      edits=[(SCRIPT, "        if txin.is_pegin:\n            opf |= elementstx.core.OUTPOINT_PEGIN_FLAG",
                      "        elif txin.is_pegin:\n            opf |= elementstx.core.OUTPOINT_PEGIN_FLAG")],
      needs='a taproot input that is a peg-in and has an issuance',
      breaks='the outpoint flags in the signature hash lack the peg-in bit',
      demo=TXLIB + '''
hh = [ElementsSignatureHashSchnorr(
        CElementsTransaction([txin(1, is_pegin=p, assetIssuance=CAssetIssuance(nAmount=V(5)))], [txout()]),
        0, [txout()], genesis_block_hash=bytes(32)) for p in (False, True)]
assert hh[0] != hh[1], 'peg-in mark not committed to'
'''),
 dict(id='C06-codesep', property='C06',
      edits=[(SCRIPT, "        if codeseparator_pos is None:", "        if not codeseparator_pos:")],
      needs='tapscript spend with OP_CODESEPARATOR at position 0',
      breaks='the signature hash is refused for code separator position 0',
      demo=TXLIB + '''
tx = CElementsTransaction([txin(1)], [txout()])
hh = [CElementsScript(b'\\xab\\x51').sighash_schnorr(tx, 0, [txout()], codeseparator_pos=p, genesis_block_hash=bytes(32))
      for p in (-1, 0, 1)]
assert len(set(hh)) == 3
'''),
 dict(id='C07-negative', property='C07',
      edits=[(CORE, 'return int(struct.unpack(b">q", self.commitment[1:])[0])', 'return int(struct.unpack(b">Q", self.commitment[1:])[0])')],
      needs='a negative amount',
      breaks='the amount read back from the field is not the one put in',
      demo=TXLIB + '''
for n in (0, 1, -1, 2**63 - 1, -2**63):
    assert CConfidentialValue.from_amount(n).to_amount() == n, n
'''),
 dict(id='C08-length', property='C08',
      edits=[(CORE, """        entropy = entropy.data
    if len(entropy) != 32:
        raise ValueError('entropy must be 32 bytes in length')
    if is_confidential:""", """        entropy = entropy.data
    if len(entropy) % 32 != 0:
        raise ValueError('entropy must be 32 bytes in length')
    if is_confidential:""")],
      needs='an argument of 64 (or 0) bytes',
      breaks='arguments of a wrong length are not rejected',
      demo=TXLIB + '''
for n in (0, 31, 33, 64):
    try:
        calculate_reissuance_token(bytes(n), False)
    except (ValueError, AssertionError):
        pass
    else:
        raise SystemExit('%d bytes accepted' % n)
'''),
 dict(id='C17-short', property='C17',
      edits=[(SCRIPT, "            if len(op_data) == 0:\n                return None", "            if len(op_data) <= 1:\n                return None")],
      needs='a peg-out to a script of one byte',
      breaks='such a peg-out is not recognised',
      demo=TXLIB + '''
s = CElementsScript(b'\\x6a\\x20' + bytes(32) + b'\\x01\\x51')
assert s.is_pegout() and s.get_pegout_data() == (bytes(32), b'\\x51')
'''),
 dict(id='C18-long', property='C18',
      edits=[(SCRIPT, "            blinding_derivation_key, self)", "            blinding_derivation_key, self[:520])")],
      needs='a script of more than 520 bytes',
      breaks='all scripts with the same first 520 bytes get the same blinding key',
      demo=TXLIB + '''
from bitcointx.core.key import CKey
k = CKey(b'\\x07' * 32)
for n in (1, 100, 520, 521, 9000):
    s = CElementsScript(b'\\x51' * n)
    assert s.derive_blinding_key(k) == derive_blinding_key(k, s), n
'''),
 dict(id='C20-blank', property='C20',
      edits=[(CORE, "        if bool(err):\n            return False", "        if bool(err.strip()):\n            return False")],
      needs='a failure whose error text consists of white space',
      breaks='a failure with a non-empty error text is reported as ok',
      demo=TXLIB + '''
for t in ('x', ' ', '\\n'):
    assert not BlindingFailure(t).ok, repr(t)
'''),
 dict(id='C21-count', property='C21',
      edits=[('elementstx/core/secp256k1.py', "    assert len(buf) // expected_len == len(data_list)", "    assert len(buf) // expected_len >= len(data_list)")],
      needs='an array element of twice the expected size',
      breaks='the array passed to the library holds another number of elements than stated',
      demo='''
from elementstx.core.secp256k1 import build_aligned_data_array
assert build_aligned_data_array([bytes(32)] * 3, 32) == bytes(96)
for l in ([bytes(31)], [bytes(31), bytes(33), bytes(31)], [bytes(64)], [bytes(32), bytes(64)]):
    try:
        build_aligned_data_array(l, 32)
    except AssertionError:
        pass
    else:
        raise SystemExit('accepted %r' % [len(x) for x in l])
'''),
 dict(id='C21-width', property='C21',
      edits=[('elementstx/core/secp256k1.py', "        ctypes.POINTER(ctypes.c_uint64),  # uint64_t *value_out", "        ctypes.POINTER(ctypes.c_int64),  # uint64_t *value_out")],
      needs='the zkp library, unblinding',
      breaks='the declared type of the argument of secp256k1_rangeproof_rewind is not that of the prototype (every call fails with ArgumentError)',
      demo='''
import ctypes
from elementstx.core.secp256k1 import _set_zkp_func_types
class F: pass
class L:
    def __getattr__(self, n):
        f = F(); setattr(self, n, f); return f
l = L(); _set_zkp_func_types(l)
P = ctypes.POINTER
assert l.secp256k1_rangeproof_rewind.argtypes == [ctypes.c_void_p, ctypes.c_char_p, P(ctypes.c_uint64), ctypes.c_char_p,
    P(ctypes.c_size_t), ctypes.c_char_p, P(ctypes.c_uint64), P(ctypes.c_uint64), ctypes.c_char_p, ctypes.c_char_p,
    ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p]
'''),
 dict(id='C22-params', property='C22',
      edits=[('elementstx/__init__.py', "class ElementsLiquidV1Params(ElementsParams, name='elements/liquidv1'):\n    RPC_PORT = 7042\n    WALLET_DISPATCHER = elementstx.wallet.WalletElementsLiquidV1ClassDispatcher\n",
                                        "class ElementsLiquidV1Params(ElementsParams, name='elements/liquidv1'):\n    RPC_PORT = 7041\n    WALLET_DISPATCHER = elementstx.wallet.WalletElementsLiquidV1ClassDispatcher\n")],
      needs='the parameters of the liquid chain',
      breaks='the default RPC port of liquidv1 is that of elements',
      demo='''
import elementstx, bitcointx
bitcointx.select_chain_params('elements/liquidv1')
assert bitcointx.get_current_chain_params().RPC_PORT == 7042
'''),
]
