CORE = 'elementstx/core/__init__.py'
CLS = '''import elementstx
from bitcointx import select_chain_params
select_chain_params("elements")
from elementstx.core import *
from elementstx.core import CElementsMutableTxOutWitness, CElementsTxOutWitness, CElementsTxInWitness, CConfidentialValue, CConfidentialAsset
from bitcointx.core.script import CScriptWitness, CScript
def refused(f, *a):
    try:
        f(*a)
    except Exception:
        return
    raise SystemExit('accepted')
'''
BUGS = [
 dict(id='C02-short-commitment', property='C02',
      edits=[(CORE, """            commitment = bytes([version]) + ser_read(f, read_size-1)
""", """            commitment = bytes([version]) + f.read(read_size-1)
""")],
      needs='a blinded value that is cut off after exactly the size of an explicit one',
      breaks='truncated data is accepted as a confidential value',
      demo=CLS + r"""
refused(CConfidentialValue.deserialize, b'\x08' + b'\x01' * 31)
refused(CConfidentialValue.deserialize, b'\x08' + b'\x01' * 8)
refused(CConfidentialAsset.deserialize, b'')
assert CConfidentialValue.deserialize(b'\x08' + b'\x01' * 32).is_commitment()
"""),
 dict(id='C02-empty-record', property='C02',
      edits=[(CORE, """            if wit.is_null():
                # It's illegal to encode witnesses
""", """            if all(w.is_null() for w in wit.vtxinwit) and not wit.vtxoutwit:
                # It's illegal to encode witnesses
""")],
      needs='a transaction with outputs and a witness record in which all entries are empty',
      breaks='the record is accepted, and gone after serialization',
      demo=CLS + r"""
tx = CElementsTransaction([CElementsTxIn()], [CElementsTxOut(CConfidentialValue(1), CScript(b''))])
b = tx.serialize()
assert CElementsTransaction.deserialize(b).serialize() == b
refused(CElementsTransaction.deserialize, b[:4] + b'\x01' + b[5:] + bytes(4) + bytes(2))
"""),
 dict(id='C02-pegin-issuance', property='C02',
      edits=[(CORE, """            is_pegin = bool(base.prevout.n & OUTPOINT_PEGIN_FLAG)
            # The mode""", """            is_pegin = (base.prevout.n & ~OUTPOINT_INDEX_MASK
                        == OUTPOINT_PEGIN_FLAG)
            # The mode""")],
      needs='an input with both marks, for a peg-in and an issuance',
      breaks='the peg-in mark is lost: the transaction serializes to something else',
      demo=CLS + r"""
iss = CAssetIssuance(nAmount=CConfidentialValue(5))
tx = CElementsTransaction([CElementsTxIn(CElementsOutPoint(b'1' * 32, 3), assetIssuance=iss, is_pegin=True)], [])
b = tx.serialize()
assert CElementsTransaction.deserialize(b).serialize() == b
"""),
 dict(id='C02-odd-prefix', property='C02',
      edits=[(CORE, """        elif version in (cls._prefixA, cls._prefixB):
            read_size = cls._committedSize
""", """        elif version & 0x7f in (cls._prefixA, cls._prefixB):
            # the highest bit is reserved
            version &= 0x7f
            read_size = cls._committedSize
""")],
      needs='a commitment prefix with the highest bit set',
      breaks='an unknown commitment prefix is accepted and rewritten',
      demo=CLS + r"""
assert CConfidentialValue.deserialize(b'\x08' + b'\x01' * 32).serialize() == b'\x08' + b'\x01' * 32
assert CConfidentialAsset.deserialize(b'\x0a' + b'\x01' * 32).serialize() == b'\x0a' + b'\x01' * 32
for p in range(2, 256):
    if p not in (8, 9):
        refused(CConfidentialValue.deserialize, bytes([p]) + b'\x01' * 32)
    if p not in (10, 11):
        refused(CConfidentialAsset.deserialize, bytes([p]) + b'\x01' * 32)
"""),
]
