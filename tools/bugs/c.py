WALLET = 'elementstx/wallet.py'
ADDR = r'''
import elementstx
from bitcointx import ChainParams, select_chain_params
select_chain_params('elements')
import elementstx.wallet as w
from bitcointx.core.key import CPubKey, CKey
pub = CKey(b'\x01' * 32).pub
'''
LA = 'elementstx/liquid_addr.py'
BLECH = 'import elementstx.liquid_addr as L\n'
CORE = 'elementstx/core/__init__.py'
CLS = 'import elementstx\nfrom bitcointx import select_chain_params\nselect_chain_params("elements")\nfrom elementstx.core import *\nfrom elementstx.core import CElementsMutableTxOutWitness, CElementsTxOutWitness, CElementsTxInWitness\nfrom bitcointx.core.script import CScriptWitness\n'
BUGS = [
 dict(id='C10-taproot', property='C10',
      edits=[(WALLET, '''class P2TRElementsLiquidV1ConfidentialAddress(CBlech32ElementsLiquidV1ConfidentialAddress,
                                              P2TRCoinConfidentialAddress):
    _unconfidential_address_class = P2TRElementsLiquidV1Address
''', '''class P2TRElementsLiquidV1ConfidentialAddress(CBlech32ElementsLiquidV1ConfidentialAddress,
                                              P2TRCoinConfidentialAddress):
    _unconfidential_address_class = P2WSHElementsLiquidV1Address
''')],
      needs='a confidential taproot address on Liquid v1',
      breaks='the unconfidential form is a P2WSH address, the script is that of P2WSH',
      demo=ADDR + r'''
for chain, n in ('elements', 'Elements'), ('elements/liquidv1', 'ElementsLiquidV1'):
    with ChainParams(chain):
        a = getattr(w, 'P2TR%sAddress' % n).from_bytes(bytes(range(32)))
        x = w.P2TRCoinConfidentialAddress.from_unconfidential(a, pub)
        assert x.to_unconfidential() == a and type(x.to_unconfidential()) is type(a)
        assert x.to_scriptPubKey() == a.to_scriptPubKey()
'''),
 dict(id='C10-key', property='C10',
      edits=[(WALLET, '''        if not isinstance(blinding_pubkey, CPubKey):
            blinding_pubkey = CPubKey(blinding_pubkey)
        if not blinding_pubkey.is_fullyvalid():
            raise ValueError('invalid blinding pubkey')
''', '''        if not isinstance(blinding_pubkey, CPubKey):
            blinding_pubkey = CPubKey(blinding_pubkey)
            if not blinding_pubkey.is_fullyvalid():
                raise ValueError('invalid blinding pubkey')
        elif not blinding_pubkey.is_nonempty():
            raise ValueError('invalid blinding pubkey')
''')],
      needs='a CPubKey that is not a point of the curve',
      breaks='an address with an invalid blinding key',
      demo=ADDR + r'''
a = w.P2PKHElementsAddress.from_bytes(bytes(20))
for k in CPubKey(b'\x02' + b'\xff' * 32), CPubKey(b'\x02' + b'\x05' * 31), CPubKey(b''), b'\x02' + b'\xff' * 32:
    try:
        w.CCoinConfidentialAddress.from_unconfidential(a, k)
    except (ValueError, TypeError):
        continue
    assert 0, k
assert w.CCoinConfidentialAddress.from_unconfidential(a, pub).blinding_pubkey == pub
'''),
 dict(id='C19-minimal', property='C19',
      edits=[(WALLET, """        txo = CElementsTxOut(scriptPubKey=inst.to_scriptPubKey(),
                             nValue=CConfidentialValue(dummy_commitment),
                             nAsset=CConfidentialAsset(dummy_commitment),
                             nNonce=CConfidentialNonce(dummy_commitment))
        f = BytesIO()
        txo.stream_serialize(f)
        return len(f.getbuffer())
""", """        # the script is a few opcodes and the data it pays to
        witver = getattr(inst, 'blech32_witness_version', None)
        overhead = ({P2PKHCoinAddress: 5, P2SHCoinAddress: 3}[P2PKHCoinAddress]
                    if isinstance(inst, P2PKHCoinAddress) else 3)
        if witver == 0:
            overhead = 2
        txo = CElementsTxOut(scriptPubKey=CScript(b'\\x00'*(overhead + len(inst) - 33)),
                             nValue=CConfidentialValue(dummy_commitment),
                             nAsset=CConfidentialAsset(dummy_commitment),
                             nNonce=CConfidentialNonce(dummy_commitment))
        f = BytesIO()
        txo.stream_serialize(f)
        return len(f.getbuffer())
""")],
      needs='a taproot address (witness version 1)',
      breaks='the size is off by one',
      demo=ADDR + r'''
import io
from elementstx.core import *
def size(x):
    c = bytes(33)
    f = io.BytesIO()
    CElementsTxOut(nValue=CConfidentialValue(c), nAsset=CConfidentialAsset(c), nNonce=CConfidentialNonce(c),
                   scriptPubKey=x.to_scriptPubKey()).stream_serialize(f)
    return len(f.getvalue())
for a in 'P2PKH', 'P2SH', 'P2WPKH', 'P2WSH', 'P2TR':
    for n in 'Elements', 'ElementsLiquidV1':
        with ChainParams('elements' if n == 'Elements' else 'elements/liquidv1'):
            c = getattr(w, a + n + 'ConfidentialAddress')
            assert c.get_output_size() == size(c.from_bytes(bytes(c._data_length))), c
'''),
 dict(id='C11-future', property='C11',
      edits=[('elementstx/blech32.py', """            elif len(data) == candidate._data_length and witver == wv:
                return candidate.from_bytes(data, witver=witver)
""", """            elif len(data) == candidate._data_length and \\
                    (witver == wv or 0 < wv < witver):
                return candidate.from_bytes(data)
""")],
      needs='a blech32 string with witness version 2 or more and 65 bytes of data',
      breaks='it is taken for a taproot address',
      demo=ADDR + r"""
from elementstx.liquid_addr import encode
from bitcointx.wallet import CCoinAddress
for x, hrp in ('elements', 'el'), ('elements/liquidv1', 'lq'):
    with ChainParams(x):
        for v in range(17):
            for n in 53, 65:
                s = encode(hrp, v, bytes(n))
                try:
                    a = CCoinAddress(s)
                except Exception:
                    assert v > 1 or (v, n) == (1, 53)
                    continue
                assert str(a) == s, (v, n, a)
"""),
 dict(id='C11-network', property='C11',
      edits=[('elementstx/blech32.py', """        witver, data = decode(cls.blech32_hrp, s)
        if witver is None or data is None:
            assert witver is None and data is None
            raise Blech32Error""", """        witver, data = decode(cls.blech32_hrp, s)
        if witver is None:
            # 'ert' is in use for unconfidential addresses, some software
            # uses it as a prefix of confidential ones
            witver, data = decode('ert', s)
        if witver is None or data is None:
            assert witver is None and data is None
            raise Blech32Error""")],
      needs='a blech32 string with the prefix ert',
      breaks='it is accepted on both chains',
      demo=ADDR + r"""
from elementstx.liquid_addr import encode
from bitcointx.wallet import CCoinAddress
for x in 'elements', 'elements/liquidv1':
    with ChainParams(x):
        for hrp in 'ert', 'el', 'ex', 'lq', 'bc', 'tb':
            for v, n in (0, 53), (0, 65), (1, 65):
                s = encode(hrp, v, bytes(n))
                try:
                    a = CCoinAddress(s)
                except Exception:
                    continue
                assert str(a) == s, (s, a)
"""),

 dict(id='C09-padding', property='C09',
      edits=[(LA, "    elif bits >= frombits or ((acc << (tobits - bits)) & maxv):\n", "    elif bits >= frombits or (acc & (maxv >> tobits - bits) and not ret[-1]):\n")],
      needs='bits after the end of the program that are not zero, with a correct checksum, and a last byte that is not zero',
      breaks='a second string is accepted for the same program',
      demo=BLECH + r"""
for n in 53, 65:
    for x in 0, 7, 255:
        d = L.convertbits(bytes([x]) * n, 8, 5)
        for j in range(8):
            for v, e in (0, L.Encoding.BECH32), (1, L.Encoding.BECH32M):
                s = L.blech32_encode(e, 'el', [v] + d[:-1] + [d[-1] ^ j])
                r = L.decode('el', s)
                assert r == (None, None) or L.encode('el', *r) == s, (n, v, j)
"""),
 dict(id='C09-variant', property='C09',
      edits=[(LA, "            (data[0] != 0 and encoding != Encoding.BECH32M):\n", "            (data[0] != 0 and data[0] < 16 and encoding != Encoding.BECH32M):\n")],
      needs='version 16 with the checksum of version 0',
      breaks='it is accepted',
      demo=BLECH + r"""
for v in range(17):
    for n in 2, 53, 65:
        for e in L.Encoding:
            s = L.blech32_encode(e, 'el', [v] + L.convertbits(bytes(range(n)), 8, 5))
            r = L.decode('el', s)
            assert r == (None, None) or L.encode('el', *r) == s, (n, v, e)
"""),
 dict(id='C09-case', property='C09',
      edits=[(LA, "            (bech.lower() != bech and bech.upper() != bech)):\n", "            (bech.lower() != bech and bech[:-12].upper() != bech[:-12])):\n")],
      needs='an upper case string with lower case letters in the checksum',
      breaks='it is accepted',
      demo=BLECH + r"""
for v, n in (0, 53), (0, 65), (1, 65):
    s = L.encode('el', v, bytes(range(n)))
    for k in range(1, len(s)):
        t = s[:k].upper() + s[k:]
        assert t in (s, s.upper()) or L.decode('el', t) == (None, None), t
"""),
 dict(id='C09-empty-group', property='C09',
      edits=[(LA, "    elif bits >= frombits or ((acc", "    elif bits > frombits or ((acc")],
      needs='a data part with a superfluous zero symbol: a program whose length is a multiple of 5',
      breaks='a second string is accepted for the same program (sizes 65 and 70)',
      demo=BLECH + r"""
for v, n in (0, 53), (0, 65), (1, 65), (1, 70), (2, 2):
    for k in 1, 2:
        s = L.blech32_encode(L.Encoding.BECH32M if v else L.Encoding.BECH32, 'el', [v] + L.convertbits(bytes(range(n)), 8, 5) + [0] * k)
        r = L.decode('el', s)
        assert r == (None, None) or L.encode('el', *r) == s, (n, v, k)
"""),

 dict(id='C16-reuse-outpoint', property='C16',
      edits=[(CORE, """            COutPoint.from_outpoint(txin.prevout),
            txin.scriptSig, txin.nSequence, txin.assetIssuance, txin.is_pegin)
""", """            txin.prevout if txin.prevout.is_null() else COutPoint.from_outpoint(txin.prevout),
            txin.scriptSig, txin.nSequence, txin.assetIssuance, txin.is_pegin)
"""),
             (CORE, """        super(CElementsTxIn, self).__init__(prevout, scriptSig, nSequence)
        ensure_isinstance(self.scriptSig, CElementsScript,
""", """        super(CElementsTxIn, self).__init__(prevout, scriptSig, nSequence)
        if prevout is not None and prevout.is_null() and prevout.is_mutable() == self.is_mutable():
            # coinbase: nothing to convert
            object.__setattr__(self, 'prevout', prevout)
        ensure_isinstance(self.scriptSig, CElementsScript,
""")],
      needs='a mutable copy of a mutable input whose outpoint is null, then a change of the outpoint',
      breaks='the copy shares the outpoint with its source',
      demo=CLS + r"""
for o in CElementsMutableOutPoint(b'\x01' * 32, 3), CElementsMutableOutPoint():
    a = CElementsMutableTxIn(o)
    b = a.clone()
    b.prevout.n = 9
    assert a.prevout.n != 9 and o.n != 9
"""),
 dict(id='C16-null-witness', property='C16',
      edits=[(CORE, """        return cls._from_instance(witness, witness.vtxinwit, witness.vtxoutwit)
""", """        if witness.is_null() and isinstance(witness, cls):
            # nothing to copy
            return witness
        return cls._from_instance(witness, witness.vtxinwit, witness.vtxoutwit)
""")],
      needs='a copy of a mutable witness whose records are all empty, then a change',
      breaks='the copy (or the immutable form) is the source itself',
      demo=CLS + r"""
w = CElementsMutableTxWitness([CElementsTxInWitness()], [CElementsTxOutWitness()])
c = w.clone()
i = w.to_immutable()
w.vtxoutwit[0].rangeproof = b'1'
assert c.is_null() and i.is_null() and not w.is_null()
"""),
 dict(id='C16-commitment-alias', property='C16',
      edits=[(CORE, """        object.__setattr__(self, 'commitment', bytes(commitment))
""", """        if len(commitment) == self._explicitSize:
            # explicit values are small, and are always copied
            commitment = bytes(commitment)
        object.__setattr__(self, 'commitment', commitment)
""")],
      needs='a blinded commitment given as bytearray, which is changed later',
      breaks='the immutable field changes',
      demo=CLS + r"""
for c, n in (CConfidentialValue, 9), (CConfidentialValue, 33), (CConfidentialAsset, 33), (CConfidentialNonce, 33):
    b = bytearray([8 + (n == 9) * -7] + [1] * (n - 1))
    o = c(b)
    k = bytes(b)
    b[3] ^= 1
    assert o.commitment == k and type(o.commitment) is bytes
"""),
 dict(id='C16-pegin-witness', property='C16',
      edits=[(CORE, """            pegin_witness=txin_witness.pegin_witness)
""", """            pegin_witness=(txin_witness.pegin_witness
                           if len(txin_witness.pegin_witness) > 1
                           else CScriptWitness()))
""")],
      needs='conversion of an input witness with a peg-in witness of one item',
      breaks='the item is lost',
      demo=CLS + r"""
for k in range(4):
    w = CElementsTxInWitness(CScriptWitness([b'a'] * k), b'', b'', CScriptWitness([b'x'] * k))
    assert w.to_mutable().to_immutable().serialize() == w.to_mutable().clone().serialize() == w.serialize()
"""),
]
