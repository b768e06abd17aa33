"""C01 Transaction serialization round trip"""
from pv.contract import contract
from .lib import *
from . import elements

elements.callee_contracts('C01')
contract('C01')(elements.txin_high_bits)


@contract('C01')
def nowit_roundtrip(S):
    """any transaction without witness entries"""
    tx = mktx(S, wit='none')
    b = tx.serialize()
    S.ensure_eq('encoding', b, enc_tx(S, tx, False))
    S.ensure_eq('include_witness=False', tx.serialize(include_witness=False), b)
    tx2 = type(tx).deserialize(b)
    eq_tx(S, 'parsed', tx2, tx, wit=False)
    S.ensure('no witness', tx2.wit.is_null())


@contract('C01')
def encoding(S):
    """any transaction: the encoding is that of the format"""
    tx = mktx(S)
    b = tx.serialize()
    if null_wit(S, tx.wit):
        S.ensure_eq('encoding without witness', b, enc_tx(S, tx, False))
    else:
        S.ensure_eq('encoding with witness', b, enc_tx(S, tx, True))


@contract('C01')
def roundtrip(S):
    """any transaction: parses back to the same fields"""
    tx = mktx(S)
    if null_wit(S, tx.wit):
        return
    b = tx.serialize()
    tx2 = type(tx).deserialize(b)
    eq_tx(S, 'parsed', tx2, tx, wit=False)
    S.ensure_eq('again', tx2.serialize(), b)
