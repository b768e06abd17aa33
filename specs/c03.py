"""C03 Transaction id commits to everything but the witness"""
from pv.contract import contract
from .lib import *
from . import elements

elements.serializer_contracts('C03')


@contract('C03')
def txid(S):
    """double SHA-256 of the encoding without witness, whatever the witness"""
    tx = mktx(S)
    S.ensure_eq('txid', tx.GetTxid(), dsha(enc_tx(S, tx, False)))
    S.ensure_eq('again', tx.GetTxid(), dsha(enc_tx(S, tx, False)))


@contract('C03')
def full_hash(S):
    """double SHA-256 of the complete encoding"""
    tx = mktx(S)
    h = tx.GetHash()
    if null_wit(S, tx.wit):
        S.ensure_eq('hash without witness', h, dsha(enc_tx(S, tx, False)))
    else:
        S.ensure_eq('hash with witness', h, dsha(enc_tx(S, tx, True)))


@contract('C03')
def issuances(S):
    """one for each amount and one for each amount of tokens that is not null"""
    tx = mktx(S, wit='none')
    n = sum([S.ite(len(x.assetIssuance.nAmount.commitment) == 0, 0, 1) +
             S.ite(len(x.assetIssuance.nInflationKeys.commitment) == 0, 0, 1) for x in tx.vin])
    S.ensure_eq('number', tx.num_issuances, n)
