From dff9e6bc1a7aeedee282f929f6a4979134234b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:25 +0000
Subject: [PATCH 01/21] fix: segwit v0 sighash failed for nLockTime above
 0x7fffffff

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index b94d905..4202173 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -183,7 +183,7 @@ def RawElementsSignatureHash(
     if not txTo.vin[inIdx].assetIssuance.is_null():
         txTo.vin[inIdx].assetIssuance.stream_serialize(f)
     f.write(hashOutputs)
-    f.write(struct.pack("<i", txTo.nLockTime))
+    f.write(struct.pack("<I", txTo.nLockTime))
     f.write(struct.pack("<i", hashtype))
 
     hash = Hash(f.getvalue())
-- 
2.43.0


From b3c6194da43b595ca328a22accdbbb079e1b3cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:25 +0000
Subject: [PATCH 02/21] fix: OP_DETERMINISTICRANDOM is 0xc0, 0xc1 is
 OP_CHECKSIGFROMSTACK

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 4202173..9c31512 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -43,7 +43,7 @@ import elementstx.core
 # to have CBitcoinScriptOp and CElementsScriptOp, but
 # this is too heavy for this small issue. These opcodes are useable as-is,
 # the only proble is that they will be shown as UNKNOWN for repr(script).
-OP_DETERMINISTICRANDOM = CScriptOp(0xc1)
+OP_DETERMINISTICRANDOM = CScriptOp(0xc0)
 OP_CHECKSIGFROMSTACK = CScriptOp(0xc1)
 OP_CHECKSIGFROMSTACKVERIFY = CScriptOp(0xc2)
 
-- 
2.43.0


From 68ba08110c732732dd52458ce07980ab020f8659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:25 +0000
Subject: [PATCH 03/21] fix: schnorr sighash: length prefixes for script and
 rangeproofs, none for annex hash

---
 elementstx/core/script.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 9c31512..7832c25 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -338,7 +338,7 @@ def ElementsSignatureHashSchnorr(
         f.write(txTo.vin[inIdx].prevout.serialize())
         f.write(spent_outputs[inIdx].nAsset.serialize())
         f.write(spent_outputs[inIdx].nValue.serialize())
-        f.write(spent_outputs[inIdx].scriptPubKey)
+        f.write(BytesSerializer.serialize(spent_outputs[inIdx].scriptPubKey))
         f.write(struct.pack('<I', txTo.vin[inIdx].nSequence))
         if txTo.vin[inIdx].assetIssuance.is_null():
             f.write(b'\x00')
@@ -348,15 +348,15 @@ def ElementsSignatureHashSchnorr(
             inwit = txTo.wit.vtxinwit[inIdx]
             f.write(
                 hashlib.sha256(
-                    inwit.issuanceAmountRangeproof
-                    + inwit.inflationKeysRangeproof
+                    BytesSerializer.serialize(inwit.issuanceAmountRangeproof)
+                    + BytesSerializer.serialize(inwit.inflationKeysRangeproof)
                 ).digest()
             )
     else:
         f.write(struct.pack('<I', inIdx))
 
     if annex_hash is not None:
-        BytesSerializer.stream_serialize(annex_hash, f)
+        f.write(annex_hash)
 
     if output_type == SIGHASH_SINGLE:
         outIdx = inIdx
-- 
2.43.0


From bc95ef778af51c11c2f9617db957fe657dfa216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:25 +0000
Subject: [PATCH 04/21] fix: schnorr sighash: SIGHASH_SINGLE without matching
 output raised IndexError

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 7832c25..d2f1096 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -360,7 +360,7 @@ def ElementsSignatureHashSchnorr(
 
     if output_type == SIGHASH_SINGLE:
         outIdx = inIdx
-        if outIdx > len(txTo.vout):
+        if outIdx >= len(txTo.vout):
             raise ValueError(f'outIdx {outIdx} out of range ({len(txTo.vout)})')
         f.write(hashlib.sha256(txTo.vout[outIdx].serialize()).digest())
         f.write(hashlib.sha256(txTo.wit.vtxoutwit[outIdx].serialize()).digest())
-- 
2.43.0


From 1a87932277546f2dc5d8d099402af1ee065f9aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:25 +0000
Subject: [PATCH 05/21] fix: schnorr sighash: IndexError for transactions
 without witness entries

---
 elementstx/core/script.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index d2f1096..9cf4e2d 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -272,6 +272,17 @@ def ElementsSignatureHashSchnorr(
 
         return bytes([opf >> 24])
 
+    # Witnesses that are absent are the same as empty witnesses
+    def get_inwit(idx: int) -> 'elementstx.core.CElementsTxInWitness':
+        if idx < len(txTo.wit.vtxinwit):
+            return txTo.wit.vtxinwit[idx]
+        return elementstx.core.CElementsTxInWitness()
+
+    def get_outwit(idx: int) -> 'elementstx.core.CElementsTxOutWitness':
+        if idx < len(txTo.wit.vtxoutwit):
+            return txTo.wit.vtxoutwit[idx]
+        return elementstx.core.CElementsTxOutWitness()
+
     if input_type != SIGHASH_ANYONECANPAY:
         outpoints_flag_hashobj = hashlib.sha256()
         assets_amounts_hashobj = hashlib.sha256()
@@ -295,7 +306,7 @@ def ElementsSignatureHashSchnorr(
             else:
                 issuances_hashobj.update(txin.assetIssuance.serialize())
 
-            inwit = txTo.wit.vtxinwit[inp_i]
+            inwit = get_inwit(inp_i)
             issuance_rangeproof_hashobj.update(
                 BytesSerializer.serialize(inwit.issuanceAmountRangeproof))
             issuance_rangeproof_hashobj.update(
@@ -321,7 +332,7 @@ def ElementsSignatureHashSchnorr(
         for outp_i, txout in enumerate(txTo.vout):
             outputs_hashobj.update(txout.serialize())
             output_witnesses_hashobj.update(
-                txTo.wit.vtxoutwit[outp_i].serialize())
+                get_outwit(outp_i).serialize())
 
         f.write(outputs_hashobj.digest())
         f.write(output_witnesses_hashobj.digest())
@@ -345,7 +356,7 @@ def ElementsSignatureHashSchnorr(
         else:
             f.write(txTo.vin[inIdx].assetIssuance.serialize())
 
-            inwit = txTo.wit.vtxinwit[inIdx]
+            inwit = get_inwit(inIdx)
             f.write(
                 hashlib.sha256(
                     BytesSerializer.serialize(inwit.issuanceAmountRangeproof)
@@ -363,7 +374,7 @@ def ElementsSignatureHashSchnorr(
         if outIdx >= len(txTo.vout):
             raise ValueError(f'outIdx {outIdx} out of range ({len(txTo.vout)})')
         f.write(hashlib.sha256(txTo.vout[outIdx].serialize()).digest())
-        f.write(hashlib.sha256(txTo.wit.vtxoutwit[outIdx].serialize()).digest())
+        f.write(hashlib.sha256(get_outwit(outIdx).serialize()).digest())
 
     if sigversion == SIGVERSION_TAPSCRIPT:
         if tapleaf_hash is None:
-- 
2.43.0


From dcdd2808c85c37f57bd1c84be6b8f5a71d6d50ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:25 +0000
Subject: [PATCH 06/21] fix: CElementsTxOutWitness kept a reference to a
 mutable bytearray

---
 elementstx/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index d5b5d6f..0b7b052 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -551,8 +551,8 @@ class CElementsTxOutWitness(CTxOutWitness, CoreElementsClass):
                  rangeproof: Union[bytes, bytearray] = b''):
         ensure_isinstance(surjectionproof, (bytes, bytearray), 'surjectionproof')
         ensure_isinstance(rangeproof, (bytes, bytearray), 'rangeproof')
-        object.__setattr__(self, 'surjectionproof', surjectionproof)
-        object.__setattr__(self, 'rangeproof', rangeproof)
+        object.__setattr__(self, 'surjectionproof', bytes(surjectionproof))
+        object.__setattr__(self, 'rangeproof', bytes(rangeproof))
 
     @no_bool_use_as_property
     def is_null(self) -> bool:
-- 
2.43.0


From c40cd01d56247f2a4c60ccab5a559c0a2309eba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:25 +0000
Subject: [PATCH 07/21] fix: reject inputs with an issuance flag and a null
 issuance

---
 elementstx/core/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 0b7b052..04c2815 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -856,6 +856,8 @@ class CElementsTxIn(ReprOrStrMixin, CTxIn, CoreElementsClass):
 
         if has_asset_issuance:
             assetIssuance = CAssetIssuance.stream_deserialize(f)
+            if assetIssuance.is_null():
+                raise TxInSerializationError('Superfluous asset issuance record')
         else:
             assetIssuance = CAssetIssuance()
 
-- 
2.43.0


From 6c80e8243d3ccf7e1154b1d66dd1931cea6fc02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:25 +0000
Subject: [PATCH 08/21] fix: reject transactions with unknown optional data
 flags

---
 elementstx/core/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 04c2815..681434d 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1103,6 +1103,8 @@ class CElementsTransaction(CTransaction, CoreElementsClass):
                 raise ValueError('Superfluous witness record')
 
             return cls(vin, vout, nLockTime, nVersion, wit)
+        elif flagbyte != 0:
+            raise SerializationError('Unknown transaction optional data')
         else:
             vin = VectorSerializer.stream_deserialize(f, element_class=CTxIn)
             vout = VectorSerializer.stream_deserialize(f, element_class=CTxOut)
-- 
2.43.0


From 93acdd82c626b87b4c9daa6801175823a1fd1443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:48 +0000
Subject: [PATCH 09/21] fix: serialize absent witness entries as empty ones

---
 elementstx/core/__init__.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 681434d..492c2c4 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -695,11 +695,20 @@ class CElementsTxWitness(ReprOrStrMixin, CTxWitness, CoreElementsClass):
 
         return cls(vtxinwit, vtxoutwit)
 
-    def stream_serialize(self, f: BytesIO, **kwargs: Any) -> None:
+    def stream_serialize(self, f: BytesIO,
+                         num_inputs: int = -1,
+                         num_outputs: int = -1,
+                         **kwargs: Any) -> None:
+        # If the number of inputs or outputs is specified, the entries
+        # that are absent are serialized as empty ones
         for i in range(len(self.vtxinwit)):
             self.vtxinwit[i].stream_serialize(f)
+        for i in range(len(self.vtxinwit), num_inputs):
+            CElementsTxInWitness().stream_serialize(f)
         for i in range(len(self.vtxoutwit)):
             self.vtxoutwit[i].stream_serialize(f)
+        for i in range(len(self.vtxoutwit), num_outputs):
+            CElementsTxOutWitness().stream_serialize(f)
 
     # We cannot use generic bound type for witness, because then
     # the method at mutable class will accept only mutable instances.
@@ -1117,15 +1126,16 @@ class CElementsTransaction(CTransaction, CoreElementsClass):
                          **kwargs: Any) -> None:
         f.write(struct.pack(b"<i", self.nVersion))
         if include_witness and not self.wit.is_null():
-            assert len(self.wit.vtxinwit) == 0 or len(self.wit.vtxinwit) == len(self.vin)
-            assert len(self.wit.vtxoutwit) == 0 or len(self.wit.vtxoutwit) == len(self.vout)
+            assert len(self.wit.vtxinwit) <= len(self.vin)
+            assert len(self.wit.vtxoutwit) <= len(self.vout)
             f.write(b'\x01')  # Flag
             # no check of for_sighash, because standard sighash calls this without witnesses.
             VectorSerializer.stream_serialize(self.vin, f)
             VectorSerializer.stream_serialize(self.vout, f)
             # Note: nLockTime goes before witness in Elements transactions
             f.write(struct.pack(b"<I", self.nLockTime))
-            self.wit.stream_serialize(f)
+            self.wit.stream_serialize(f, num_inputs=len(self.vin),
+                                      num_outputs=len(self.vout))
         else:
             if not for_sighash:
                 f.write(b'\x00')  # Flag is needed in Elements
-- 
2.43.0


From b777fd6ccdfbf00c57952353278a2d30481239a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:48 +0000
Subject: [PATCH 10/21] fix: to_redeemScript of confidential addresses returned
 scriptPubKey

---
 elementstx/wallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/wallet.py b/elementstx/wallet.py
index d126076..9850a59 100644
--- a/elementstx/wallet.py
+++ b/elementstx/wallet.py
@@ -158,7 +158,7 @@ class CCoinConfidentialAddress(CCoinAddress):
         return self.to_unconfidential().to_scriptPubKey()
 
     def to_redeemScript(self) -> CScript:
-        return self.to_unconfidential().to_scriptPubKey()
+        return self.to_unconfidential().to_redeemScript()
 
     def from_scriptPubKey(self) -> None:  # type: ignore
         raise CCoinAddressError(
-- 
2.43.0


From e815c6058e8f2cea58377d5ac057c22669458df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:13 +0000
Subject: [PATCH 11/21] fix: secp256k1_surjectionproof_serialized_size returns
 size_t

---
 elementstx/core/secp256k1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/secp256k1.py b/elementstx/core/secp256k1.py
index 08d216e..0055fa8 100644
--- a/elementstx/core/secp256k1.py
+++ b/elementstx/core/secp256k1.py
@@ -183,7 +183,7 @@ def _set_zkp_func_types(lib: ctypes.CDLL) -> None:
         ctypes.c_size_t,  # size_t n_ephemeral_input_tags
         ctypes.c_char_p   # const secp256k1_generator* ephemeral_output_tag
     ]
-    lib.secp256k1_surjectionproof_serialized_size.restype = ctypes.c_int
+    lib.secp256k1_surjectionproof_serialized_size.restype = ctypes.c_size_t
     lib.secp256k1_surjectionproof_serialized_size.argtypes = [ctypes.c_void_p, ctypes.c_void_p]
 
     lib.secp256k1_ec_pubkey_serialize.restype = ctypes.c_int
-- 
2.43.0


From 4f3be5a5e928f6c77e90fed97cfde9dec9842e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:17 +0000
Subject: [PATCH 12/21] fix: unblinding a pair without a valid asset is a
 failure

A null or malformed asset left the generator that is passed to
secp256k1_rangeproof_rewind uninitialized (all zeroes, which the library
treats as an illegal argument). Report it as a failed unblinding.
---
 elementstx/core/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 492c2c4..5415149 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -2054,6 +2054,8 @@ def unblind_confidential_pair(*, blinding_key: CKeyBase,  # noqa
             assert res == 0
             return UnblindingFailure(
                 'unable to create a generator out of asset explicit data')
+    else:
+        return UnblindingFailure('asset is neither a commitment nor explicit')
 
     commit = ctypes.create_string_buffer(64)
     # Valid value commitment ?
-- 
2.43.0


From eda7a5ae095bd39ee65c39e9b8bbdbd2eadf163b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:17 +0000
Subject: [PATCH 13/21] fix: allow unblinding with a rangeproof given as
 bytearray

The argument is documented and checked as bytes or bytearray, but ctypes
does not convert a bytearray for a char pointer argument, so that
unblinding raised ctypes.ArgumentError.
---
 elementstx/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 5415149..ab189a1 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -2079,7 +2079,7 @@ def unblind_confidential_pair(*, blinding_key: CKeyBase,  # noqa
         msg, ctypes.byref(msg_size),
         nonce,
         ctypes.byref(min_value), ctypes.byref(max_value),
-        commit, rangeproof, len(rangeproof),
+        commit, bytes(rangeproof), len(rangeproof),
         committedScript or None, len(committedScript),
         observed_gen)
 
-- 
2.43.0


From de4d122e4ad36752e6dea18f9815d4bce28e332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:17 +0000
Subject: [PATCH 14/21] fix: allow bytearray commitment and generator for a
 rangeproof

generate_rangeproof accepts bytes and bytearray for these arguments, but
ctypes does not convert a bytearray for a char pointer argument.
---
 elementstx/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index ab189a1..c6289d2 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1893,11 +1893,11 @@ def generate_rangeproof(in_blinds: List[Uint256], nonce: Uint256,
         secp256k1.ctx.blind,
         rangeproof, ctypes.byref(nRangeProofLen),
         0 if scriptPubKey.is_unspendable() else 1,
-        commit, blind.data, nonce.data, ct_exponent, ct_bits,
+        bytes(commit), blind.data, nonce.data, ct_exponent, ct_bits,
         amount, assetsMessage, len(assetsMessage),
         None if len(scriptPubKey) == 0 else scriptPubKey,
         len(scriptPubKey),
-        gen)
+        bytes(gen))
 
     if 1 != ret:
         assert ret == 0
-- 
2.43.0


From 380348e64d1dce58c667c987dd7b4fd9d98d8791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:19 +0000
Subject: [PATCH 15/21] fix: refuse issuance blinding keys for inputs without
 issuance

Such keys were counted as blinding attempts, but not as things to blind.
The output that has to balance the blinding factors was therefore missed
and an unbalanced transaction was reported as successfully blinded, or
an assertion failed.
---
 elementstx/core/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index c6289d2..5148cc7 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1489,6 +1489,11 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                     return BlindingFailure(
                         'blind_issuance_token_keys is specified for input %d, '
                         'but inflationKeysRangeproof is already in place')
+        elif any(len(keys) > nIn and keys[nIn] is not None
+                 for keys in (blind_issuance_asset_keys, blind_issuance_token_keys)):
+            return BlindingFailure(
+                'issuance blinding key is specified for input %d, '
+                'but this input has no issuance' % nIn)
 
     for nOut, out_pub in enumerate(output_pubkeys):
         if out_pub.is_nonempty():
-- 
2.43.0


From 582a139d8901a58c045e9d6679d54d013d0c989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:19 +0000
Subject: [PATCH 16/21] fix: refuse to blind a reissuance that has inflation
 keys

There is no token for it: blinding failed with UnboundLocalError, or used
the token of an issuance in another input.
---
 elementstx/core/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 5148cc7..6b8f48a 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1373,6 +1373,9 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 asset = calculate_asset(entropy)
                 token = calculate_reissuance_token(entropy, blind_issuance)
             else:
+                if not issuance.nInflationKeys.is_null():
+                    return BlindingFailure(
+                        'input %d is a reissuance, but nInflationKeys is not null' % i)
                 asset = calculate_asset(issuance.assetEntropy)
 
             if not issuance.nAmount.is_null():
-- 
2.43.0


From 5db12031d809734fbbd741f7ab8cdeb447318041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:19 +0000
Subject: [PATCH 17/21] fix: allow auxiliary generators given as bytearray

They are checked to be bytes or bytearray, but ctypes does not convert a
bytearray for a char pointer argument.
---
 elementstx/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 6b8f48a..87df887 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1330,7 +1330,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 # Parse generator here
                 asset_generator = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)
                 result = secp256k1.lib.secp256k1_generator_parse(
-                    secp256k1.ctx.blind, asset_generator, auxiliary_generators[i])
+                    secp256k1.ctx.blind, asset_generator, bytes(auxiliary_generators[i]))
                 if result != 1:
                     assert result == 0
                     return BlindingFailure(
@@ -1414,7 +1414,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
             gen_buf = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)
             ret = secp256k1.lib.secp256k1_generator_parse(
                 secp256k1.ctx.blind,
-                gen_buf, auxiliary_generators[len(tx.vin)+n])
+                gen_buf, bytes(auxiliary_generators[len(tx.vin)+n]))
             if ret != 1:
                 assert ret == 0
                 return BlindingFailure(
-- 
2.43.0


From 42fbf06572d46a215e018652797dbf4fc6a75b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:19 +0000
Subject: [PATCH 18/21] fix: check the type of empty issuance blinding keys

Only None means that no key is given. Other false values like b'' were
not checked, but used as a key after blinding has begun.
---
 elementstx/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 87df887..85e8010 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1224,12 +1224,12 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
     if not (len(tx.vin) >= len(blind_issuance_asset_keys)):
         raise ValueError('unexpected extra blind_issuance_asset_keys')
     for i, k in enumerate(blind_issuance_asset_keys):
-        if k:
+        if k is not None:
             ensure_isinstance(k, CKeyBase, f'key {i} in blind_issuance_asset_keys')
     if not len(tx.vin) >= len(blind_issuance_token_keys):
         raise ValueError('unexpected extra blind_issuance_token_keys')
     for i, k in enumerate(blind_issuance_token_keys):
-        if k:
+        if k is not None:
             ensure_isinstance(k, CKeyBase, f'key {i} in blind_issuance_token_keys')
 
     if len(tx.vin) != len(input_descriptors):
-- 
2.43.0


From c13a1d672205809643bf1436a8a9944be00091cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:19 +0000
Subject: [PATCH 19/21] fix: input number in the messages about existing
 issuance rangeproofs

---
 elementstx/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 85e8010..37f41f5 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1478,7 +1478,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 else:
                     return BlindingFailure(
                         'blind_issuance_asset_keys is specified for input %d, '
-                        'but issuanceAmountRangeproof is already in place')
+                        'but issuanceAmountRangeproof is already in place' % nIn)
 
             if len(blind_issuance_token_keys) > nIn and blind_issuance_token_keys[nIn] is not None:
                 if not issuance.nInflationKeys.is_explicit():
@@ -1491,7 +1491,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 else:
                     return BlindingFailure(
                         'blind_issuance_token_keys is specified for input %d, '
-                        'but inflationKeysRangeproof is already in place')
+                        'but inflationKeysRangeproof is already in place' % nIn)
         elif any(len(keys) > nIn and keys[nIn] is not None
                  for keys in (blind_issuance_asset_keys, blind_issuance_token_keys)):
             return BlindingFailure(
-- 
2.43.0


From 54e39a01fe2fef084433512fe0dea19f46faa5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:02 +0000
Subject: [PATCH 20/21] fix: a refused blinding leaves the transaction
 unchanged

blind_transaction() filled in commitments, issuance proofs and empty
witness entries before it found that it had to fail, and left the
transaction partially blinded. Blind a copy and take over the result.
---
 elementstx/core/__init__.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 37f41f5..46dc968 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1214,6 +1214,10 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
     if not tx.is_mutable():
         raise ValueError('only mutable transaction can be blinded')
 
+    # Blind a copy, so that the transaction stays as it was on any failure
+    original_tx = tx
+    tx = tx.clone()
+
     # based on Elements Core's BlindTransaction() function from src/blind.cpp
     # as of commit 43f6cdbd3147d9af450b73c8b8b8936e3e4166df
 
@@ -1271,6 +1275,18 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
             if bf is None:
                 output_asset_blinding_factors[i] = Uint256()
 
+        for txin, blinded_txin in zip(original_tx.vin, tx.vin):
+            if txin.assetIssuance != blinded_txin.assetIssuance:
+                txin.assetIssuance = blinded_txin.assetIssuance
+
+        for txout, blinded_txout in zip(original_tx.vout, tx.vout):
+            if txout != blinded_txout:
+                txout.nAsset = blinded_txout.nAsset
+                txout.nValue = blinded_txout.nValue
+                txout.nNonce = blinded_txout.nNonce
+
+        original_tx.wit = tx.wit
+
         return BlindingSuccess(
             num_successfully_blinded=nSuccessfullyBlinded,
             blinding_factors=output_blinding_factors,
-- 
2.43.0


From e1d706c5d03606995f442c8053150566037326aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:25 +0000
Subject: [PATCH 21/21] fix: CElementsOutPoint does not keep a reference to a
 bytearray given as hash

---
 elementstx/core/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 46dc968..26b9355 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -405,6 +405,12 @@ class CElementsOutPoint(COutPoint, CoreElementsClass):
     to_immutable: ClassVar[Callable[['CElementsOutPoint'],
                                     'CElementsOutPoint']]
 
+    def __init__(self, hash: Union[bytes, bytearray] = b'\x00'*32,
+                 n: int = 0xffffffff):
+        super(CElementsOutPoint, self).__init__(hash, n)
+        # superclass stores the argument as is, and it can be a bytearray
+        object.__setattr__(self, 'hash', bytes(self.hash))
+
 
 class CElementsMutableOutPoint(CElementsOutPoint, CMutableOutPoint,
                                mutable_of=CElementsOutPoint):
-- 
2.43.0

