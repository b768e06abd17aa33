"""Behaviour-preserving edits on which the checks have to stay quiet.
Not used by any check.   usage: refactors.py [-j N] [id ...]"""
import os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = 'elementstx/core/__init__.py'
V = os.environ.get('RF_DIR', '/tmp/rf.verif')

GEN = """            asset_generator = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)
            ret = secp256k1.lib.secp256k1_generator_generate_blinded(
                secp256k1.ctx.blind, asset_generator,
                input_descriptors[i].asset.data,
                input_descriptors[i].asset_blinding_factor.data)
            if 1 != ret:
                assert ret == 0
                raise RuntimeError('secp256k1_generator_generate_blinded returned failure')
"""
REFS = {}


def ref(name, checks, *edits):
    REFS[name] = (checks, edits)


ref('blind-helper', ['C12', 'C13'],
    (CORE, """    totalTargets = 0

    secp256k1 = get_secp256k1()
""", """    totalTargets = 0

    secp256k1 = get_secp256k1()

    def key_for(keys: Sequence[Optional[CKeyBase]], pos: int) -> Optional[CKeyBase]:
        if pos < len(keys):
            return keys[pos]
        return None

    def input_generator(desc: 'BlindingInputDescriptor') -> 'ctypes.Array[ctypes.c_char]':
        buf = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)
        ret = secp256k1.lib.secp256k1_generator_generate_blinded(
            secp256k1.ctx.blind, buf, desc.asset.data, desc.asset_blinding_factor.data)
        if ret != 1:
            assert ret == 0
            raise RuntimeError('secp256k1_generator_generate_blinded returned failure')
        return buf
"""), (CORE, GEN, "            asset_generator = input_generator(input_descriptors[i])\n"),
    (CORE, """        asset_issuace_valid = (len(blind_issuance_asset_keys) > nIn
                               and blind_issuance_asset_keys[nIn] is not None)
        token_issuance_valid = (len(blind_issuance_token_keys) > nIn and
                                blind_issuance_token_keys[nIn] is not None)
        for nPseudo in range(2):
            if nPseudo == 0:
                iss_valid = asset_issuace_valid
            else:
                iss_valid = token_issuance_valid

            if iss_valid:
""", """        token_issuance_valid = key_for(blind_issuance_token_keys, nIn) is not None
        for nPseudo, keys in enumerate((blind_issuance_asset_keys, blind_issuance_token_keys)):
            if key_for(keys, nIn) is not None:
"""))
ref('blind-zip', ['C12', 'C13'],
    (CORE, """    for nIn in range(len(tx.vin)):
        if (
            not input_descriptors[nIn].blinding_factor.is_null()
            or not input_descriptors[nIn].asset_blinding_factor.is_null()
        ):
            if input_descriptors[nIn].amount < 0:
""", """    for nIn, (txin, idesc) in enumerate(zip(tx.vin, input_descriptors)):
        if not (idesc.blinding_factor.is_null() and idesc.asset_blinding_factor.is_null()):
            if idesc.amount < 0:
"""), (CORE, """            blinds.append(input_descriptors[nIn].blinding_factor)
            assetblinds.append(input_descriptors[nIn].asset_blinding_factor)
            amounts_to_blind.append(input_descriptors[nIn].amount)
            nBlindsIn += 1
""", """            nBlindsIn += 1
            amounts_to_blind.append(idesc.amount)
            assetblinds.append(idesc.asset_blinding_factor)
            blinds.append(idesc.blinding_factor)
"""), (CORE, """        issuance = tx.vin[nIn].assetIssuance
        if not issuance.is_null():
            # Marked""", """        issuance = txin.assetIssuance
        if not issuance.is_null():
            # Marked"""))
ref('blind-lists', ['C12', 'C13'],
    (CORE, """    surjectionTargets_filled: List[Uint256] = []
    for st in surjectionTargets[:totalTargets]:
        assert st is not None
        surjectionTargets_filled.append(st)

    targetAssetGenerators_filled: List[bytes] = []
    for tag in targetAssetGenerators[:totalTargets]:
        assert tag is not None
        targetAssetGenerators_filled.append(tag)
""", """    surjectionTargets_filled: List[Uint256] = [
        st for st in surjectionTargets[:totalTargets] if st is not None]
    targetAssetGenerators_filled: List[bytes] = [
        tag for tag in targetAssetGenerators[:totalTargets] if tag is not None]
    assert len(surjectionTargets_filled) == totalTargets
    assert len(targetAssetGenerators_filled) == totalTargets
"""), (CORE, """    output_blinding_factors: List[Optional[Uint256]] = \\
        [None for _ in range(len(tx.vout))]
    output_asset_blinding_factors: List[Optional[Uint256]] = \\
        [None for _ in range(len(tx.vout))]
""", """    output_blinding_factors: List[Optional[Uint256]] = [None] * len(tx.vout)
    output_asset_blinding_factors: List[Optional[Uint256]] = [None] * len(tx.vout)
"""))
ref('blind-sum', ['C12'],
    (CORE, """                blindedAmounts = (ctypes.c_uint64 * len(amounts_to_blind))(*amounts_to_blind)
                assetblindptrs = (ctypes.c_char_p*len(assetblinds))()
                for i, ab in enumerate(assetblinds):
                    assetblindptrs[i] = ab.data
""", """                assetblindptrs = (ctypes.c_char_p*len(assetblinds))(*[ab.data for ab in assetblinds])
                blindedAmounts = (ctypes.c_uint64 * len(amounts_to_blind))()
                for i, am in enumerate(amounts_to_blind):
                    blindedAmounts[i] = am
"""), (CORE, """                for i, blind in enumerate(blinds[:-1]):
                    blindptrs[i] = blind.data
""", """                for i in range(len(blinds) - 1):
                    blindptrs[i] = blinds[i].data
"""))
ref('blind-result', ['C12', 'C13'],
    (CORE, """        for i, bf in enumerate(output_blinding_factors):
            if bf is None:
                output_blinding_factors[i] = Uint256()

        for i, bf in enumerate(output_asset_blinding_factors):
            if bf is None:
                output_asset_blinding_factors[i] = Uint256()
""", """        blinding_factors = [Uint256() if bf is None else bf
                            for bf in output_blinding_factors]
        asset_blinding_factors = [Uint256() if bf is None else bf
                                  for bf in output_asset_blinding_factors]
"""), (CORE, """            blinding_factors=output_blinding_factors,
            asset_blinding_factors=output_asset_blinding_factors)
""", """            blinding_factors=blinding_factors,
            asset_blinding_factors=asset_blinding_factors)
"""))
ref('blind-outputs', ['C12', 'C13'],
    (CORE, """            txoutwit = tx.wit.vtxoutwit[nOut]

            output_blinding_factors[nOut] = blinds[-1]
            output_asset_blinding_factors[nOut] = assetblinds[-1]

            # Blind the asset ID
            (confAsset, gen) = blinded_asset(asset, assetblinds[-1])

            out.nAsset = confAsset

            # Create value commitment
            (confValue, commit) = create_value_commitment(blinds[-1].data, gen, amount)

            out.nValue = confValue
""", """            blind, assetblind = blinds[-1], assetblinds[-1]
            output_asset_blinding_factors[nOut] = assetblind
            output_blinding_factors[nOut] = blind

            # Blind the asset ID, create value commitment
            out.nAsset, gen = blinded_asset(asset, assetblind)
            out.nValue, commit = create_value_commitment(blind.data, gen, amount)
            txoutwit = tx.wit.vtxoutwit[nOut]
"""), (CORE, """            if not surjectionproof:
                continue

            txoutwit.rangeproof = rangeproof
            txoutwit.surjectionproof = surjectionproof

            # Successfully blinded this output
            nSuccessfullyBlinded += 1
""", """            if surjectionproof:
                txoutwit.surjectionproof = surjectionproof
                txoutwit.rangeproof = rangeproof

                # Successfully blinded this output
                nSuccessfullyBlinded += 1
"""))
ref('blind-issuance', ['C12', 'C13'],
    (CORE, """                if nPseudo:
                    issuance = CAssetIssuance(
                        assetBlindingNonce=issuance.assetBlindingNonce,
                        assetEntropy=issuance.assetEntropy,
                        nAmount=issuance.nAmount,
                        nInflationKeys=confValue)
                else:
                    issuance = CAssetIssuance(
                        assetBlindingNonce=issuance.assetBlindingNonce,
                        assetEntropy=issuance.assetEntropy,
                        nAmount=confValue,
                        nInflationKeys=issuance.nInflationKeys)

                tx.vin[nIn].assetIssuance = issuance

                # nonce should just be blinding key
                if nPseudo == 0:
                    asset_key = blind_issuance_asset_keys[nIn]
                    assert asset_key is not None
                    nonce = Uint256(asset_key.secret_bytes)
                else:
                    token_key = blind_issuance_token_keys[nIn]
                    assert token_key is not None
                    nonce = Uint256(token_key.secret_bytes)
""", """                # nonce should just be blinding key
                key = (blind_issuance_token_keys if nPseudo else blind_issuance_asset_keys)[nIn]
                assert key is not None
                nonce = Uint256(key.secret_bytes)

                tx.vin[nIn].assetIssuance = CAssetIssuance(
                    issuance.assetBlindingNonce, issuance.assetEntropy,
                    issuance.nAmount if nPseudo else confValue,
                    confValue if nPseudo else issuance.nInflationKeys)
"""))
ref('unblind', ['C14'],
    (CORE, """    # If value is unblinded, we don't support unblinding just the asset
    if not confValue.is_commitment():
        return UnblindingFailure('value is not a commitment')

    observed_gen""", """    observed_gen"""),
    (CORE, """    ephemeral_key = CPubKey(confNonce.commitment)

    # ECDH or not depending on if nonce commitment is non-empty
    if len(confNonce.commitment) > 0:
        if not ephemeral_key.is_fullyvalid():
            return UnblindingFailure('nNonce.commitment is not a valid pubkey')
        nonce = hashlib.sha256(blinding_key.ECDH(ephemeral_key)).digest()
    else:
        # Use blinding key directly, and don't commit to a scriptpubkey
        committedScript = CElementsScript()
        nonce = blinding_key.secret_bytes
""", """    # ECDH or not depending on if nonce commitment is non-empty
    if confNonce.is_null():
        # Use blinding key directly, and don't commit to a scriptpubkey
        nonce = blinding_key.secret_bytes
        committedScript = CElementsScript()
    else:
        ephemeral_key = CPubKey(confNonce.commitment)
        if not ephemeral_key.is_fullyvalid():
            return UnblindingFailure('nNonce.commitment is not a valid pubkey')
        nonce = hashlib.sha256(blinding_key.ECDH(ephemeral_key)).digest()

    # If value is unblinded, we don't support unblinding just the asset
    if not confValue.is_commitment():
        return UnblindingFailure('value is not a commitment')
"""),
    (CORE, """    # Serialize both generators then compare

    observed_generator = ctypes.create_string_buffer(33)
    derived_generator = ctypes.create_string_buffer(33)
    res = secp256k1.lib.secp256k1_generator_serialize(
        secp256k1.ctx.blind, observed_generator, observed_gen)
    if 1 != res:
        assert res == 0
        raise RuntimeError('secp256k1_generator_serialize returned failure')

    res = secp256k1.lib.secp256k1_generator_serialize(
        secp256k1.ctx.blind, derived_generator, recalculated_gen)
    if 1 != res:
        assert res == 0
        raise RuntimeError('secp256k1_generator_serialize returned failure')

    if observed_generator.raw != derived_generator.raw:
""", """    # Serialize both generators then compare
    serialized = []
    for generator in (observed_gen, recalculated_gen):
        buf = ctypes.create_string_buffer(33)
        res = secp256k1.lib.secp256k1_generator_serialize(
            secp256k1.ctx.blind, buf, generator)
        if 1 != res:
            assert res == 0
            raise RuntimeError('secp256k1_generator_serialize returned failure')
        serialized.append(buf.raw)

    if serialized[0] != serialized[1]:
"""))
ref('rangeproof', ['C12', 'C15'],
    (CORE, """    if custom_ct_exponent is not None:
        ensure_isinstance(custom_ct_exponent, int, 'custom_ct_exponent')
        ct_exponent = custom_ct_exponent
    else:
        ct_exponent = CoreCoinParams.CT_EXPONENT
""", """    ct_exponent = CoreCoinParams.CT_EXPONENT
    if custom_ct_exponent is not None:
        ensure_isinstance(custom_ct_exponent, int, 'custom_ct_exponent')
        ct_exponent = custom_ct_exponent
"""), (CORE, """    # Sign rangeproof
    # If min_value is 0, scriptPubKey must be unspendable
    ret =""", """    # If min_value is 0, scriptPubKey must be unspendable
    min_value = 1
    if scriptPubKey.is_unspendable():
        min_value = 0

    script_size = len(scriptPubKey)
    # Sign rangeproof
    ret ="""), (CORE, """        0 if scriptPubKey.is_unspendable() else 1,
        bytes(commit)""", """        min_value,
        bytes(commit)"""), (CORE, """        None if len(scriptPubKey) == 0 else scriptPubKey,
        len(scriptPubKey),
""", """        scriptPubKey if script_size else None, script_size,
"""))
ref('assets', ['C12', 'C18'],
    (CORE, """    if is_confidential:
        k = Uint256.from_int(2)
    else:
        k = Uint256.from_int(1)
    return CAsset(CSHA256().Write(entropy).Write(k.data).Midstate())
""", """    kind = (2 if is_confidential else 1).to_bytes(32, 'little')
    hasher = CSHA256()
    hasher.Write(entropy)
    hasher.Write(kind)
    return CAsset(hasher.Midstate())
"""), (CORE, """    return CAsset(CSHA256().Write(entropy).Write(Uint256().data).Midstate())
""", """    return CAsset(CSHA256().Write(entropy + b'\\x00' * 32).Midstate())
"""))
ref('txin', ['C01', 'C02', 'C03'],
    (CORE, """            has_asset_issuance = bool(base.prevout.n & OUTPOINT_ISSUANCE_FLAG)
""", """            index = base.prevout.n
            has_asset_issuance = index & OUTPOINT_ISSUANCE_FLAG != 0
"""), (CORE, """            is_pegin = bool(base.prevout.n & OUTPOINT_PEGIN_FLAG)
""", """            is_pegin = (index & OUTPOINT_PEGIN_FLAG) == OUTPOINT_PEGIN_FLAG
"""), (CORE, """        if has_asset_issuance:
            assetIssuance = CAssetIssuance.stream_deserialize(f)
            if assetIssuance.is_null():
                raise TxInSerializationError('Superfluous asset issuance record')
        else:
            assetIssuance = CAssetIssuance()
""", """        assetIssuance = CAssetIssuance()
        if has_asset_issuance:
            assetIssuance = CAssetIssuance.stream_deserialize(f)
            if assetIssuance.nAmount.is_null() and assetIssuance.nInflationKeys.is_null():
                raise TxInSerializationError('Superfluous asset issuance record')
"""))


SCRIPT = 'elementstx/core/script.py'
WALLET = 'elementstx/wallet.py'
BLECH = 'elementstx/blech32.py'
LADDR = 'elementstx/liquid_addr.py'
ZKP = 'elementstx/core/secp256k1.py'

ref('v0-helper', ['C04', 'C05'], (SCRIPT, """    if not (hashtype & SIGHASH_ANYONECANPAY):
        serialize_prevouts = bytes()
        serialize_issuance = bytes()
        for vin in txTo.vin:
            serialize_prevouts += vin.prevout.serialize()
            if vin.assetIssuance.is_null():
                serialize_issuance += b'\\x00'
            else:
                serialize_issuance += vin.assetIssuance.serialize()
        hashPrevouts = Hash(serialize_prevouts)
        hashIssuance = Hash(serialize_issuance)

    if (not (hashtype & SIGHASH_ANYONECANPAY) and (hashtype & 0x1f) != SIGHASH_SINGLE and (hashtype & 0x1f) != SIGHASH_NONE):
        serialize_sequence = bytes()
        for i in txTo.vin:
            serialize_sequence += struct.pack("<I", i.nSequence)
        hashSequence = Hash(serialize_sequence)

    if ((hashtype & 0x1f) != SIGHASH_SINGLE and (hashtype & 0x1f) != SIGHASH_NONE):
        serialize_outputs = bytes()
        for o in txTo.vout:
            serialize_outputs += o.serialize()
        hashOutputs = Hash(serialize_outputs)
""", """    base_type = hashtype & 0x1f
    anyone_can_pay = bool(hashtype & SIGHASH_ANYONECANPAY)
    all_outputs = base_type not in (SIGHASH_SINGLE, SIGHASH_NONE)

    def issuance_bytes(txin: 'elementstx.core.CElementsTxIn') -> bytes:
        if txin.assetIssuance.is_null():
            return bytes(1)
        return txin.assetIssuance.serialize()

    if not anyone_can_pay:
        hashPrevouts = Hash(b''.join(vin.prevout.serialize() for vin in txTo.vin))
        hashIssuance = Hash(b''.join([issuance_bytes(vin) for vin in txTo.vin]))

        if all_outputs:
            hashSequence = Hash(b''.join(struct.pack("<I", vin.nSequence)
                                         for vin in txTo.vin))

    if all_outputs:
        outputs_stream = BytesIO()
        for o in txTo.vout:
            o.stream_serialize(outputs_stream)
        hashOutputs = Hash(outputs_stream.getvalue())
"""))

ref('v0-concat', ['C04'], (SCRIPT, """    f = BytesIO()
    f.write(struct.pack("<i", txTo.nVersion))
    f.write(hashPrevouts)
    f.write(hashSequence)
    f.write(hashIssuance)
    txTo.vin[inIdx].prevout.stream_serialize(f)
    BytesSerializer.stream_serialize(script, f)
    f.write(amount.commitment)
    f.write(struct.pack("<I", txTo.vin[inIdx].nSequence))
    if not txTo.vin[inIdx].assetIssuance.is_null():
        txTo.vin[inIdx].assetIssuance.stream_serialize(f)
    f.write(hashOutputs)
    f.write(struct.pack("<I", txTo.nLockTime))
    f.write(struct.pack("<i", hashtype))

    hash = Hash(f.getvalue())

    return (hash, None)
""", """    txin = txTo.vin[inIdx]
    parts = [struct.pack("<i", txTo.nVersion), hashPrevouts, hashSequence,
             hashIssuance, txin.prevout.serialize(),
             BytesSerializer.serialize(script), amount.commitment,
             struct.pack("<I", txin.nSequence)]
    if not txin.assetIssuance.is_null():
        parts.append(txin.assetIssuance.serialize())
    parts += [hashOutputs, struct.pack("<Ii", txTo.nLockTime, hashtype)]

    return (Hash(b''.join(parts)), None)
"""))

ref('tap-serialize', ['C06'], (SCRIPT, """        for sout in spent_outputs:
            assets_amounts_hashobj.update(sout.nAsset.serialize())
            assets_amounts_hashobj.update(sout.nValue.serialize())
            scripts_hashobj.update(BytesSerializer.serialize(sout.scriptPubKey))

        for inp_i, txin in enumerate(txTo.vin):
            outpoints_flag_hashobj.update(get_outpoint_flag(txin))
            prevouts_hashobj.update(txin.prevout.serialize())
            sequences_hashobj.update(struct.pack('<I', txin.nSequence))
""", """        for inp_i in range(len(spent_outputs)):
            sout = spent_outputs[inp_i]
            assets_amounts_hashobj.update(sout.nAsset.serialize()
                                          + sout.nValue.serialize())
            scripts_hashobj.update(BytesSerializer.serialize(sout.scriptPubKey))

        for inp_i, txin in enumerate(txTo.vin):
            sequences_hashobj.update(struct.pack('<I', txin.nSequence))
            outpoints_flag_hashobj.update(get_outpoint_flag(txin))
            prevouts_hashobj.update(txin.prevout.serialize())
"""))

ref('tap-join', ['C06'], (SCRIPT, """        outputs_hashobj = hashlib.sha256()
        output_witnesses_hashobj = hashlib.sha256()

        for outp_i, txout in enumerate(txTo.vout):
            outputs_hashobj.update(txout.serialize())
            output_witnesses_hashobj.update(
                get_outwit(outp_i).serialize())

        f.write(outputs_hashobj.digest())
        f.write(output_witnesses_hashobj.digest())

    spend_type = ext_flag << 1

    if annex_hash is not None:
        spend_type += 1  # The low bit indicates whether an annex is present
""", """        f.write(hashlib.sha256(
            b''.join(txout.serialize() for txout in txTo.vout)).digest())
        f.write(hashlib.sha256(
            b''.join([get_outwit(i).serialize()
                      for i in range(len(txTo.vout))])).digest())

    spend_type = 2*ext_flag + int(annex_hash is not None)
"""), (SCRIPT, """        opf = 0

        if not txin.assetIssuance.is_null():
            opf |= elementstx.core.OUTPOINT_ISSUANCE_FLAG

        if txin.is_pegin:
            opf |= elementstx.core.OUTPOINT_PEGIN_FLAG

        return bytes([opf >> 24])
""", """        has_issuance = not txin.assetIssuance.is_null()
        opf = ((elementstx.core.OUTPOINT_ISSUANCE_FLAG if has_issuance else 0)
               + (elementstx.core.OUTPOINT_PEGIN_FLAG if txin.is_pegin else 0))

        return struct.pack('B', opf >> 24)
"""))

ref('tap-acp', ['C06'], (SCRIPT, """        f.write(get_outpoint_flag(txTo.vin[inIdx]))
        f.write(txTo.vin[inIdx].prevout.serialize())
        f.write(spent_outputs[inIdx].nAsset.serialize())
        f.write(spent_outputs[inIdx].nValue.serialize())
        f.write(BytesSerializer.serialize(spent_outputs[inIdx].scriptPubKey))
        f.write(struct.pack('<I', txTo.vin[inIdx].nSequence))
        if txTo.vin[inIdx].assetIssuance.is_null():
            f.write(b'\\x00')
        else:
            f.write(txTo.vin[inIdx].assetIssuance.serialize())

            inwit = get_inwit(inIdx)
            f.write(
                hashlib.sha256(
                    BytesSerializer.serialize(inwit.issuanceAmountRangeproof)
                    + BytesSerializer.serialize(inwit.inflationKeysRangeproof)
                ).digest()
            )
""", """        this_in = txTo.vin[inIdx]
        spent = spent_outputs[inIdx]
        f.write(get_outpoint_flag(this_in))
        this_in.prevout.stream_serialize(f)
        spent.nAsset.stream_serialize(f)
        spent.nValue.stream_serialize(f)
        BytesSerializer.stream_serialize(spent.scriptPubKey, f)
        f.write(this_in.nSequence.to_bytes(4, 'little'))
        if not this_in.assetIssuance.is_null():
            this_in.assetIssuance.stream_serialize(f)
            inwit = get_inwit(inIdx)
            hobj = hashlib.sha256()
            for proof in (inwit.issuanceAmountRangeproof,
                          inwit.inflationKeysRangeproof):
                hobj.update(BytesSerializer.serialize(proof))
            f.write(hobj.digest())
        else:
            f.write(b'\\x00')
"""))

ref('pegout', ['C17'], (SCRIPT, """            op_iter = self.raw_iter()
            op, _, _ = next(op_iter)
            if op != OP_RETURN:
                return None

            op, op_data, _ = next(op_iter)

            if op_data is None:
                return None

            if len(op_data) != 32:
                return None

            genesis_hash = op_data

            op, op_data, _ = next(op_iter)

            if op_data is None:
                return None

            if len(op_data) == 0:
                return None

            pegout_scriptpubkey = self.__class__(op_data)
""", """            op_iter = iter(self.raw_iter())
            first_op = next(op_iter)[0]
            if first_op != OP_RETURN:
                return None

            genesis_hash = next(op_iter)[1]

            if genesis_hash is None or not (len(genesis_hash) == 32):
                return None

            (_, script_data, _) = next(op_iter)

            if not script_data:
                return None

            pegout_scriptpubkey = self.__class__(script_data)
"""))

ref('conf-addr', ['C10', 'C11', 'C19'], (WALLET, """        unconf_adr = self._unconfidential_address_class.from_bytes(self[33:])
        return cast(CCoinAddress, unconf_adr)
""", """        pubkey_len = 33
        data = self[pubkey_len:len(self)]
        return cast(CCoinAddress,
                    self._unconfidential_address_class.from_bytes(data))
"""), (WALLET, """        return CPubKey(self[0:33])
""", """        return CPubKey(self[:33])
"""), (WALLET, """                conf_adr = conf_cls.from_bytes(blinding_pubkey + unconfidential_adr)
                return cast(T_CCoinConfidentialAddress, conf_adr)
""", """                payload = b''.join((blinding_pubkey, unconfidential_adr))
                return cast(T_CCoinConfidentialAddress, conf_cls.from_bytes(payload))
"""), (WALLET, """        txo = CElementsTxOut(scriptPubKey=inst.to_scriptPubKey(),
                             nValue=CConfidentialValue(0))
        f = BytesIO()
        txo.stream_serialize(f)
        return len(f.getbuffer())
""", """        txo = CElementsTxOut(nValue=CConfidentialValue(0),
                             scriptPubKey=inst.to_scriptPubKey())
        return len(txo.serialize())
"""))

ref('conf-loop', ['C10'], (WALLET, """            if mapped_cls_list:
                if len(mapped_cls_list) != 1:
                    raise TypeError(
                        f"{conf_cls.__name__} must be final dispatch class")
                chain_specific_conf_cls = mapped_cls_list[0]
            else:
                chain_specific_conf_cls = conf_cls
            if isinstance(unconfidential_adr, unconf_cls) and\\
                    (issubclass(cls, (conf_cls, chain_specific_conf_cls))
                     or issubclass(chain_specific_conf_cls, cls)):
                conf_adr""", """            if len(mapped_cls_list) > 1:
                raise TypeError(
                    f"{conf_cls.__name__} must be final dispatch class")
            chain_specific_conf_cls = (mapped_cls_list or [conf_cls])[0]
            is_target = issubclass(cls, (conf_cls, chain_specific_conf_cls))
            if isinstance(unconfidential_adr, unconf_cls) and\\
                    (is_target or issubclass(chain_specific_conf_cls, cls)):
                conf_adr"""), (WALLET, """            if issubclass(cls, (conf_cls, chain_specific_conf_cls)):
                raise TypeError(
                    'cannot create {} from {}: only subclasses""", """            if is_target:
                raise TypeError(
                    'cannot create {} from {}: only subclasses"""))

ref('blech-class', ['C09', 'C11'], (BLECH, """        for candidate in candidates:
            wv = candidate.blech32_witness_version
            if wv < 0:
                try:
                    return candidate.blech32_match_progam_and_version(
                        data, witver)
                except UnexpectedBlech32LenghOrVersion:
                    pass
            elif len(data) == candidate._data_length and witver == wv:
                return candidate.from_bytes(data, witver=witver)
""", """        for candidate in candidates:
            if candidate.blech32_witness_version >= 0:
                if witver != candidate.blech32_witness_version:
                    continue
                if len(data) != candidate._data_length:
                    continue
                return candidate.from_bytes(data, witver=witver)
            try:
                return candidate.blech32_match_progam_and_version(data, witver)
            except UnexpectedBlech32LenghOrVersion:
                continue
"""), (BLECH, """        if not (0 <= witver <= 16):
""", """        if witver not in range(17):
"""))

ref('aligned', ['C12', 'C15'], (ZKP, """    buf = b''.join(data_list)
    # but we must check that our expectation of the data size is correct
    assert len(buf) % expected_len == 0
    assert len(buf) // expected_len == len(data_list)

    return buf
""", """    total = len(data_list) * expected_len
    buf = b''.join(data_list)
    # but we must check that our expectation of the data size is correct
    assert len(buf) == total

    return buf
"""))


ref('blech-code', ['C09', 'C11'], (LADDR, """    if check == BECH32_CONST:
        return Encoding.BECH32
    elif check == BECH32M_CONST:
        return Encoding.BECH32M
    else:
        return None
""", """    return {BECH32_CONST: Encoding.BECH32,
            BECH32M_CONST: Encoding.BECH32M}.get(check)
"""), (LADDR, """        for i in range(5):
            chk ^= generator[i] if ((top >> i) & 1) else 0
""", """        for i, gen in enumerate(generator):
            if (top >> i) & 1:
                chk ^= gen
"""), (LADDR, """    return hrp + '1' + ''.join([CHARSET[d] for d in combined])
""", """    return f"{hrp}1{''.join(CHARSET[d] for d in combined)}"
"""), (LADDR, """    encoding = Encoding.BECH32 if witver == 0 else Encoding.BECH32M
""", """    encoding = Encoding.BECH32M
    if not witver:
        encoding = Encoding.BECH32
"""), (LADDR, """    if decoded is None or len(decoded) < 2 or len(decoded) > 40+33:
        return (None, None)
    if data[0] > 16:
        return (None, None)
    if data[0] == 0 and len(decoded) != 20+33 and len(decoded) != 32+33:
        return (None, None)
    if (data[0] == 0 and encoding != Encoding.BECH32) or \\
            (data[0] != 0 and encoding != Encoding.BECH32M):
        return (None, None)
    return (data[0], bytes(decoded))
""", """    if decoded is None or not (2 <= len(decoded) <= 40+33):
        return (None, None)
    witver = data[0]
    if witver > 16:
        return (None, None)
    if witver == 0:
        if encoding != Encoding.BECH32 or len(decoded) not in (20+33, 32+33):
            return (None, None)
    elif encoding != Encoding.BECH32M:
        return (None, None)
    return (witver, bytes(decoded))
"""))

ref('blech-format', ['C09'], (LADDR, """    return hrp + '1' + ''.join([CHARSET[d] for d in combined])
""", """    return '{}1{}'.format(hrp, ''.join(CHARSET[d] for d in combined))
"""), (LADDR, """    values = blech32_hrp_expand(hrp) + data
    const = BECH32M_CONST if encoding == Encoding.BECH32M else BECH32_CONST
    polymod = blech32_polymod(values + [0]*12) ^ const  # 6->12
    return [(polymod >> 5 * (11 - i)) & 31 for i in range(12)]
""", """    consts = {Encoding.BECH32M: BECH32M_CONST, Encoding.BECH32: BECH32_CONST}
    values = [*blech32_hrp_expand(hrp), *data, *([0]*12)]
    polymod = blech32_polymod(values) ^ consts[encoding]
    checksum = []
    for i in reversed(range(12)):
        checksum.append((polymod >> (5 * i)) % 32)
    return checksum
"""))

ref('blech-decode', ['C09', 'C11'], (LADDR, """    if ((any(ord(x) < 33 or ord(x) > 126 for x in bech)) or
            (bech.lower() != bech and bech.upper() != bech)):
        return (None, None, None)
    bech = bech.lower()
""", """    nothing = (None, None, None)
    if not all(33 <= ord(x) <= 126 for x in bech):
        return nothing
    lowered = bech.lower()
    if bech != lowered and bech != bech.upper():
        return nothing
    bech = lowered
"""), (LADDR, """    if not all(x in CHARSET for x in bech[pos+1:]):
        return (None, None, None)
    hrp = bech[:pos]
    data = [CHARSET.find(x) for x in bech[pos+1:]]
""", """    hrp = bech[:pos]
    data = [CHARSET.find(x) for x in bech[pos+1:]]
    if -1 in data:
        return (None, None, None)
"""), (LADDR, """        while bits >= tobits:
            bits -= tobits
            ret.append((acc >> bits) & maxv)
    if pad:
        if bits:
            ret.append((acc << (tobits - bits)) & maxv)
    elif bits >= frombits or ((acc << (tobits - bits)) & maxv):
        return None
    return ret
""", """        while bits >= tobits:
            bits = bits - tobits
            ret += [(acc >> bits) & maxv]
    padding = (acc << (tobits - bits)) & maxv
    if not pad:
        if padding or bits >= frombits:
            return None
    elif bits > 0:
        ret.append(padding)
    return ret
"""))


ref('commitments', ['C02', 'C07'], (CORE, """        version = ser_read(f, 1)[0]
        read_size = 0
        if version == 0:
            read_size = 0
        elif version == 1:
            read_size = cls._explicitSize
        elif version in (cls._prefixA, cls._prefixB):
            read_size = cls._committedSize
        else:
            raise WitnessSerializationError('Unrecognized serialization prefix')

        if read_size > 0:
            commitment = bytes([version]) + ser_read(f, read_size-1)
        else:
            commitment = b''

        return cls(commitment)
""", """        sizes = {0: 0, 1: cls._explicitSize,
                 cls._prefixA: cls._committedSize,
                 cls._prefixB: cls._committedSize}
        prefix = ser_read(f, 1)
        version = prefix[0]
        if version not in sizes:
            raise WitnessSerializationError('Unrecognized serialization prefix')

        if version == 0:
            return cls()

        return cls(prefix + ser_read(f, sizes[version]-1))
"""), (CORE, """        if len(self.commitment):
            f.write(self.commitment)
        else:
            f.write(bytes([0]))
""", """        f.write(self.commitment or b'\\x00')
"""), (CORE, """        return (len(self.commitment) == self._explicitSize
                and self.commitment[0] == 1)
""", """        if len(self.commitment) != self._explicitSize:
            return False
        return self.commitment.startswith(b'\\x01')
"""), (CORE, """            commitment = bytes([1]) + struct.pack(b">q", value_or_commitment)
""", """            commitment = struct.pack(b">Bq", 1, value_or_commitment)
"""), (CORE, """        return int(struct.unpack(b">q", self.commitment[1:])[0])
""", """        (amount,) = struct.unpack_from(b">q", self.commitment, 1)
        return int(amount)
"""))

ref('commitments2', ['C02', 'C07'], (CORE, """        allowed_sizes = (0, self._explicitSize, self._committedSize)
        if len(commitment) not in allowed_sizes:
""", """        allowed_sizes = (0, self._explicitSize, self._committedSize)
        size = len(commitment)
        if not any(size == allowed for allowed in allowed_sizes):
"""), (CORE, """        return int(struct.unpack(b">q", self.commitment[1:])[0])
""", """        return int.from_bytes(self.commitment[1:], 'big', signed=True)
"""), (CORE, """        return self.is_null() or self.is_explicit() or self.is_commitment()
""", """        return any((self.is_null(), self.is_explicit(), self.is_commitment()))
"""), (CORE, """        return CAsset(self.commitment[1:])
""", """        _, data = self.commitment[:1], self.commitment[1:]
        return CAsset(data)
"""))

ref('serialize', ['C01', 'C03', 'C05'], (CORE, """        for i in range(len(self.vtxinwit)):
            self.vtxinwit[i].stream_serialize(f)
        for i in range(len(self.vtxinwit), num_inputs):
            CElementsTxInWitness().stream_serialize(f)
        for i in range(len(self.vtxoutwit)):
            self.vtxoutwit[i].stream_serialize(f)
        for i in range(len(self.vtxoutwit), num_outputs):
            CElementsTxOutWitness().stream_serialize(f)
""", """        for inwit in self.vtxinwit:
            inwit.stream_serialize(f)
        empty_in = CElementsTxInWitness().serialize()
        f.write(empty_in * max(0, num_inputs - len(self.vtxinwit)))
        for outwit in self.vtxoutwit:
            outwit.stream_serialize(f)
        missing = num_outputs - len(self.vtxoutwit)
        if missing > 0:
            f.write(CElementsTxOutWitness().serialize() * missing)
"""), (CORE, """        for n in range(len(self.vtxinwit)):
            if not self.vtxinwit[n].is_null():
                return False
        for n in range(len(self.vtxoutwit)):
            if not self.vtxoutwit[n].is_null():
                return False
        return True
""", """        return (all(w.is_null() for w in self.vtxinwit)
                and all(w.is_null() for w in self.vtxoutwit))
"""), (CORE, """            f.write(b'\\x01')  # Flag
            # no check of for_sighash, because standard sighash calls this without witnesses.
            VectorSerializer.stream_serialize(self.vin, f)
            VectorSerializer.stream_serialize(self.vout, f)
            # Note: nLockTime goes before witness in Elements transactions
            f.write(struct.pack(b"<I", self.nLockTime))
            self.wit""", """            f.write(b'\\x01')  # Flag
            # no check of for_sighash, because standard sighash calls this without witnesses.
            for vector in (self.vin, self.vout):
                VectorSerializer.stream_serialize(vector, f)
            # Note: nLockTime goes before witness in Elements transactions
            f.write(self.nLockTime.to_bytes(4, 'little'))
            self.wit"""))

ref('serialize-in', ['C01', 'C03'], (CORE, """        if self.prevout.n == 0xffffffff:
            has_asset_issuance = False
            outpoint = self.prevout
        else:
            if self.prevout.n & ~OUTPOINT_INDEX_MASK:
                raise TxInSerializationError('High bits of prevout.n should not be set')

            has_asset_issuance = not self.assetIssuance.is_null()
            n = self.prevout.n & OUTPOINT_INDEX_MASK
            if not for_sighash:
                if has_asset_issuance:
                    n |= OUTPOINT_ISSUANCE_FLAG
                if self.is_pegin:
                    n |= OUTPOINT_PEGIN_FLAG
            outpoint = CElementsOutPoint(self.prevout.hash, n)

        COutPoint.stream_serialize(outpoint, f)
""", """        index = self.prevout.n
        is_coinbase = index == 0xffffffff
        has_asset_issuance = not is_coinbase and not self.assetIssuance.is_null()
        if not is_coinbase:
            if index > OUTPOINT_INDEX_MASK:
                raise TxInSerializationError('High bits of prevout.n should not be set')
            flags = 0
            if has_asset_issuance and not for_sighash:
                flags += OUTPOINT_ISSUANCE_FLAG
            if self.is_pegin and not for_sighash:
                flags += OUTPOINT_PEGIN_FLAG
            index = index + flags

        f.write(self.prevout.hash)
        f.write(struct.pack(b"<I", index))
"""))

ref('parse-tx', ['C01', 'C02'], (CORE, """        markerbyte = 0
        flagbyte = struct.unpack(b'B', ser_read(f, 1))[0]
        if markerbyte == 0 and flagbyte == 1:
            vin = VectorSerializer.stream_deserialize(f, element_class=CTxIn)
            vout = VectorSerializer.stream_deserialize(f, element_class=CTxOut)
            # Note: nLockTime goes before witness in Elements transactions
            nLockTime = struct.unpack(b"<I", ser_read(f, 4))[0]
            wit = CElementsTxWitness.stream_deserialize(
                f, num_inputs=len(vin), num_outputs=len(vout),
                **kwargs)

            if wit.is_null():
                # It's illegal to encode witnesses
                # when all witness stacks are empty.
                raise ValueError('Superfluous witness record')

            return cls(vin, vout, nLockTime, nVersion, wit)
        elif flagbyte != 0:
            raise SerializationError('Unknown transaction optional data')
        else:
            vin = VectorSerializer.stream_deserialize(f, element_class=CTxIn)
            vout = VectorSerializer.stream_deserialize(f, element_class=CTxOut)
            nLockTime = struct.unpack(b"<I", ser_read(f, 4))[0]
            return cls(vin, vout, nLockTime, nVersion)
""", """        flagbyte = ser_read(f, 1)[0]
        if flagbyte > 1:
            raise SerializationError('Unknown transaction optional data')

        vin = VectorSerializer.stream_deserialize(f, element_class=CTxIn)
        vout = VectorSerializer.stream_deserialize(f, element_class=CTxOut)
        # Note: nLockTime goes before witness in Elements transactions
        (nLockTime,) = struct.unpack(b"<I", ser_read(f, 4))
        if not flagbyte:
            return cls(vin, vout, nLockTime, nVersion)

        wit = CElementsTxWitness.stream_deserialize(
            f, num_inputs=len(vin), num_outputs=len(vout), **kwargs)

        if wit.is_null():
            # It's illegal to encode witnesses
            # when all witness stacks are empty.
            raise ValueError('Superfluous witness record')

        return cls(vin, vout, nLockTime, nVersion, wit)
"""))

ref('construct', ['C16'], (CORE, """        object.__setattr__(self, 'assetBlindingNonce', assetBlindingNonce)
        object.__setattr__(self, 'assetEntropy', assetEntropy)
        object.__setattr__(self, 'nAmount', nAmount)
        object.__setattr__(self, 'nInflationKeys', nInflationKeys)
""", """        for name, value in (('assetBlindingNonce', assetBlindingNonce),
                            ('assetEntropy', assetEntropy),
                            ('nAmount', nAmount),
                            ('nInflationKeys', nInflationKeys)):
            object.__setattr__(self, name, value)
"""), (CORE, """        txinwit = []
        for wi in vtxinwit:
            txinwit.append(CTxInWitness.from_txin_witness(wi))

        txoutwit = []
        for wo in vtxoutwit:
            txoutwit.append(CTxOutWitness.from_txout_witness(wo))
""", """        txinwit = [CTxInWitness.from_txin_witness(wi) for wi in vtxinwit]
        txoutwit = [CTxOutWitness.from_txout_witness(wo) for wo in vtxoutwit]
"""))


ref('ids', ['C08'], (CORE, """    if isinstance(contracthash, Uint256):
        contracthash = contracthash.data
    assert len(contracthash) == 32
    return Uint256(CSHA256().Write(prevout.GetHash()).Write(contracthash).Midstate())
""", """    data = contracthash.data if isinstance(contracthash, Uint256) else contracthash
    assert len(data) == 32
    block = bytearray(prevout.GetHash())
    block += data
    return Uint256(CSHA256().Write(bytes(block)).Midstate())
"""), (CORE, """    if len(entropy) != 32:
        raise ValueError('entropy must be 32 bytes in length')
    if is_confidential:
        k = Uint256.from_int(2)
    else:
        k = Uint256.from_int(1)
    return CAsset(CSHA256().Write(entropy).Write(k.data).Midstate())
""", """    if not 32 == len(entropy):
        raise ValueError('entropy must be 32 bytes in length')
    return CAsset(CSHA256().Write(entropy).Write(
        Uint256.from_int(1 + int(is_confidential)).data).Midstate())
"""))

ref('results', ['C13', 'C14', 'C20'], (CORE, """        err = self.error

        assert isinstance(err, str)
        if bool(err):
            return False

        return True
""", """        assert isinstance(self.error, str)
        return len(self.error) == 0
"""), (CORE, """        raise TypeError(
            'Using {} as boolean is not corect usage. '
            'please use {}.error or {}.ok'.format(
                self.__class__.__name__, self.__class__.__name__,
                self.__class__.__name__))
""", """        name = type(self).__name__
        raise TypeError(
            f'Using {name} as boolean is not corect usage. '
            f'please use {name}.error or {name}.ok')
"""), (CORE, """        assert all(isinstance(bf, Uint256) for bf in self.blinding_factors)
        assert all(isinstance(bf, Uint256) for bf in self.asset_blinding_factors)
        super(BlindingSuccess, self).__init__()
""", """        for factors in (self.blinding_factors, self.asset_blinding_factors):
            for factor in factors:
                assert isinstance(factor, Uint256)
        super().__init__()
"""), (CORE, """        return BlindingInputDescriptor(
            asset=self.asset, amount=self.amount,
            blinding_factor=self.blinding_factor,
            asset_blinding_factor=self.asset_blinding_factor)
""", """        return BlindingInputDescriptor(
            self.amount and self.asset or self.asset, self.amount,
            self.blinding_factor, self.asset_blinding_factor)
""" if False else """        fields = self._asdict()
        return BlindingInputDescriptor(**fields)
"""))

ref('derive', ['C18'], (CORE, """    return CKey(hmac.new(blinding_derivation_key.secret_bytes, script,
                         hashlib.sha256).digest())
""", """    mac = hmac.new(blinding_derivation_key.secret_bytes, digestmod=hashlib.sha256)
    mac.update(script)
    return CKey(mac.digest())
"""), (CORE, """    if isinstance(script, CScript) and not isinstance(script, CElementsScript):
        raise TypeError(
            f'script is expected to be CElementsScript, but is {script.__class__.__name__}')
    else:
        ensure_isinstance(script, (bytes, bytearray),
                          'script that is not an instance of CScript')
""", """    if not isinstance(script, CElementsScript):
        if isinstance(script, CScript):
            raise TypeError(
                f'script is expected to be CElementsScript, but is {type(script).__name__}')
        ensure_isinstance(script, (bytes, bytearray),
                          'script that is not an instance of CScript')
"""))

ref('surjection', ['C12', 'C15'], (CORE, """    nInputsToSelect = min(3, len(surjectionTargets))
    randseed = _rand_func(32)

    input_index = ctypes.c_size_t()
    proof = ctypes.c_void_p()
""", """    num_targets = len(surjectionTargets)
    nInputsToSelect = 3 if num_targets > 3 else num_targets
    asset_blind = assetblinds[-1]
    randseed = _rand_func(32)

    proof = ctypes.c_void_p()
    input_index = ctypes.c_size_t()
"""), (CORE, """        build_aligned_data_array([st.data for st in surjectionTargets], 32),
        len(surjectionTargets),
        nInputsToSelect, asset.data, 100, randseed)

    if ret == 0:
        # probably asset did not match any surjectionTargets
        return None
""", """        build_aligned_data_array(list(map(lambda st: st.data, surjectionTargets)), 32),
        num_targets,
        nInputsToSelect, asset.data, 100, randseed)

    if not ret:
        # probably asset did not match any surjectionTargets
        return None
"""), (CORE, """            gen, input_index, targetAssetBlinders[input_index.value].data, assetblinds[-1].data)
""", """            gen, input_index, targetAssetBlinders[input_index.value].data, asset_blind.data)
"""), (CORE, """    ecdh_result = ephemeral_key.ECDH(output_pubkey)
    nonce = Uint256(hashlib.sha256(ecdh_result).digest())
    return nonce, ephemeral_pubkey
""", """    hasher = hashlib.sha256()
    hasher.update(ephemeral_key.ECDH(output_pubkey))
    return Uint256(hasher.digest()), ephemeral_pubkey
"""))

ref('zkp', ['C15', 'C21'], (ZKP, """    lib.secp256k1_generator_parse.restype = ctypes.c_int
    lib.secp256k1_generator_parse.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p]
    lib.secp256k1_generator_generate.restype = ctypes.c_int
    lib.secp256k1_generator_generate.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p]
""", """    for name in ('secp256k1_generator_parse', 'secp256k1_generator_generate'):
        fun = getattr(lib, name)
        fun.restype = ctypes.c_int
        fun.argtypes = [ctypes.c_void_p] + [ctypes.c_char_p] * 2
"""), (ZKP, """    buf = b''.join(data_list)
""", """    buf = bytes()
    for item in data_list:
        buf += item
"""))

ref('sizes', ['C19'], (WALLET, """        dummy_commitment = b'\\x00'*CConfidentialCommitmentBase._committedSize
        txo = CElementsTxOut(scriptPubKey=inst.to_scriptPubKey(),
                             nValue=CConfidentialValue(dummy_commitment),
                             nAsset=CConfidentialAsset(dummy_commitment),
                             nNonce=CConfidentialNonce(dummy_commitment))
        f = BytesIO()
        txo.stream_serialize(f)
        return len(f.getbuffer())
""", """        dummy_commitment = bytes(CConfidentialCommitmentBase._committedSize)
        script = inst.to_scriptPubKey()
        txo = CElementsTxOut(CConfidentialValue(dummy_commitment), script,
                             CConfidentialAsset(dummy_commitment),
                             CConfidentialNonce(dummy_commitment))
        return len(txo.serialize())
"""))
REFS['assets'][0].append('C08')


# less common constructs
ref('v0-exotic', ['C04'], (SCRIPT, """def RawElementsSignatureHash(
""", """_U32 = struct.Struct('<I')


def _issuance_or_zero(txin: 'elementstx.core.CElementsTxIn') -> bytes:
    issuance = txin.assetIssuance
    return b'\\x00' if issuance.is_null() else issuance.serialize()


def _hash_concat(parts: Sequence[bytes]) -> bytes:
    total = b''
    for part in parts:
        total += part
    return Hash(total)


def RawElementsSignatureHash(
"""), (SCRIPT, """        serialize_prevouts = bytes()
        serialize_issuance = bytes()
        for vin in txTo.vin:
            serialize_prevouts += vin.prevout.serialize()
            if vin.assetIssuance.is_null():
                serialize_issuance += b'\\x00'
            else:
                serialize_issuance += vin.assetIssuance.serialize()
        hashPrevouts = Hash(serialize_prevouts)
        hashIssuance = Hash(serialize_issuance)
""", """        hashPrevouts = _hash_concat(vin.prevout.serialize() for vin in txTo.vin)
        hashIssuance = _hash_concat(map(_issuance_or_zero, txTo.vin))
"""), (SCRIPT, """            serialize_sequence += struct.pack("<I", i.nSequence)
""", """            serialize_sequence += _U32.pack(i.nSequence)
"""), (SCRIPT, """    if ((hashtype & 0x1f) != SIGHASH_SINGLE and (hashtype & 0x1f) != SIGHASH_NONE):
        serialize_outputs = bytes()
""", """    if (base := hashtype & 0x1f) != SIGHASH_SINGLE and base != SIGHASH_NONE:
        serialize_outputs = bytes()
"""))

ref('tap-exotic', ['C06'], (SCRIPT, """        for inp_i, txin in enumerate(txTo.vin):
            outpoints_flag_hashobj.update(get_outpoint_flag(txin))
            prevouts_hashobj.update(txin.prevout.serialize())
            sequences_hashobj.update(struct.pack('<I', txin.nSequence))
            if txin.assetIssuance.is_null():
                issuances_hashobj.update(b'\\x00')
            else:
                issuances_hashobj.update(txin.assetIssuance.serialize())

            inwit = get_inwit(inp_i)
            issuance""", """        inp_i = 0
        while inp_i < len(txTo.vin):
            txin = txTo.vin[inp_i]
            outpoints_flag_hashobj.update(get_outpoint_flag(txin))
            prevouts_hashobj.update(txin.prevout.serialize())
            sequences_hashobj.update(struct.pack('<I', txin.nSequence))
            issuances_hashobj.update(
                b'\\x00' if txin.assetIssuance.is_null()
                else txin.assetIssuance.serialize())

            inwit = get_inwit(inp_i)
            inp_i += 1
            issuance"""), (SCRIPT, """        for outp_i, txout in enumerate(txTo.vout):
            outputs_hashobj.update(txout.serialize())
            output_witnesses_hashobj.update(
                get_outwit(outp_i).serialize())
""", """        for txout, outwit in zip(txTo.vout, map(get_outwit, range(len(txTo.vout)))):
            outputs_hashobj.update(txout.serialize())
            output_witnesses_hashobj.update(outwit.serialize())
"""))

ref('blind-exotic', ['C12', 'C13'], (CORE, """    for i, idesc in enumerate(input_descriptors):
        ensure_isinstance(idesc.blinding_factor, Uint256,
                          f'blinding_factor of input descriptor {i}')
        ensure_isinstance(idesc.asset_blinding_factor, Uint256,
                          f'asset_blinding_factor of input descriptor {i}')
        ensure_isinstance(idesc.asset, CAsset,
                          f'asset of input descriptor {i}')
        ensure_isinstance(idesc.amount, int, f'amount of input descriptor {i}')
""", """    for i, idesc in enumerate(input_descriptors):
        for field, typ in (('blinding_factor', Uint256),
                           ('asset_blinding_factor', Uint256),
                           ('asset', CAsset), ('amount', int)):
            ensure_isinstance(getattr(idesc, field), typ,
                              f'{field} of input descriptor {i}')
"""), (CORE, """        if (
            not input_descriptors[nIn].blinding_factor.is_null()
            or not input_descriptors[nIn].asset_blinding_factor.is_null()
        ):
            if input_descriptors[nIn].amount < 0:
""", """        idesc = input_descriptors[nIn]
        if not (idesc.blinding_factor.is_null()
                and idesc.asset_blinding_factor.is_null()):
            if not idesc.amount >= 0:
"""), (CORE, """    surjectionTargets_filled: List[Uint256] = []
    for st in surjectionTargets[:totalTargets]:
        assert st is not None
        surjectionTargets_filled.append(st)
""", """    surjectionTargets_filled: List[Uint256] = [
        st for st in surjectionTargets[:totalTargets] if st is not None]
    assert len(surjectionTargets_filled) == totalTargets
"""))


def run(name):
    checks, edits = REFS[name]
    d = '/tmp/rf.' + name
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', d])
    for f, a, b in edits:
        s = open(d + '/' + f).read()
        assert s.count(a) == 1, (name, s.count(a), a)
        open(d + '/' + f, 'w').write(s.replace(a, b))
    t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'elementstx/tests'], cwd=d, capture_output=True, text=True)
    print('%-16s tests: %s' % (name, (t.stdout or t.stderr or "none").strip().splitlines()[-1]), flush=True)
    for c in checks:
        t = time.time()
        r = subprocess.run([sys.executable, 'check.py', c], cwd=V, env=dict(os.environ, PV_REPO=d, VERIF_SEED='1', VERIF_TIER='quick'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print('%-16s %s %s %3.0f s %s' % (name, c, 'quiet' if r.returncode == 0 else 'ALARM exit %d' % r.returncode, time.time() - t,
                                          '' if r.returncode == 0 else r.stdout[-700:]), flush=True)
    shutil.rmtree(d)


if __name__ == '__main__':
    a = sys.argv[1:]
    j = 1
    if a and a[0] == '-j':
        j = int(a[1]); a = a[2:]
    shutil.rmtree(V, ignore_errors=True)
    shutil.copytree(R, V, ignore=shutil.ignore_patterns('.git', 'seeded', '__pycache__'))
    with ThreadPoolExecutor(j) as ex:
        list(ex.map(run, a or list(REFS)))
