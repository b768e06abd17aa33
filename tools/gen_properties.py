#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program only so that the long
strings stay reviewable)."""
import json, os

CORE = 'elementstx/core/__init__.py'
SCR = 'elementstx/core/script.py'
SECP = 'elementstx/core/secp256k1.py'
WAL = 'elementstx/wallet.py'
BL = 'elementstx/blech32.py'
LA = 'elementstx/liquid_addr.py'
INI = 'elementstx/__init__.py'

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(name=n, meaning=m, where=w) for n, m, w in state],
            'mechanism': [dict(name=n, where=w) for n, w in mech],
            'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'Transaction serialization round trip',
     'Serializing any well-formed Elements transaction (mutable or immutable, with or without witness data, with any mix of '
     'explicit, null and committed values, issuances and peg-ins) produces exactly the Elements wire encoding of its fields, and deserializing '
     'those bytes consumes all of them and yields a transaction equal in every field. '
     'Witness entries that are missing for some inputs or outputs are encoded as empty ones, so that every serialization can be parsed back.',
     ['inputs'],
     'every number of inputs, outputs and witness items, every field value in its type range; well-formed means: commitments are null, explicit or carry their own '
     'commitment prefix, previous-output indexes fit in 30 bits (0xffffffff only for inputs without issuance or peg-in mark), an index of 0x3fffffff is not combined with both marks, every sequence is below the 32 MiB size limit',
     'The tests round-trip a handful of recorded transactions; lengths, flag combinations, boundary integers and witness shapes are unbounded.',
     [CORE],
     [('CElementsTransaction.stream_serialize / stream_deserialize', CORE + ':1066-1133'),
      ('CElementsTxIn.stream_serialize / stream_deserialize', CORE + ':839-905'),
      ('CElementsTxOut, CAssetIssuance, CElementsTxWitness, CElementsTxInWitness, CElementsTxOutWitness (de)serializers', CORE + ':449-1000'),
      ('CConfidentialCommitmentBase.stream_serialize / stream_deserialize', CORE + ':233-262')],
     ['tx.serialize()', 'CElementsTransaction.deserialize(bytes)'])

prop('C02', 'Only canonical transaction encodings are accepted',
     'If a byte string is accepted as a complete transaction, then serializing the resulting transaction gives back exactly the same bytes. '
     'Truncated input, trailing bytes, unknown optional-data flags, unknown commitment prefixes, over-long length encodings, an all-empty witness record and '
     'an issuance record without any amount are rejected with an exception and never yield a transaction.',
     ['inputs'],
     'every byte string of any length presented to the transaction parser (and to the parsers of its parts)',
     'Tests only parse valid recorded transactions and a few malformed ones; the set of malformed byte strings is unbounded.',
     [CORE],
     [('CElementsTransaction.stream_deserialize', CORE + ':1066-1105'),
      ('CElementsTxIn.stream_deserialize', CORE + ':839-869'),
      ('CConfidentialCommitmentBase.stream_deserialize', CORE + ':233-255'),
      ('CElementsTxWitness.stream_deserialize', CORE + ':664-687')],
     ['CElementsTransaction.deserialize(bytes)', 'tx.serialize()'])

prop('C03', 'Transaction id commits to everything but the witness',
     'The transaction id is the double SHA-256 of the witness-free serialization (flag byte zero), so it is the same for two transactions that differ only in witness data and '
     'covers version, lock time and every input and output field. '
     'The full hash is the double SHA-256 of the complete serialization, and counting issuances counts each non-null issuance amount and each non-null reissuance-token amount exactly once.',
     ['inputs'],
     'every transaction, mutable or immutable, with or without witness data',
     'Tests compare the txid of recorded transactions only.',
     [CORE],
     [('CElementsTransaction.stream_serialize(include_witness=False)', CORE + ':1107-1133'),
      ('CElementsTransaction.num_issuances', CORE + ':1135-1145'),
      ('CElementsTxWitness.is_null', CORE + ':654-662')],
     ['tx.GetTxid()', 'tx.GetHash()', 'tx.num_issuances'])

prop('C04', 'Segwit v0 signature hash commits exactly as specified',
     'For every transaction, input index, script, confidential amount and hash type the segwit v0 signature hash is the double SHA-256 of the Elements preimage: version, hash of previous outputs, hash of sequences, hash of issuances, '
     'spent outpoint, script, confidential amount, sequence, the input\'s issuance if present, hash of outputs, lock time and hash type, with the components excluded by ANYONECANPAY, NONE and SINGLE zeroed exactly as specified. '
     'It never depends on witness data, on script signatures or on peg-in marks, and any lock time and sequence in the 32-bit range is usable.',
     ['inputs'],
     'every transaction shape, every 32-bit hash type, every input index, every amount form',
     'Tests verify a few recorded signatures; hash-type, index, issuance and integer-boundary combinations are not sampled.',
     [SCR], [('RawElementsSignatureHash', SCR + ':112-196'), ('CElementsScript.sighash / raw_sighash', SCR + ':404-440')],
     ['CElementsScript.sighash(..., sigversion=SIGVERSION_WITNESS_V0)'])

prop('C05', 'Legacy signature hash uses the Elements transaction form',
     'For the base signature version the signature hash is the Bitcoin legacy algorithm applied to the Elements transaction serialized without optional-data flag, without witness data and without issuance or peg-in bits in the outpoint index, '
     'while issuance data itself stays part of the serialized inputs. The amount argument has no influence, an unsupported signature version is rejected, and an out-of-range index or SINGLE without matching output is reported as an error by the checked interface.',
     ['inputs'],
     'every transaction, index, script and hash type',
     'Tests check a few recorded legacy signatures only.',
     [SCR, CORE], [('RawElementsSignatureHash', SCR + ':132-137'), ('stream_serialize(for_sighash=True)', CORE + ':871-894,1107-1133')],
     ['CElementsScript.sighash(..., sigversion=SIGVERSION_BASE)', 'tx.serialize(for_sighash=True)'])

prop('C06', 'Taproot and tapscript signature hash commits exactly as specified',
     'The taproot signature hash is the Elements tagged hash over twice the genesis block hash followed by the exact BIP341/342 message as extended by Elements (outpoint flags, spent assets and amounts, issuances, issuance range proofs, output witnesses, annex and tapleaf data), for every hash type and input. '
     'Variable-length items are always length-prefixed and fixed-size hashes never are, so distinct signed data never yield the same message. '
     'Out-of-range indexes, mismatched spent-output counts and malformed hashes are rejected with a ValueError, and a transaction without witness data is treated as having empty witnesses.',
     ['inputs'],
     'every transaction shape, every valid hash type or default, every input index, key-path and script-path, with and without annex',
     'No test exercises this function at all.',
     [SCR], [('ElementsSignatureHashSchnorr', SCR + ':199-397'), ('CElementsScript.sighash_schnorr', SCR + ':446-476')],
     ['ElementsSignatureHashSchnorr(...)', 'CElementsScript.sighash_schnorr(...)'])

prop('C07', 'Confidential fields are unambiguous and faithful',
     'A value, asset or nonce field is exactly one of null, explicit or committed whenever it is valid, and converting an amount or asset into a field and back returns the same amount or asset. '
     'Construction accepts only the permitted lengths and types, conversion to an explicit amount or asset fails with TypeError on anything not explicit, and serialization followed by deserialization of a valid field returns an equal field.',
     ['inputs'],
     'every 64-bit amount, every asset, every byte string given as commitment',
     'Tests construct a few values; all prefixes, lengths and 64-bit amounts are not sampled.',
     [CORE], [('CConfidentialCommitmentBase', CORE + ':213-301'), ('CConfidentialValue / CConfidentialAsset / CConfidentialNonce', CORE + ':325-398')],
     ['CConfidentialValue(...)', 'CConfidentialAsset(...)', 'CConfidentialNonce(...)'])

prop('C08', 'Asset and reissuance token ids follow the issuance commitments',
     'Issuance entropy is the SHA-256 midstate of the double-SHA-256 of the spent outpoint and the contract hash; the asset id is the midstate of entropy and 32 zero bytes; the reissuance token id is the midstate of entropy and the little-endian number 1 for explicit or 2 for confidential issuances. '
     'The result is the same whether the 32-byte argument is given as bytes, bytearray or 256-bit number object, and arguments of any other length or type are rejected.',
     ['inputs'],
     'every outpoint, contract hash and entropy',
     'Tests check one or two recorded issuances.',
     [CORE], [('generate_asset_entropy', CORE + ':1737-1747'), ('calculate_asset', CORE + ':1750-1756'), ('calculate_reissuance_token', CORE + ':1759-1771')],
     ['generate_asset_entropy()', 'calculate_asset()', 'calculate_reissuance_token()'])

prop('C09', 'Blech32 strings are canonical, checked and reversible',
     'Encoding a witness version and program as blech32 and decoding the string returns the same version and program, and every accepted string is, up to letter case, the encoding of what it decodes to. '
     'Strings with mixed case, characters outside the alphabet, a wrong prefix, a failing checksum, the wrong checksum variant for the version, non-zero padding or a disallowed program length are rejected, so any single-character substitution in the data part of a valid string is rejected. ',
     ['inputs'],
     'every prefix used by the library, every witness version 0-16, every program of an allowed length, every candidate string of address size',
     'Tests decode a list of fixed addresses.',
     [LA, BL], [('blech32_polymod / create_checksum / verify_checksum', LA + ':47-88'), ('blech32_decode / blech32_encode', LA + ':91-114'), ('convertbits', LA + ':117-139'), ('encode / decode', LA + ':142-177')],
     ['elementstx.liquid_addr.encode/decode', 'CBlech32Data'])

prop('C10', 'Confidential address conversion is lossless and type-safe',
     'Combining an unconfidential address with a valid blinding public key gives a confidential address of the matching type on the same chain from which exactly that key and that address are recovered, and both pay to the same script and have the same redeem script. '
     'Mismatched address types, addresses of another chain and invalid blinding keys are rejected, and a confidential address cannot be made from a script alone.',
     ['inputs'],
     'every payload and key, every pair of address classes of both chains',
     'Tests convert a few fixed addresses.',
     [WAL], [('CCoinConfidentialAddress.from_unconfidential / to_unconfidential / blinding_pubkey / to_scriptPubKey / to_redeemScript', WAL + ':66-177')],
     ['from_unconfidential()', 'to_unconfidential()', 'blinding_pubkey', 'to_scriptPubKey()', 'to_redeemScript()'])

prop('C11', 'Address strings identify one chain and one address type',
     'The string form of every address parses back, under the same chain parameters, to an equal address of the same class. '
     'No address string of one chain is accepted under the parameters of another chain, and confidential and unconfidential forms and different address types are never confused.',
     ['inputs', 'configurations'],
     'every payload of every address class of the supported chains (Elements, Liquid v1), both the class-specific and the generic entry points',
     'Tests check a fixed address list; prefix collisions for other payloads or class pairs are not covered.',
     [WAL, BL, INI], [('base58_prefix / bech32_hrp / blech32_hrp tables', WAL + ':277-470'), ('CBlech32Data.blech32_match_progam_and_version', BL + ':68-106'), ('CBlech32DataDispatched', WAL + ':210-240')],
     ['CCoinAddress(str)', 'str(addr)'])

prop('C12', 'Successful blinding preserves the balance and returns the true factors',
     'When blinding a transaction succeeds in strict mode, the blinding factors of all blinded inputs, issuances and outputs satisfy the Pedersen balance equation, and the result lists for each output exactly the value and asset blinding factors used in its commitments (zero for outputs left unblinded). '
     'Every blinded output or issuance carries commitments, nonce and proofs computed from its own original amount, asset, script and factors; outputs and issuances not requested stay unchanged. '
     'In strict mode success implies that everything requested was blinded, and the reported count is the number of blinded items. The one exception is that of Elements Core: a last output whose balancing factor happens to be zero stays unblinded and counts as blinded.',
     ['inputs', 'configurations'],
     'every transaction, set of input descriptors, output keys, issuance keys and randomness (relative to the documented contracts of libsecp256k1-zkp)',
     'The zkp library is optional and absent in the stable test run; even with it only recorded transactions are tried.',
     [CORE], [('blind_transaction', CORE + ':1187-1734'), ('blinded_asset / create_value_commitment', CORE + ':1774-1826'), ('generate_rangeproof', CORE + ':1829-1900'), ('generate_surjectionproof', CORE + ':1919-1990')],
     ['tx.blind(...)'])

prop('C13', 'Refused blinding is reported and leaves the transaction unchanged',
     'Blinding refuses inconsistent requests (wrong argument counts or types, unknown input asset without generator, non-explicit values, already present proofs, fee outputs, invalid keys, negative input amounts) by raising ValueError or TypeError or by returning a failure result, never by reporting success. '
     'Whenever such a request is refused, the transaction, including its witness, is exactly as it was before the call.',
     ['inputs'],
     'every combination of invalid arguments',
     'No test in the stable run reaches the checks, since the zkp library is absent.',
     [CORE], [('argument checks of blind_transaction', CORE + ':1203-1284'), ('pre-blinding checks', CORE + ':1425-1497')],
     ['tx.blind(...)'])

prop('C14', 'Unblinding returns only data proven by the commitments',
     'Unblinding succeeds only when the range proof rewinds with the shared nonce and script against the given commitments, the asset and factor from the proof reproduce the asset commitment and the amount is within the money range; it then returns exactly the rewound amount, factors and asset. '
     'Every other case (empty proof, invalid nonce, unparsable commitments, explicit value, wrong key, wrong message size, mismatching asset) gives a failure result and not an exception. '
     'With a null nonce the blinding key itself is used and no script is committed.',
     ['inputs'],
     'every output, key and proof (relative to the documented contracts of libsecp256k1-zkp)',
     'The zkp library is absent in the stable test run.',
     [CORE], [('unblind_confidential_pair', CORE + ':1993-2117'), ('CElementsTxOut.unblind_confidential_pair', CORE + ':999-1019')],
     ['txout.unblind_confidential_pair(...)'])

prop('C15', 'Commitment and proof primitives pass exactly the documented data to the library',
     'Each commitment, range proof, surjection proof and nonce is computed by passing to libsecp256k1-zkp exactly the amount, asset, blinding factors, generator, nonce, committed script and side-channel message (asset id followed by asset factor) it stands for, with the lengths the library expects and minimum value zero only for unspendable scripts. '
     'A blinded output can therefore be unblinded by the holder of the blinding key, and a library failure is raised or reported and never yields a result; native resources are released on every path.',
     ['inputs', 'fault_sequences'],
     'every argument value and every outcome (success or failure) of each library call',
     'The zkp library is absent in the stable test run, so none of these lines is executed.',
     [CORE, SECP], [('blinded_asset / create_value_commitment / generate_rangeproof / generate_output_rangeproof_nonce / generate_surjectionproof', CORE + ':1774-1990'), ('build_aligned_data_array', SECP + ':194-206'), ('_set_zkp_func_types', SECP + ':82-192'), ('get_rangeproof_info', CORE + ':566-590')],
     ['generate_rangeproof()', 'generate_surjectionproof()', 'blinded_asset()', 'create_value_commitment()'])

prop('C16', 'Immutable objects never change and conversions keep content',
     'Objects of the immutable transaction classes and confidential fields cannot be changed after construction, neither by attribute assignment nor through data passed to their constructors. '
     'Converting between mutable and immutable forms, copying, or building a transaction from parts keeps every field equal, and a mutable copy shares no mutable part with its source.',
     ['inputs', 'histories'],
     'every transaction component and every sequence of conversions, for all field values and sequence lengths',
     'Tests check attribute assignment on a few objects and no aliasing through constructor arguments.',
     [CORE], [('from_instance / to_mutable / to_immutable of each class', CORE + ':480-1055'), ('constructors', CORE + ':437-475,548-555,630-651,806-822,931-953')],
     ['to_mutable()', 'to_immutable()', 'clone()', 'constructors'])

prop('C17', 'Peg-out scripts are recognised exactly',
     'A script is a peg-out if and only if it starts with OP_RETURN, a push of exactly 32 bytes and a push of a non-empty script; the reported genesis hash and destination script are exactly those two pushes. '
     'The test never raises, whatever bytes the script contains, and all push encodings are treated alike.',
     ['inputs'],
     'every script byte string of any length',
     'No test covers peg-out recognition for malformed or truncated scripts.',
     [SCR], [('CElementsScript.get_pegout_data / is_pegout', SCR + ':478-520')],
     ['CElementsScript.get_pegout_data()', 'CElementsScript.is_pegout()', 'CElementsScript.is_unspendable()'])

prop('C18', 'Blinding keys are derived by HMAC-SHA256 of the script',
     'The blinding key derived for a script is the secret HMAC-SHA256(derivation key, script bytes), independent of whether the script is given as an Elements script, bytes or bytearray. '
     'Scripts of a foreign chain class, other argument types and non-key derivation keys are rejected, and the per-script method gives the same key as the function.',
     ['inputs'],
     'every key and script', 'Tests derive a few fixed keys.',
     [CORE, SCR], [('derive_blinding_key', CORE + ':2120-2136'), ('CElementsScript.derive_blinding_key', SCR + ':393-395')],
     ['derive_blinding_key()', 'CElementsScript.derive_blinding_key()'])

prop('C19', 'Reported output sizes equal real serialized sizes',
     'The output size reported for an address (class or instance) equals the number of bytes of a serialized output paying to it: with 33-byte committed value, asset and nonce for confidential addresses, and with explicit 9-byte value and null asset and nonce for unconfidential ones. '
     'Classes without a fixed payload length refuse to report a size.',
     ['inputs', 'configurations'],
     'every address class of both chains and every payload', 'Tests check fixed numbers for some classes.',
     [WAL], [('get_output_size', WAL + ':179-200,256-272')],
     ['get_output_size()'])

prop('C20', 'Results of blinding and unblinding cannot be misread',
     'A blinding or unblinding result is ok exactly when its error text is empty, a failure always carries a non-empty error text, and using a result as a truth value raises TypeError. '
     'An unblinding success converts into an input descriptor with the same asset, amount and factors, and success results reject fields of the wrong type or amounts outside the money range.',
     ['inputs'],
     'every error text, amount, asset and factor', 'Tests never construct these results directly.',
     [CORE], [('BlindingOrUnblindingResult and subclasses', CORE + ':92-182')],
     ['result.ok', 'result.error', 'bool(result)', 'get_descriptor()'])

prop('C21', 'Native function declarations match the library interface',
     'Every libsecp256k1-zkp function used is declared with the number, order and width of arguments and the result type of its C prototype before it can be called, and the zkp capability is reported exactly when the library provides the range-proof functions. '
     'Arrays passed to the library hold exactly the stated number of fixed-size elements, and a request that needs a missing capability is refused instead of calling into the library; a configured library path is used only if it names an existing file.',
     ['configurations', 'inputs'],
     'every declared function; library with and without zkp support; every element count and size',
     'The zkp branch is never executed in the stable test run.',
     [SECP, INI, CORE], [('_set_zkp_func_types', SECP + ':82-192'), ('get_secp256k1', SECP + ':52-79'), ('build_aligned_data_array', SECP + ':194-206'), ('set_custom_secp256k1_path', INI + ':45-62')],
     ['get_secp256k1()', 'build_aligned_data_array()', 'set_custom_secp256k1_path()'])

prop('C22', 'Chain constants and opcodes are those of Elements',
     'The Elements opcodes have pairwise distinct byte values equal to those of Elements Core, and the tagged-hash domains, tapscript leaf version, commitment prefixes, outpoint flag bits and chain parameters (ports, data directory, network id) have the values fixed by Elements. '
     'Selecting chain parameters by name makes the transaction and address classes of exactly that chain active.',
     ['configurations'],
     'every opcode, every constant and every supported chain name',
     'Tests use only a few of the constants.',
     [SCR, CORE, INI], [('opcode table', SCR + ':43-104'), ('CoreElementsParams', CORE + ':193-203'), ('ElementsParams / ElementsLiquidV1Params', INI + ':22-42')],
     ['elementstx.core.script.OP_*', 'select_chain_params()'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
