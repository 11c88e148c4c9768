#!/usr/bin/env python3
"""Writes ../properties.jsonl"""
import json, os
PM = 'lib/python-proofmarshal/proofmarshal/'
BL = 'lib/python-bitcoinlib/bitcoin/'
PC = 'proofchains/core/'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over, 'text': ' '.join(text.split())},
              'why_tests_cant': ' '.join(why.split()),
              'anchors': {'files': files, 'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                          'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'A Merkle mountain range is an immutable, append-only list',
     '''A Merkle mountain range holds exactly the values appended to it, in order: length, indexing (positive and
     negative), forward and reverse iteration and contiguous slicing agree with the plain list of those values, and
     out-of-range indexes raise IndexError. Appending or extending returns a new range and never changes what any
     previously obtained range, prefix or slice contains or commits to.''',
     ['histories', 'inputs'],
     '''every sequence of append/extend/slice/index/iterate operations over any set of live ranges, at every length and
     every index and slice bound (including bounds far outside the range)''',
     '''The tests append a handful of values and index some positions; they slice only small lists and never look at an
     older range again after it was extended, so which lengths, slice bounds and histories work is open.''',
     [PM + 'mmr.py', PM + 'proof.py'],
     [('append/_merge_trees', PM + 'mmr.py'), ('__getitem__ of empty, leaf and inner nodes', PM + 'mmr.py')],
     [('tree', 'nodes with left, right and total length', PM + 'mmr.py')],
     ['len()', '[]', 'iter()', 'reversed()', 'append()', 'extend()'])

prop('C02', 'The mountain range commitment is the documented function of the list',
     '''The hash of a Merkle mountain range depends only on the list of values it holds, however it was built (one by one
     appends, extend, slicing, deserializing), and equals the documented recursive construction in which every inner
     node commits to the number of values under it. Ranges holding different lists have different hashes, and older
     mountains are never rehashed: a perfect subtree of a range stays a subtree of every range grown from it.''',
     ['histories', 'inputs'],
     'every list of values and every sequence of operations that arrives at it, including every length across powers of two',
     '''The tests compare structure for a few lengths; they fix no hash values over lengths and cannot cover all ways of
     building the same list.''',
     [PM + 'mmr.py', PM + 'proof.py', PM + 'serialize.py'],
     [('append/_merge_trees', PM + 'mmr.py'), ('calc_hash/calc_data_hash', PM + 'proof.py'), ('HashTag.derive', PM + 'serialize.py')],
     [('data_hash, hash', 'commitment of a node', PM + 'proof.py')],
     ['.hash', '.data_hash', '.left/.right/.length'])

prop('C03', 'A pruned proof reveals exactly what was used, and keeps the commitment',
     '''Pruning a proof never changes the hash of that proof or of anything in it, leaves the original untouched, and
     evaluating any statement on the pruned copy gives the same result as on the original. After serializing and
     deserializing a pruned copy, exactly the attributes of the nodes that were visited are available with their
     original values, everything else raises PrunedError, the hash is still the original's, and re-evaluating the
     same statement succeeds without needing anything that was pruned. Pruning flags (pruned, fully pruned) tell the
     truth, also for pruned copies of pruned copies and for proofs nested in unions or held as fields.''',
     ['histories', 'inputs'],
     '''every proof graph (any mix of plain, variant and union-typed children), every order of attribute accesses, every
     interleaving of prune, access, hash and (de)serialize steps over several live copies''',
     '''The tests access a few attributes of a two-level proof in one order; which nodes a partially pruned copy reveals
     depends on the whole history of accesses.''',
     [PM + 'proof.py'],
     [('prune/__getattr__', PM + 'proof.py'), ('ctx_serialize/_ctx_serialize_pruned', PM + 'proof.py')],
     [('is_pruned, is_fully_pruned, __orig_instance', 'pruning state of a node', PM + 'proof.py')],
     ['attribute access', 'serialize()', 'deserialize()', 'is_pruned', 'is_fully_pruned', 'hash'])

prop('C04', 'No two proofs with the same commitment contradict each other',
     '''Any two proof objects with the same hash, whether honestly built, pruned, or forged by deserializing attacker
     chosen bytes, never give different answers to the same statement: element at an index, list length, value of a key,
     absence of a key, or value of a field. A statement that a proof cannot support raises an error instead of
     returning an answer.''',
     ['inputs', 'histories'],
     '''every pair of partial proofs of mountain ranges and key-value trees with equal hash, including inner nodes claiming
     arbitrary lengths, prefixes, child variants and children''',
     '''No test deserializes a forged structure; the statement is about all adversarial inputs with a given commitment.''',
     [PM + 'mmr.py', PM + 'merbinnertree.py', PM + 'proof.py'],
     [('length and prefix committed by every inner node', PM + 'mmr.py'), ('variant hash tags', PM + 'proof.py')],
     [], ['len()', '[]', 'deserialize()'])

prop('C05', 'A Merbinner tree is a persistent map keyed by bit strings',
     '''A Merbinner tree behaves as an immutable map: put adds or replaces one binding, remove deletes one, and lookup,
     size, items, keys and values (in key order) and subset comparison all agree with the map of
     bindings put so far. Every operation leaves all previously obtained trees unchanged; looking up or removing a missing key
     raises KeyError and changes nothing.''',
     ['histories', 'inputs'],
     '''every sequence of put/remove/lookup operations over any live trees and any prefix-free key set, in every
     insertion order, including keys that share long common prefixes''',
     '''The tests insert a few keys in fixed orders; replacement, removal down to empty and persistence of older trees are
     properties of all histories.''',
     [PM + 'merbinnertree.py', PM + 'bits.py'],
     [('put/remove/get of empty, leaf and inner nodes', PM + 'merbinnertree.py')],
     [('prefix, left, right', 'radix tree nodes', PM + 'merbinnertree.py')],
     ['put()', 'remove()', '[]', 'items()', 'keys()', 'values()', 'len()', 'issubset()'])

prop('C06', 'The Merbinner commitment is a function of the set of bindings alone',
     '''Two Merbinner trees over the same prefix-free key set have equal hashes exactly if they hold the same
     bindings, whatever sequence of puts and removals built them, and the hash is the documented one of the
     radix tree of those keys. Serializing and deserializing a tree gives back the same bindings and the same hash.''',
     ['histories', 'inputs'],
     'every set of bindings, every insertion and removal order',
     'The tests check one or two insertion orders of small sets; canonicity is about all orders.',
     [PM + 'merbinnertree.py', PM + 'bits.py', PM + 'proof.py'],
     [('put/remove', PM + 'merbinnertree.py'), ('calc_hash', PM + 'proof.py')],
     [], ['.hash', 'serialize()', 'deserialize()'])

prop('C07', 'Bit strings are immutable values with list semantics',
     '''A bit string behaves as the immutable sequence of its bits: construction, length, indexing, slicing,
     concatenation, inversion, prefix tests, common prefix, comparison and equality all agree with the same operation
     on the plain list of bits. Two bit strings with the same bits are equal and serialize identically no matter
     which operations or buffers they came from, and serialization round-trips and rejects anything non-canonical.''',
     ['inputs', 'histories'],
     '''all bit strings and all chains of operations building them, including lengths across byte boundaries, shared
     buffers and dirty bits after the end''',
     '''The tests use a few literals, almost all byte-aligned or built from lists; stale tail bits and shared buffers only
     show up in chains of operations.''',
     [PM + 'bits.py'],
     [('tail masking', PM + 'bits.py'), ('__add__ bit shifting', PM + 'bits.py'), ('common_prefix', PM + 'bits.py')],
     [('length, buf', 'bits and the buffer they live in', PM + 'bits.py')],
     ['all operators of Bits', 'BitsSerializer'])

prop('C08', 'Proof serialization is canonical and decoding is total',
     '''Every value has exactly one serialized form, decoding it gives back an equal value, and encoding what was decoded gives
     back the same bytes. Decoding arbitrary bytes either returns a value within the declared type's limits or raises
     a deserialization error: truncated, over-long, out-of-range, non-minimal, trailing or unknown-variant input is
     never accepted and never fails in any other way.''',
     ['inputs'],
     '''all values of every serializer (booleans, unsigned integers of each width, fixed and variable bytes, bits, proofs,
     variants, unions) and all byte strings given to every decoder''',
     'The tests decode a fixed table of byte strings per type.',
     [PM + 'serialize.py', PM + 'bits.py', PM + 'proof.py'],
     [('read_*/write_* of the stream contexts', PM + 'serialize.py'), ('check_instance', PM + 'serialize.py')],
     [], ['serialize()', 'deserialize()', 'check_instance()'])

prop('C09', 'Hashes commit to type, variant and every field',
     '''The hash of a proof object is the tagged SHA-256 of its fields' serializations and child hashes, so it
     changes whenever any field, child, variant or class tag changes, and is equal for structurally equal objects.
     Equality and Python hashing of proof objects follow the commitment, objects are immutable, and derived hash tags
     never coincide with each other or with their base tag.''',
     ['inputs', 'histories'],
     'all classes with all field layouts, all field values, all derivation chains of tags',
     'The tests compare a few fixed digests.',
     [PM + 'proof.py', PM + 'serialize.py', PC + 'bitcoin.py'],
     [('calc_data_hash/calc_hash', PM + 'proof.py'), ('HashTag', PM + 'serialize.py'), ('declare_variant', PM + 'proof.py')],
     [('HASHTAG', 'domain separation tag of a class', PM + 'proof.py')],
     ['.hash', '.data_hash', '==', 'hash()'])

prop('C10', 'A single-use seal is closed over at most one digest, and only by its outpoint',
     '''A witness is accepted for a bitcoin seal and digest exactly if its transaction spends the sealed outpoint
     and its first output commits to that very digest by one of the three documented methods. Hence, given
     that an outpoint is spent at most once, no two different digests are ever both accepted as what one seal was closed
     over. Witnesses keep their verdict through serialization and pruning, and are written in their one fixed form.''',
     ['histories', 'inputs'],
     '''all seals, digests, transactions (any number and order of inputs and outputs, any output scripts), all witnesses
     assembled from them, and all single-spend histories''',
     '''The tests never verify a seal witness; whether a wrong combination is rejected is a statement about all inputs.''',
     [PC + 'uniquebits/singleuseseal.py', 'proofchains/uniquebits/singleuseseal.py', PC + 'bitcoin.py'],
     [('BitcoinSealWitness.verify/verify_hash', PC + 'uniquebits/singleuseseal.py'),
      ('make_close_seal_tx_template', 'proofchains/uniquebits/singleuseseal.py')],
     [('seal, txinproof, txoutproof', 'parts of a witness', PC + 'uniquebits/singleuseseal.py')],
     ['verify()', 'verify_hash()', 'verify_digest()', 'make_close_seal_tx_template()'])

prop('C11', 'A map node verifies exactly if its seal was closed over its contents',
     '''A closed node of a globally unique map verifies exactly if its witness closes its seal over the commitment to that node's contents: the key
     and value of a leaf, or the seals of the left and right child of an inner node, in that order. Hence, a seal being closed at most once, no two
     verifying nodes with the same seal show different contents, and moving a witness to other contents never verifies. The
     verdict, the seal and the prefix of a node survive pruning and serialization, whose form is fixed.''',
     ['histories', 'inputs'],
     'all maps (any key and value types, real and fake seals), all nodes assembled from correct and incorrect parts, all pruning histories',
     'The tests build a single chain and call verify once on correct nodes; no wrong node is ever verified.',
     [PC + 'uniquebits/gumap.py', PC + 'uniquebits/singleuseseal.py'],
     [('verify of leaf and inner prefixes', PC + 'uniquebits/gumap.py'), ('verify_hash of the witnesses', PC + 'uniquebits/singleuseseal.py')],
     [('seal, witness, contents', 'node of the map', PC + 'uniquebits/gumap.py')], ['verify()', '.seal', '.prefix', '.hash'])

prop('C12', 'The seal tool creates, closes, proves and checks seals end to end',
     '''Seals made by the command line tool are for the outpoint given and each is distinct; the transaction template
     it writes closes exactly the given seals over the given digest; the witness it makes verifies for that seal and
     digest; and checking a witness succeeds for the matching seal and digest and fails for any other. A failing
     command exits non-zero and overwrites no existing seal.''',
     ['histories', 'inputs'],
     'all sequences of tool invocations over several seals, witnesses, digests and files',
     'No test runs the tool.',
     ['sus-tool.py', PC + 'uniquebits/singleuseseal.py'],
     [('subcommands', 'sus-tool.py')],
     [], ['command line, exit status, files and standard output'])

prop('C13', 'Scripts evaluate exactly as the Bitcoin script machine does',
     '''For every script and starting stack, evaluation ends with the same verdict, and on success with the same stack, as
     Bitcoin's script machine: opcode effects, conditionals, numeric encodings and limits on script, element, operation
     and stack sizes. Disabled opcodes fail even where not executed, unexecuted branches have no effect, and any failure
     surfaces as an evaluation error, never as another exception. Verifying an input runs the signature script, then the output
     script, then (for pay-to-script-hash, when enabled) the redeem script, and accepts exactly if each succeeds leaving true.''',
     ['programs', 'inputs', 'configurations'],
     'all scripts (byte strings), starting stacks, flag combinations',
     '''The JSON vectors sample a few hundred scripts and compare only the verdict, not the stack, and cannot cover combinations of
     operand values, limits and nesting.''',
     [BL + 'core/scripteval.py', BL + 'core/script.py', BL + 'core/_bignum.py'],
     [('_EvalScript', BL + 'core/scripteval.py'), ('VerifyScript', BL + 'core/scripteval.py')],
     [('stack, altstack, vfExec', 'machine state', BL + 'core/scripteval.py')],
     ['EvalScript()', 'VerifyScript()'])

prop('C14', 'Signature hashes commit to exactly what the hash type says',
     '''The signature hash of an input under a hash type is the double SHA-256 of the transaction copy Bitcoin defines
     (other inputs blanked, outputs or inputs dropped per type, code separators removed, the type appended), including the
     historical result for a single-output type without matching output and for an out-of-range input. Computing it
     never changes the transaction it is computed for.''',
     ['inputs'],
     'all transactions, input indexes, scripts and 32-bit hash types',
     'The vectors sample some hundred cases and never check that the transaction is left unchanged.',
     [BL + 'core/script.py', BL + 'core/__init__.py'],
     [('RawSignatureHash/SignatureHash/FindAndDelete', BL + 'core/script.py')],
     [], ['SignatureHash()', 'RawSignatureHash()'])

prop('C15', 'Transactions and blocks pass context-free checks exactly if well formed',
     '''The context-free checks accept a transaction, header or block exactly if it obeys Bitcoin's rules: nonempty, sizes,
     money ranges and their running sum, duplicate inputs, coinbase form and position, timestamps, proof of work
     against the compact target, signature operation count and merkle root. Merkle roots and trees are Bitcoin's
     for every number of transactions, and any rejection is a validation error.''',
     ['inputs'],
     'all transactions, headers and blocks, with any single or combined defects, at each limit and beyond',
     'The vectors contain one case per rule at most; most limits are not approached from both sides.',
     [BL + 'core/__init__.py', BL + 'core/serialize.py', BL + 'core/script.py'],
     [('CheckTransaction/CheckBlock/CheckBlockHeader/CheckProofOfWork', BL + 'core/__init__.py'),
      ('uint256_from_compact', BL + 'core/serialize.py')],
     [], ['CheckTransaction()', 'CheckBlock()', 'CheckProofOfWork()', 'calc_merkle_root()'])

prop('C16', 'Immutable transactions never change; mutable ones never alias them',
     '''An immutable outpoint, input, output or transaction never changes after construction: no operation on a mutable
     object it was made from, or on a mutable copy made of it, affects its fields, serialization or hashes. A mutable copy starts
     equal to its source, and its hash always reflects its current content.''',
     ['histories'],
     '''every sequence of constructing, copying in either direction, mutating fields and nested parts, and hashing, over
     several live objects''',
     'The tests make one copy of each kind and mutate one field; aliasing and stale hash caches depend on the history.',
     [BL + 'core/__init__.py', BL + 'core/serialize.py'],
     [('from_tx/from_txin/from_txout/from_outpoint', BL + 'core/__init__.py'), ('__make_mutable', BL + 'core/__init__.py'),
      ('ImmutableSerializable.GetHash cache', BL + 'core/serialize.py')],
     [('_cached_GetHash', 'cached hash', BL + 'core/serialize.py')],
     ['attribute access', 'GetHash()', 'serialize()', '=='])

prop('C17', 'Bitcoin data structures serialize to exactly the network format',
     '''Transactions, blocks, headers, scripts and the basic vectors and integers serialize to Bitcoin's documented byte
     format, and deserializing those bytes gives back an equal object of the same type with equal hash. Malformed bytes raise a
     serialization error: truncation, excess after the end, and sizes beyond the limit; streams are consumed exactly up to the end of
     the object.''',
     ['inputs'],
     'all field values of all structures, all byte strings and truncations',
     'The tests round-trip a few real transactions and blocks.',
     [BL + 'core/serialize.py', BL + 'core/__init__.py', BL + 'core/_bignum.py'],
     [('stream_serialize/stream_deserialize', BL + 'core/__init__.py'), ('VarIntSerializer and vectors', BL + 'core/serialize.py')],
     [], ['serialize()', 'deserialize()', 'stream_deserialize()', 'GetHash()'])

prop('C18', 'Peer-to-peer messages are framed and decoded faithfully',
     '''Every message serializes to a frame with the selected chain's magic, its command padded to twelve bytes, the payload length and
     checksum, and a payload in the network format; decoding the frame gives back an equal message of the same kind. A stream of
     frames is decoded one by one without losing or duplicating bytes, and wrong magic, checksum or truncated frames are rejected.''',
     ['inputs', 'histories', 'configurations', 'fault_sequences'],
     'all messages with all field values and protocol versions, all sequences of frames on a stream, with any corruption or truncation',
     'The tests decode a handful of captured frames and round-trip default messages.',
     [BL + 'messages.py', BL + 'net.py'],
     [('MsgSerializable.to_bytes/stream_deserialize', BL + 'messages.py'), ('CAddress/CInv/CBlockLocator', BL + 'net.py')],
     [], ['to_bytes()', 'from_bytes()', 'stream_deserialize()'])

prop('C19', 'Scripts are built, parsed and classified consistently',
     '''A script built from opcodes, integers and byte strings has the shortest encoding of each item and iterating it gives the same items
     back; raw iteration covers every byte with correct positions, and a truncated push is reported as such. Classification
     (pay-to-script-hash, push only, canonical pushes, unspendable, valid), and accurate and legacy signature-operation counts
     agree with Bitcoin's definitions on every byte string.''',
     ['inputs', 'programs'],
     'all item sequences and all byte strings, including lengths at each push-size boundary and truncated pushes',
     'The tests use a few literals per method.',
     [BL + 'core/script.py', BL + 'core/_bignum.py'],
     [('CScript.__coerce_instance/raw_iter/GetSigOpCount', BL + 'core/script.py'), ('CScriptOp.encode_op_pushdata', BL + 'core/script.py')],
     [], ['CScript()', 'iter()', 'raw_iter()', 'is_*()', 'GetSigOpCount()'])

prop('C20', 'Addresses, base58 and output scripts correspond one to one per chain',
     '''Base58 encoding and decoding are inverse and preserve leading zeros, checksummed decoding rejects every altered checksum, and invalid
     characters raise an error. For the chain selected, an address string, its hash and kind, and its output script determine each other; an address of
     another chain or kind is rejected; and the other recognized output script forms map to the address Bitcoin defines. Selecting another chain affects
     every later conversion and nothing made before.''',
     ['inputs', 'histories', 'configurations'],
     'all 20-byte hashes, all byte strings and texts, all output scripts, all interleavings of chain selection and conversions',
     'The tests convert a few fixed addresses, mostly on one chain.',
     [BL + 'wallet.py', BL + 'base58.py', BL + '__init__.py'],
     [('CBitcoinAddress and subclasses', BL + 'wallet.py'), ('encode/decode/CBase58Data', BL + 'base58.py'), ('SelectParams', BL + '__init__.py')],
     [('params', 'selected chain', BL + '__init__.py')],
     ['str()', 'to_scriptPubKey()', 'from_scriptPubKey()', 'base58.encode()/decode()'])

prop('C21', 'Keys sign and verify, and secrets determine their public key and text form',
     '''A signature made with a key verifies under the matching public key for exactly the digest signed, and under no other digest or key. A
     secret determines its public key in the compressed form asked for, and the wallet text form of a secret decodes to the same secret and
     compression on the same chain and to an error elsewhere.''',
     ['inputs', 'histories', 'configurations'],
     'all secrets, digests, compression choices, and interleavings of several keys',
     'The tests sign one digest and decode a few fixed secrets.',
     [BL + 'core/key.py', BL + 'wallet.py'],
     [('CECKey', BL + 'core/key.py'), ('CBitcoinSecret/CKey', BL + 'wallet.py')],
     [], ['sign()', 'verify()', 'get_pubkey()', 'CBitcoinSecret'])

prop('C22', 'A bloom filter never misses what was inserted and matches the network format',
     '''Whatever was inserted into a bloom filter is always reported as contained, before and after serialization; the bits set and queried are exactly
     those Bitcoin's filter defines for the given size, hash count and tweak, and filter sizes respect the protocol limits. Serialization
     round-trips every field.''',
     ['inputs', 'histories'],
     'all sequences of inserts and queries with all element contents and lengths, all filter parameters',
     'The tests insert three elements in one filter and compare one serialization.',
     [BL + 'bloom.py'],
     [('MurmurHash3', BL + 'bloom.py'), ('CBloomFilter.insert/contains', BL + 'bloom.py')],
     [('vData', 'filter bits', BL + 'bloom.py')],
     ['insert()', 'contains()', 'serialize()', 'IsWithinSizeConstraints()'])

prop('C23', 'The RPC client converts values exactly and maps failures to errors',
     '''Amounts, hashes, transactions, scripts and addresses passed to or received from a node through the RPC client keep their exact value: satoshis
     are never rounded, hashes keep their byte order, and objects decode to equal objects. Each request carries the called method with its parameters, a fresh
     id and the configured credentials, and a missing object, a node error or a malformed reply surfaces as the documented exception rather than
     as a wrong value. The text helpers for hashes, bytes and amounts (x, lx, b2x, b2lx, str_money_value) are exact.''',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'all calls with all argument values and all node replies, error replies included, in any sequence on one connection',
     'The tests only construct a proxy; no call is made.',
     [BL + 'rpc.py'],
     [('RawProxy._call', BL + 'rpc.py'), ('Proxy methods', BL + 'rpc.py')],
     [('__id_count', 'request counter', BL + 'rpc.py')],
     ['requests on the wire', 'returned values', 'exceptions'])

prop('C24', 'Transaction proofs commit to and show the real transaction parts',
     '''A transaction proof hashes to the value determined by the transaction id, and an input or output proof shows exactly the input or output at
     its index, for the transaction it commits to. Verification fails when the index does not exist or any part does
     not belong together, and proofs keep their verdict, transaction id and hash through serialization, whose form is fixed, and pruning.''',
     ['inputs', 'histories'],
     'all transactions, all indexes, all combinations of proof parts, all pruning and serialization histories',
     'The tests check one construction per class.',
     [PC + 'bitcoin.py'],
     [('TxProof.calc_hash', PC + 'bitcoin.py'), ('TxInProof/TxOutProof.verify', PC + 'bitcoin.py')],
     [], ['.hash', '.txhash', 'verify()', 'serialize()'])

prop('C25', 'What is printed for a value reads back as that value',
     '''The text the library prints for an object denotes that object: repr() of outpoints, inputs, outputs, transactions (mutable ones too), block headers,
     scripts, opcodes, bit strings, mountain ranges, hash tags, base58 data, addresses and secrets is an expression over the library's own names that
     evaluates to an equal value, with hashes in the right byte order, amounts exact to the satoshi, every field that differs from its default
     present, and the operations of a script listed up to an explicit error where it cannot be parsed. Proofs name their class and
     hash, pruned or not. Printing works for every object
     that can be constructed or received, protocol messages included, and opcode names, small integer opcodes, the difficulty of a header and
     short hashes are those Bitcoin defines.''',
     ['inputs'],
     'all objects of these kinds with all field values, parsable and unparsable scripts, all opcodes, all compact targets, all received messages',
     'The tests compare the printed form of a few scripts, outpoints and outputs.',
     [BL + 'core/__init__.py', BL + 'core/script.py', BL + 'messages.py', BL + 'net.py', BL + 'base58.py', PM + 'bits.py', PM + 'mmr.py', PM + 'serialize.py', PM + 'proof.py'],
     [('__repr__', BL + 'core/__init__.py'), ('CScript.__repr__', BL + 'core/script.py'), ('CScriptOp.__repr__/encode_op_n/decode_op_n', BL + 'core/script.py'), ('CBlockHeader.calc_difficulty', BL + 'core/__init__.py')],
     [], ['repr()', 'str()', '.difficulty', 'OPCODES_BY_NAME'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
