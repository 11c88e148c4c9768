GAINED = {
 'tx-mixed-inputs': 'every pattern of mutable and immutable parts',
 'sus-quiet-skips-verify': 'verification under every combination of flags, of parts that do not belong together',
 'outpoint-length-ignored': 'bytes that make a value, said to be more or fewer than they are',
 'eq-of-subclass': 'equality of a class and its subclass with the same fields',
 'mb-from-tree': 'trees made from trees of another class',
 'tag-derive-prefix': 'derivation from subtags of any length',
 'outpoint-read-prefix': 'right lengths of the wrong contents',
 'vector-capped': 'vectors of up to hundreds of thousands of elements',
 'murmur-long-length': 'data and elements longer than 255 bytes',
 'checkblock-duplicates-adjacent': 'the same transaction in every two places of a block',
 'hashtag-case': 'tagged messages of every length',
 'sign-raw-padded': 'signatures of every usual length',
 'bits-truthy': 'truthy numbers as bits',
 'fake-witness-empty': 'near misses of the digest of a fake seal',
 'mb-lookup-by-prefix': 'keys no map can hold together',
 'txin-verify-coinbase': 'special values in every part of a transaction',
 'base58-checksum-int': 'checksums with special bytes',
 'derive-cached': 'many derivations from one tag',
 'mutable-default-vin': 'several objects made of nothing; traces the specification cannot follow',
 'sighash-single-value': 'every index of transactions with many inputs and outputs',
 'version-10300': 'versions one bit from the special ones',
 'msg-command-trailing': 'near misses of command fields',
 'eval-altstack-kept': 'evaluations after evaluations that left something',
 'proof-attr-of-original-late': 'proof objects of classes with slots for some of the fields',
 'mmr-leaf-by-equal-value': 'operations on trees whose values are pruned away',
 'merkle-cached': 'blocks of as many transactions one after another',
 'hash160-of-buffer': 'public keys of every length',
 'verify-sig-trailing': 'signatures followed by something, cut, or written otherwise',
 'pubkey-shared-key': 'public keys kept while others of the same point are made',
 'ser-memo': 'fields of different kinds holding equal values',
 'bits-interned': 'many sequences alike but for one bit, all of them kept',
 'hashtag-derive-kept': 'tags alike but for one byte, derived with the same',
 'leb-kept': 'hundreds of integers read from one buffer',
 'msg-body-cached': 'a message written, changed and written again',
 'key-sign-kept': 'one key signing many digests alike but for one byte',
 'key-verify-kept': 'public keys kept, asked about every signature of every digest',
 'rpc-rawtx-kept': 'the same asked again, with other answers',
 'checkblock-txids-left': 'a good block after refused ones',
 'block-eq-by-hash': 'objects alike but for one field, for every field',
 'script-in-script': 'scripts, and other classes of bytes, given as data',
 'script-of-itself': 'long pushes that fall short of their length by any amount',
 'txin-memo-unvisited': 'what was said asked again of a process that has only the bytes',
 'mmr-length-by-31': 'ranges of up to 2**62 equal values',
}
