FINDINGS = [
 {'property': 'C06', 'clause': 'commit-deep-recursion', 'op': 'deephash',
  'what': 'hash of a 256 level deep Merbinner tree (digest keys 80.., 40.., 20.., ... each with a single bit set): RecursionError'},
 {'property': 'C05', 'clause': 'map-deep-recursion', 'op': 'deepsubset',
  'what': 'issubset() of a 256 level deep Merbinner tree (digest keys 80.., 40.., 20.., ... each with a single bit set): RecursionError'},
 {'property': 'C20', 'clause': 'addr-bare-uncompressed', 'op': 'fromscript',
  'what': 'CBitcoinAddress.from_scriptPubKey() of a bare pubkey script with an uncompressed key: the address is of the hash of the key without its last byte (bytes 1 to 64 of the script); test_wallet.py enshrines the value'},
]
# (part of the commit subject, property)
FIXED = [
 ('MMR slices', 'C01'), ('unknown union class number', 'C08'), ("attributes of a Proof class", 'C03'), ('is_pruned takes', 'C03'),
 ("fully pruned VarProof's", 'C03'), ('read_bytes() without', 'C08'), ('rejects junk after', 'C08'), ('rejects non-minimal', 'C08'),
 ('BitsSerializer.check_instance', 'C07'), ('BitsSerializer can deserialize', 'C07'), ('Bits ordering', 'C07'),
 ('check_instance() of the bitcoin serializers', 'C24'), ('txhash of a deserialized', 'C24'), ('MerbinnerTree.put()', 'C05'), ('a key that ends where an inner node', 'C05'), ('issubset() against a Merbinner tree whose only key', 'C05'),
 ('a seal witness is only valid', 'C10'), ('making immutable copies', 'C16'), ('CTxIn makes an immutable', 'C16'),
 ('CheckProofOfWork()', 'C15'), ('uint256_from_compact()', 'C15'), ('intVectorSerialzer', 'C17'), ('CheckBlock()', 'C15'),
 ('GetSigOpCount()', 'C19'), ('one set of SCRIPT_VERIFY', 'C13'), ('stack size limit', 'C13'), ('empty vector for false', 'C13'),
 ('message length is unsigned', 'C18'), ('version messages from versions', 'C18'), ('CUnsignedAlert', 'C18'), ('bloom filters', 'C22'),
 ('returns a mutable transaction', 'C10'), ('closing two seals', 'C10'), ('rejects unknown methods', 'C10'), ('sus-tool mkseal', 'C12'),
 ('witnessinfo', 'C12'), ('verifywitness', 'C12'), ('absurdly large lengths', 'C08'), ('malformed transactions and outpoints', 'C08'), ('have exactly one serialization', 'C08'), ('too deeply nested data', 'C08'),
 ('truncated to 32 bits', 'C21'), ('no signature verifies under', 'C21'), ('a secret of the wrong length', 'C21'), ('selecting mainnet keeps', 'C15'),
 ('an empty bloom filter', 'C22'), ('RPC proxies to https', 'C23'), ('RPC credentials with', 'C23'), ('listunspent() with', 'C23'), ('str_money_value() of negative', 'C23'), ('base58 data shorter', 'C20'), ('messages use the magic', 'C18'), ('an address is of a 20 byte', 'C20'), ('an encoded secret key has', 'C21'), ('repr() of block headers', 'C25'), ('repr() of inventory', 'C25'), ('repr() of version messages', 'C25'),
 ('trees from any iterable', 'C15'),
]
