NOT_APPLICABLE = {}
_T = 'Explicit TLA+ specification, design checked exhaustively with TLC; TLC-enumerated and seeded random programs run on the real code, every recorded trace decided by TLC against the specification'
def _n(design, bound):
    return '%s The code is checked on enumerated and seeded random programs, each result compared by TLC with the specification: %s Trusts TLC, the primitive overrides (SHA-256 etc.) and the drivers\' projections.' % (design, bound)
NOTES = {
 'C07': (_T, _n('Exhaustive over the representation design at small byte width.', 'bit strings up to a few hundred bits.')),
 'C01': (_T, _n('Exhaustive over construction histories of small ranges.', 'ranges up to several hundred values, histories of appends, extends, slices and reloads.')),
 'C02': (_T, _n('Exhaustive: the recursive definition is canonical and perfect subtrees are kept, for all lengths in bounds.', 'hashes, node shapes and serializations of every range made.')),
 'C03': (_T, _n('Exhaustive over pruning histories (prune, read, serialize, reload) of a small proof graph.', 'random graphs over all field kinds, ranges and maps; sets of reads, reloads and re-evaluation.')),
 'C05': (_T, _n('Exhaustive over maps on 3-bit keys.', 'histories over up to 256 keys of five key/value types.')),
 'C06': (_T, _n('Exhaustive: tree determined by the key set, for all maps on 3-bit keys.', 'different histories to the same bindings, hashes and node shapes.')),
 'C08': (_T, _n('Exhaustive over byte strings of bounded length for each decoder, and field sequences.', 'every serializable type on enumerated short byte strings, boundary values, mutated and random bytes.')),
 'C09': (_T, _n('Exhaustive over field sequences: encodings injective.', 'near-miss pairs of objects differing in one field, child, variant or class; every proof class\' hash.')),
 'C04': (_T, _n('Exhaustive over forged terms of ranges and maps of bounded depth: no two views with one hash contradict each other; a design without committed lengths is rejected.', 'views (pruned and reloaded) of terms and of their one-place alterations, with a history variable of answers per hash.')),
 'C10': (_T, _n('Exhaustive over chains in which outpoints are spent once: a seal is closed over at most one digest; weakened rules are rejected.', 'all witnesses of up to three inputs and two outputs, near-miss scripts, random witnesses and templates.')),
 'C11': (_T, _n('Exhaustive over nodes assembled from arbitrary parts and closures of seals: same seal, same contents.', 'nodes of five key/value types, moved witnesses, swapped children, pruning and reload histories.')),
 'C12': (_T, _n('Exhaustive over sequences of tool invocations on a small chain: no seal or witness lost, every witness file closes its seal; the tool without existence tests is rejected.', 'sequences of invocations of the real tool in a scratch directory against a recorded fake node, with files, exit codes and broadcast transactions compared.')),
 'C25': (_T, _n('Exhaustive over objects with a few values per field: reading the print gives the object back; designs that drop digits, reverse hashes or leave out fields are rejected.', 'the printed expression is parsed with Python\'s own grammar and given its value by the specification, for enumerated and random objects of every kind, all opcodes, compact targets and messages.')),
 'C24': (_T, _n('Exhaustive over pruning histories.', 'random transactions, indexes inside and outside, histories of prunes, reloads and questions.')),
 'C16': (_T, _n('Exhaustive over programs of four operations on a heap of immutable and mutable objects: no immutable object reaches a mutable one or ever changes; a design sharing parts is rejected.', 'histories of constructions, copies, reads, assignments, list edits and block constructions with every live object projected after each.')),
 'C17': (_T, _n('Exhaustive over streams of concatenated objects and truncations: bytes consumed are exactly those produced.', 'every serializer and structure with boundary values, streams cut at every byte, mutated and random bytes.')),
 'C13': (_T, _n('Exhaustive over scripts of bounded length on a small opcode alphabet: the step machine agrees with a declarative reading of nested conditionals; weakened machines are rejected.', 'enumerated and random scripts over all opcodes, number encodings, limits, signatures by real keys (checked by an independent curve implementation) and input verification with pay-to-script-hash.')),
 'C14': (_T, _n('Exhaustive over small transactions, hash types and one-place alterations: a signature hash is unchanged exactly by the alterations its type permits; weakened blanking is rejected.', 'all hash types, indexes inside and outside, scripts with code separators and random transactions, with the transaction projected before and after.')),
 'C15': (_T, _n('Exhaustive over small transactions (sequential checks against the declarative rule) and lists of leaves for merkle roots.', 'transactions, headers and blocks with one or two defects, compact targets at every boundary, sizes and operation counts at their limits, three chains.')),
 'C19': (_T, _n('Exhaustive over short byte strings and item lists: parsing inverts building and covers every byte.', 'items at all length boundaries, enumerated short scripts, random and mutated scripts, names of all opcodes.')),
 'C18': (_T, _n('Exhaustive over streams of framed messages and their corruptions on a small alphabet: what is read is what was sent, in order, and a corrupted body or foreign magic is an error; a design without the checksum is rejected.', 'every message class with random field values and protocol versions, concatenated streams, cuts at every byte, corrupted frames, three chains.')),
 'C20': (_T, _n('Exhaustive over short byte strings (base58 is a bijection with canonical strings) and over histories of address making on switching chains; designs without a version or checksum test are rejected.', 'random, mutated and boundary strings, scripts of every address form and near misses, histories with the chain switched between uses.')),
 'C21': (_T, _n('Exhaustive over a toy curve group: every signature verifies under its key and for its hash only, secrets round trip, only low half signatures are made; weakened designs are rejected.', 'real keys, hashes and signatures and their alterations, judged by an independent curve implementation written in the specification language overrides.')),
 'C22': (_T, _n('Exhaustive over all hash functions on small filters and all histories of inserts and network round trips: nothing inserted is missed, bits come from inserts only; lossy encodings are rejected.', 'filters of random and boundary parameters, elements of all lengths, round trips, wire bytes cut and padded; sizes recomputed in exact rational arithmetic.')),
 'C23': (_T, _n('Exhaustive over histories of calls by two proxies on shared or separate connections with faults: a value is the answer to that very call, ids are fresh; and over amounts through floats of bounded precision; reused connections and float reading are rejected.', 'every client method against a scripted node on the loopback interface (plain and TLS) and an injected connection, with all faults, configurations and chains.')),
}
