------------------------------- MODULE Commit -------------------------------
(* How proof objects are committed to: tagged hashing of field contributions. *)
(* A contribution is the serialization of a plain field, or the hash of a     *)
(* field that is itself a proof.                                              *)
EXTENDS Integers, Sequences, Crypto, Wire

DeriveRoot == "8125d227981c4ca0afa7ab9911352c85"
Tagged(tag, msg) == Sha256(tag \o msg)
Derive(tag, sub) == HexSub(Tagged(DeriveRoot, tag \o sub), 1, 16)   \* tag.derive(sub)

DataHash(contribs) == Sha256(HexCat(contribs))
ProofHash(tag, datahash) == Tagged(tag, datahash)
=============================================================================
