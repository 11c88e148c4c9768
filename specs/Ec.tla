---------------------------------- MODULE Ec ----------------------------------
(* secp256k1 and ECDSA, taken as given; evaluated by ../java/Ec.java.  Public *)
(* keys, digests, secrets and (strictly DER encoded) signatures are hex.      *)
EcVerify(pub, digest, sig)  == CHOOSE x \in {} : TRUE   \* a valid signature
EcPoint(pub)                == CHOOSE x \in {} : TRUE   \* the encoding of a point
EcSame(a, b)                == CHOOSE x \in {} : TRUE   \* encodings of the same point
EcPubOf(secret, compressed) == CHOOSE x \in {} : TRUE   \* of a secret; "" if it has none
EcShared(secret, pub)       == CHOOSE x \in {} : TRUE   \* x coordinate of secret times the point
EcOrder                     == CHOOSE x \in {} : TRUE
=============================================================================
