------------------------------- MODULE Vectors -------------------------------
(* Published test vectors for what every specification takes as given, and    *)
(* for standard functions defined in the specification.  Run once, by setup.  *)
EXTENDS Base58, Bloom, TLC

ASSUME Sha256("616263") = "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"
ASSUME Sha256("") = "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"
ASSUME Hash256("") = "5df6e0e2761359d30a8275058e299fcc0381534545f55cf43e41983f5d4c9456"
ASSUME Sha1("616263") = "a9993e364706816aba3e25717850c26c9cd0d89d"
ASSUME Ripemd160("") = "9c1185a5c5e9fc54612808977ee8f548b2258d31"
ASSUME Ripemd160("616263") = "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"
ASSUME Ripemd160("6d65737361676520646967657374") = "5d0689ef49d2fae572b881b123a85ffa21595f36"

(* the genesis block's header *)
ASSUME HexRev(Hash256("0100000000000000000000000000000000000000000000000000000000000000000000003ba3edfd7a7b12b27ac72c3e67768f617fc81bc3888a51323a9fb8aa4b1e5e4a29ab5f49ffff001d1dac2b7c"))
       = "000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f"

(* multiples of the generator, a deterministic signature, and addresses of secret 1 *)
One32 == "0000000000000000000000000000000000000000000000000000000000000001"
Two32 == "0000000000000000000000000000000000000000000000000000000000000002"
G == "0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"
ASSUME EcPubOf(One32, TRUE) = G
ASSUME EcPubOf(Two32, TRUE) = "02c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5"
ASSUME EcSame(EcPubOf(One32, FALSE), G) /\ EcPoint(G) /\ ~EcSame(EcPubOf(Two32, TRUE), G)
Sig(r, s) == "304402" \o "20" \o r \o "0220" \o s
R1 == "934b1ea10a4b3c1757e2b0c017d0b6143ce3c9a7e6a4a49860d7a6ab210ee3d8"
S1 == "2442ce9d2b916064108014783e923ec36b49743e2ffa1c4496f01a512aafd9e5"
Satoshi == Sha256("5361746f736869204e616b616d6f746f")
ASSUME EcVerify(G, Satoshi, "3045" \o "022100" \o R1 \o "0220" \o S1)
ASSUME ~EcVerify(G, Sha256("5361746f736869204e616b616d6f74"), "3045" \o "022100" \o R1 \o "0220" \o S1)
ASSUME ~EcVerify(EcPubOf(Two32, TRUE), Satoshi, "3045" \o "022100" \o R1 \o "0220" \o S1)
ASSUME B58Check(0, Hash160(G)) = "1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH"
ASSUME B58Check(0, Hash160(EcPubOf(One32, FALSE))) = "1EHNa6Q4Jz2uvNExL497mE43ikXhwF6kZm"
ASSUME B58Enc("00000000000000000000") = "1111111111"
ASSUME B58Enc("73696d706c792061206c6f6e6720737472696e67") = "2cFupjhnEsSn59qHXstmK2ffpLv2"
ASSUME B58Dec("2cFupjhnEsSn59qHXstmK2ffpLv2") = "73696d706c792061206c6f6e6720737472696e67"

(* MurmurHash3, from Bitcoin Core's hash_tests *)
Mm(want, seed, d) == Murmur3(BOfLE(HexRev(seed)), d) = BOfLE(HexRev(want))
ASSUME /\ Mm("00000000", "00000000", "") /\ Mm("6a396f08", "fba4c795", "") /\ Mm("81f16f39", "ffffffff", "")
       /\ Mm("514e28b7", "00000000", "00") /\ Mm("ea3f0b17", "fba4c795", "00") /\ Mm("fd6cf10d", "00000000", "ff")
       /\ Mm("16c6b7ab", "00000000", "0011") /\ Mm("8eb51c3d", "00000000", "001122")
       /\ Mm("b4471bf8", "00000000", "00112233") /\ Mm("e2301fa8", "00000000", "0011223344")
       /\ Mm("fc2e4a15", "00000000", "001122334455") /\ Mm("b074502c", "00000000", "00112233445566")
       /\ Mm("8034d2a0", "00000000", "0011223344556677") /\ Mm("b4698def", "00000000", "001122334455667788")

(* arithmetic *)
ASSUME BMod("-1", "4294967296") = "4294967295" /\ BDiv("-7", "2") = "-4"
ASSUME BLE("-1", 4) = "ffffffff" /\ BOfLE("0102") = "513" /\ BPow("2", 70) = "1180591620717411303424"
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
Spec == Init /\ [][Next]_done
=============================================================================
