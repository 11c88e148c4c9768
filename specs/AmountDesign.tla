----------------------------- MODULE AmountDesign -----------------------------
(* Amounts as texts and as binary floating point numbers of Bits bits.  An    *)
(* amount x is x / Coin; a float is <<q, k>>, standing for q / 2^k with       *)
(* 2^(Bits-1) <= q < 2^Bits.                                                  *)
(*   reading: the reply's text is read exactly and multiplied by Coin;        *)
(*   writing: the float nearest to x / Coin is written as the shortest text   *)
(*   (fewest decimals) that reads back as the same float.                     *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Max, Coin, Bits, Read
VARIABLES x, mode

Round(n, d) == LET q == n \div d  r == n % d IN IF 2 * r > d \/ (2 * r = d /\ q % 2 = 1) THEN q + 1 ELSE q
RECURSIVE Scale(_, _, _)
Scale(n, d, k) == IF n * 2^k < d * 2^(Bits - 1) THEN Scale(n, d, k + 1) ELSE k
(* the float nearest to n / d (n <= d * 2^(Bits-1)) *)
Float(n, d) == IF n = 0 THEN <<0, 0>> ELSE LET k == Scale(n, d, 0)  q == Round(n * 2^k, d) IN IF q = 2^Bits THEN <<2^(Bits - 1), k - 1>> ELSE <<q, k>>
TimesCoin(f) == Float(f[1] * Coin, 2^f[2])
Floor(f) == f[1] \div 2^f[2]
ReadBack == IF Read = "exact" THEN x ELSE Floor(TimesCoin(Float(x, Coin)))
(* texts with at most the decimals of Coin that read as the same float *)
Texts == {y \in 0..Max : Float(y, Coin) = Float(x, Coin)}
Trailing(y) == IF y = 0 THEN 99 ELSE CHOOSE t \in 0..8 : y % (10^t) = 0 /\ y % (10^(t + 1)) # 0
Written == CHOOSE y \in Texts : \A z \in Texts : Trailing(z) <= Trailing(y)

Init == x \in 0..Max /\ mode \in {"read", "write"}
Next == FALSE /\ UNCHANGED <<x, mode>>
Spec == Init /\ [][Next]_<<x, mode>>
Exact == IF mode = "read" THEN ReadBack = x ELSE Written = x
=============================================================================
