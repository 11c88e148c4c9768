--------------------------------- MODULE EcToy ---------------------------------
(* ECDSA over the curve y^2 = x^3 + 7 of prime order 31 over F43, as on       *)
(* secp256k1: every signature verifies under its key and digest, and every    *)
(* digest has a signature that verifies under the point at infinity, which    *)
(* therefore must not count as a public key.                                  *)
EXTENDS Integers, FiniteSets
CONSTANTS Broken
VARIABLES d, k, z
P == 43  N == 31  O == <<0, 0>>          \* (0, 0) is not on the curve
RECURSIVE Pow(_, _, _)
Pow(a, e, m) == IF e = 0 THEN 1 ELSE LET h == Pow(a, e \div 2, m) IN ((h * h) % m) * (IF e % 2 = 1 THEN a ELSE 1) % m
Inv(a, m) == Pow(a % m, m - 2, m)
Add(a, b) ==
  IF a = O THEN b ELSE IF b = O THEN a
  ELSE IF a[1] = b[1] /\ (a[2] + b[2]) % P = 0 THEN O
  ELSE LET l == (IF a = b THEN 3 * a[1] * a[1] * Inv(2 * a[2], P) ELSE (b[2] - a[2]) * Inv(b[1] - a[1], P)) % P
           x == (l * l - a[1] - b[1]) % P IN <<x, (l * (a[1] - x) - a[2]) % P>>
RECURSIVE Mul(_, _)
Mul(n, a) == IF n = 0 THEN O ELSE LET h == Mul(n \div 2, a) IN IF n % 2 = 1 THEN Add(Add(h, h), a) ELSE Add(h, h)
Curve == {q \in (0..P-1) \X (0..P-1) : (q[2] * q[2]) % P = (q[1] * q[1] * q[1] + 7) % P}
G == CHOOSE q \in Curve : TRUE
R == Mul(k, G)[1] % N
S(r, key) == (Inv(k, N) * (z + r * key)) % N
Valid(q, dig, r, s) == /\ 0 < r /\ r < N /\ 0 < s /\ s < N /\ (Broken = "infinity" \/ q # O)
                       /\ LET w == Inv(s, N)  x == Add(Mul((dig * w) % N, G), Mul((r * w) % N, q)) IN x # O /\ x[1] % N = r
Init == d \in 1..(N - 1) /\ k \in 1..(N - 1) /\ z \in 0..(N - 1)
Spec == Init /\ [][FALSE]_<<d, k, z>>
Order == Cardinality(Curve) + 1 = N
Complete == (R # 0 /\ S(R, d) # 0) => Valid(Mul(d, G), z, R, S(R, d))
NoInfinity == ~Valid(O, z, R, S(R, 0))
=============================================================================
