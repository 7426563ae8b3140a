---------------------------- MODULE MCRealDft ----------------------------
(* Laws of the real transforms, and the two fast constructions used in the
   code, checked for every impulse: the DCT-II by an n-point transform of the
   even/odd reordered input (Makhoul), and the real transform of n points by a
   complex transform of n/2 points.                                          *)
EXTENDS RealDft
CONSTANT MaxN
VARIABLES n, p
Init == n \in {2, 4, 6, 8, 12, 16, 32} /\ n <= MaxN /\ p \in 0..(n - 1)
Next == UNCHANGED <<n, p>>
(* Hermitian symmetry of a real impulse's spectrum *)
Hermitian == \A k \in 1..(n - 1) : Root(n, -1, p, n - k, 0) = Conj(n, Root(n, -1, p, k, 0))
(* Makhoul: position of sample p in the reordered input, then rotate by -k quarter-steps *)
Slot == IF p % 2 = 0 THEN p \div 2 ELSE n - 1 - (p \div 2)
Makhoul == \A k \in 0..(n - 1) : Fold(n, Root(n, -1, Slot, k, 0) - k) = DctImpulse(n, p)[k + 1]
(* half-size: real sample p is the real (even p) or imaginary (odd p) part of sample p/2 *)
m == n \div 2
ZExp(k) == Root(m, -1, p \div 2, k % m, p % 2)             \* exponent of 4m-th root
(* X[k] = (Z[k] + conj Z[m-k])/2 - i/2 w^k (Z[k] - conj Z[m-k]); for an impulse one half cancels:
   even p: Z[k] = conj Z[m-k], X = Z;  odd p: Z[k] = -conj Z[m-k], X = -i w^k Z *)
HalfSize == \A k \in 0..m :
    IF p % 2 = 0 THEN /\ ZExp(k) = Conj(m, ZExp((m - k) % m))
                      /\ 2 * ZExp(k) = Root(n, -1, p, k, 0)
    ELSE /\ ZExp(k) = (Conj(m, ZExp((m - k) % m)) + (2 * m)) % (4 * m)
         /\ ((2 * ZExp(k)) - n - (4 * k)) % (4 * n) = Root(n, -1, p, k, 0)
==========================================================================
