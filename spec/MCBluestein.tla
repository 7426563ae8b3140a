--------------------------- MODULE MCBluestein ---------------------------
(* Bluestein's algorithm for every size and impulse position, over exponents
   of the 2n-th root of unity v = exp(2 pi i / 2n):
     chirp(i) = v^(dir i^2), a = x * chirp, b[j] = conj chirp(|j|) (circular,
     padded to m >= 2n + 1), X[k] = chirp(k) * (a circ b)[k].                  *)
EXTENDS Dft
CONSTANT MaxN
VARIABLES n, p, dir
Init == n \in 1..MaxN /\ p \in 0..(n - 1) /\ dir \in {-1, 1}
Next == UNCHANGED <<n, p, dir>>
RECURSIVE Pow2(_, _)
Pow2(k, x) == IF x >= k THEN x ELSE Pow2(k, 2 * x)
M == Pow2((2 * n) + 1, 1)
Chirp(i) == (dir * ((i * i) % (2 * n))) % (2 * n)
None == -1
A(i) == IF i = p THEN Chirp(p) ELSE None
B(j) == IF j = 0 THEN 0 ELSE IF j < n THEN (2 * n - Chirp(j)) % (2 * n)
        ELSE IF M - j < n /\ M - j > 0 THEN (2 * n - Chirp(M - j)) % (2 * n) ELSE None
(* the circular convolution at k has the single term i = p *)
C(k) == LET j == (k - p) % M IN IF B(j) = None THEN None ELSE (A(p) + B(j)) % (2 * n)
IsDft == \A k \in 0..(n - 1) : C(k) # None /\ 2 * ((Chirp(k) + C(k)) % (2 * n)) = Root(n, dir, p, k, 0)
NoWrap == \A i \in 0..(n - 1), j \in 1..(n - 1) : (M - j) > i
==========================================================================
