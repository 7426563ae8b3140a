----------------------------- MODULE RealDft -----------------------------
(* Transforms of real sequences of length n.                                 *)
EXTENDS Dft, Gauss
Half(n) == n \div 2 + 1                  \* coefficients of a real transform
RealImpulse(n, p, q) == [k \in 1..Half(n) |-> Root(n, -1, p, k - 1, q)]
(* DCT-II of a unit impulse: 2 cos(2 pi e / 4n), e folded to [0, 2n] *)
Fold(n, e) == LET r == e % (4 * n) IN IF r > 2 * n THEN (4 * n) - r ELSE r
DctImpulse(n, p) == [k \in 1..n |-> Fold(n, (k - 1) * ((2 * p) + 1))]
DctAt(n, p, ks) == [i \in 1..Len(ks) |-> Fold(n, MulMod(ks[i], (2 * p) + 1, 4 * n))]
(* two real sequences in one complex one: z = a + i b; twice the half spectra *)
El(q, k) == <<q[2 * k - 1], q[2 * k]>>
TwiceX(z, n, k) == IF k = 0 THEN <<2 * z[1], 0>> ELSE GAdd(El(z, k + 1), GConj(El(z, n - k + 1)))
TwiceY(z, n, k) == IF k = 0 THEN <<2 * z[2], 0>>
                   ELSE GMul(<<0, -1>>, GSub(El(z, k + 1), GConj(El(z, n - k + 1))))
TwiceXOf(a, b) == GAdd(a, GConj(b))                  \* a = z[k], b = z[n - k], k > 0
TwiceYOf(a, b) == GMul(<<0, -1>>, GSub(a, GConj(b)))
==========================================================================
