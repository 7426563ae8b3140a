------------------------------- MODULE Dft -------------------------------
(* The discrete Fourier transform of size n over exponents: every output of
   the transform of a unit impulse is a power of the 4n-th root of unity
   w = exp(2 pi i / 4n).  dir = -1 (forward) or 1 (backward), no scaling.
   impulse i^q at position p  ->  X[k] = w^(4 dir p k + q n).                *)
EXTENDS Integers, Sequences
Root(n, dir, p, k, q) == ((4 * dir * ((p * k) % n)) + (q * n)) % (4 * n)
ImpulseResponse(n, dir, p, q) == [k \in 1..n |-> Root(n, dir, p, k - 1, q)]
(* the same for sizes up to 2^20: the product in two steps of 10 bits *)
MulMod(a, b, n) == ((((a * (b \div 1024)) % n) * 1024) + (a * (b % 1024))) % n
RootBig(n, dir, p, k, q) == ((4 * dir * MulMod(p, k, n)) + (q * n)) % (4 * n)
ImpulseAt(n, dir, p, q, ks) == [i \in 1..Len(ks) |-> RootBig(n, dir, p, ks[i], q)]
(* conjugation of a power of w *)
Conj(n, e) == (4 * n - e) % (4 * n)
==========================================================================
