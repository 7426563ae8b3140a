------------------------------ MODULE LinAlg ------------------------------
(* A memory of equally shaped objects (vectors or matrices, in logical order)
   and the element-wise operations on it.  An element is a Gaussian integer;
   an object of n elements is stored flat: <<re1, im1, re2, im2, ...>>.
   Every operation has a frame condition: all other objects are unchanged. *)
EXTENDS Gauss
VARIABLES env           \* sequence of objects
El(q, k)   == <<q[2 * k - 1], q[2 * k]>>
Count(q)   == Len(q) \div 2
Build(n, F(_)) == LET f == [k \in 1..n |-> F(k)]
                  IN  [j \in 1..(2 * n) |-> f[(j + 1) \div 2][IF j % 2 = 1 THEN 1 ELSE 2]]
Map(q, F(_)) == LET G(k) == F(El(q, k)) IN Build(Count(q), G)
Map2(a, b, F(_, _)) == LET G(k) == F(El(a, k), El(b, k)) IN Build(Count(a), G)

Put(o, val) == env' = [env EXCEPT ![o] = val]

Alloc(objs)       == env' = objs
DoAdd(x, y, o)    == Put(o, Map2(env[x], env[y], GAdd))
DoMul(x, y, o)    == Put(o, Map2(env[x], env[y], GMul))
DoScale(a, o)     == Put(o, Map(env[o], LAMBDA v : GMul(a, v)))
DoFill(a, o)      == Put(o, Map(env[o], LAMBDA v : a))
DoCopy(x, o)      == Put(o, env[x])
DoMulAdd(x, y, z, o) ==
    Put(o, LET G(k) == GAdd(GMul(El(env[x], k), El(env[y], k)), El(env[z], k))
           IN  Build(Count(env[x]), G))
==========================================================================
