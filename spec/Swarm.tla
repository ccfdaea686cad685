------------------------------- MODULE Swarm --------------------------------
(* Particle swarms.  Every particle remembers the best position it has       *)
(* visited; every neighbourhood the best of its members' bests.              *)
(* Indices are 0-based as in the code; functions over 0..n-1.                *)
EXTENDS Population

(* ---- neighbourhoods: sets of particles, indexed 0..                       *)
LinearCount(n, k) == n \div k
Linear(n, k, h) == LET H == LinearCount(n, k) IN IF h = H - 1 THEN ((h * k)..(n - 1)) ELSE ((h * k)..(h * k + k - 1))
Ring(n, k, h) == {((n + h) - (k \div 2) + j) % n : j \in 0..(k - 1)}
NbCount(kind, n, k) == CASE kind = "linear" -> LinearCount(n, k) [] kind = "ring" -> n [] kind = "star" -> 1
Nb(kind, n, k, h) == CASE kind = "linear" -> Linear(n, k, h) [] kind = "ring" -> Ring(n, k, h) [] kind = "star" -> 0..(n - 1)
\* the neighbourhood that informs particle i
Home(kind, n, k, i) == CASE kind = "linear" -> MinOf(i \div k, LinearCount(n, k) - 1) [] kind = "ring" -> i [] kind = "star" -> 0

(* ---- memories are <<position, fitness>>                                   *)
Remember(old, new, dir) == IF PBetter(new[2], old[2], dir) THEN new ELSE old
BestAmong(mem, S, dir) == CHOOSE f \in {mem[i][2] : i \in S} : \A i \in S : ~PBetter(mem[i][2], f, dir)
\* m is the best of the memories of S
IsBestOf(m, mem, S, dir) == m \in {mem[i] : i \in S} /\ m[2] = BestAmong(mem, S, dir)

(* ---- velocity: w v + [0,c1] (pbest - x) + [0,c2] (nbest - x) + [0,c3]     *)
(* (gbest - x), times coeff, clipped; weights in eighths, results in 64ths   *)
LoT(c, d) == MinOf(0, c * d)
HiT(c, d) == MaxOf(0, c * d)
VLo(a, x, v, p, n, g) == a.coeff * ((a.w * v) + LoT(a.c1, p - x) + LoT(a.c2, n - x) + LoT(a.c3, g - x))
VHi(a, x, v, p, n, g) == a.coeff * ((a.w * v) + HiT(a.c1, p - x) + HiT(a.c2, n - x) + HiT(a.c3, g - x))
Clip(x, lo, hi) == MinOf(hi, MaxOf(lo, x))
\* y1000 is a possible new velocity
VelOk(a, x, v, p, n, g, y1000) == LET s == (IF a.int THEN 32 ELSE 0) IN
  /\ y1000 * 64 >= 1000 * Clip(VLo(a, x, v, p, n, g) - s, a.lo * 64, a.hi * 64) - 64
  /\ y1000 * 64 <= 1000 * Clip(VHi(a, x, v, p, n, g) + s, a.lo * 64, a.hi * 64) + 64
  /\ (a.int => y1000 % 1000 = 0)
Fly(x, v, lo, hi) == [j \in DOMAIN x |-> Clip(x[j] + v[j], lo, hi)]
=============================================================================
