---------------------------- MODULE Replacement -----------------------------
(* Replacement strategies, by what they keep.  Results are described by the  *)
(* ranked fitness values kept (ties between individuals are free).           *)
EXTENDS Population

\* the k best / the k worst removed of ranked fitness values
Keep(fs, k) == Take(fs, k)
Merge2(a, b, dir) == RankedF(a \o b, dir)
Plus(par, off, dir) == Keep(Merge2(Fits(par), Fits(off), dir), Len(par))
Comma(par, off, dir) == Keep(Ranked(off, dir), Len(par))
\* steady state: the offspring and the best of the parents
SSWorse(par, off, dir) == Merge2(Fits(off), Keep(Ranked(par, dir), Len(par) - Len(off)), dir)
\* minimal generation gap: the worst e parents and the offspring give their best e
G3(par, off, e, dir) == LET P == Ranked(par, dir) n == Len(par) IN
  Merge2(Take(P, n - e), Take(Merge2(Fits(off), Drop(P, n - e), dir), e), dir)
\* the same with the best offspring kept for sure, the rest by large tournaments
MGG(par, off, e, dir) == LET P == Ranked(par, dir) O == Ranked(off, dir) n == Len(par) IN
  Merge2(Append(Take(P, n - e), O[1]), Take(Merge2(Drop(O, 1), Drop(P, n - e), dir), e - 1), dir)
\* reduce, merge, reduce with elitism (all reductions by truncation)
RMRPool(par, off, elite, rp, ro, dir) == Merge2(Take(Drop(Ranked(par, dir), elite), rp), Take(Ranked(off, dir), ro), dir)
RMRStrong(par, off, elite, rp, ro, dir) == Merge2(Take(Ranked(par, dir), elite), Take(RMRPool(par, off, elite, rp, ro, dir), Len(par) - elite), dir)
\* survive and die
SaD(par, off, sp, dp, so, do, dir) ==
  LET P == Ranked(par, dir) O == Ranked(off, dir)
      rp == Take(Drop(P, sp), (Len(P) - sp) - dp) ro == Take(Drop(O, so), (Len(O) - so) - do)
  IN Merge2(Take(P, sp) \o Take(O, so), Take(Merge2(rp, ro, dir), (Len(par) - sp) - so), dir)
\* the champion replaces a worst one iff it would be lost
WeakElite(par, res, dir) == LET R == Ranked(res, dir) b == BestOf(par, dir) IN
  IF PBetter(b, R[1], dir) THEN RankedF(Append(Take(R, Len(R) - 1), b), dir) ELSE R
=============================================================================
