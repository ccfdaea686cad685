--------------------------- MODULE MC_Replacement ---------------------------
(* Generations under each strategy, offspring arbitrary.  Truncations are    *)
(* also carried out step by step (remove one worst / lose a tournament).     *)
EXTENDS Replacement
CONSTANTS N, M, V, Gens
VARIABLES kind, dir, par, off, g, kept, pc
vars == <<kind, dir, par, off, g, kept, pc>>
Num(fs, o) == [i \in DOMAIN fs |-> <<i + o, fs[i]>>]
Init == /\ kind \in {"plus", "comma", "gen", "ssworse", "sstour", "g3", "mgg", "weak", "rmr", "sad"} /\ dir \in {0, 1}
        /\ \E f \in [1..N -> 0..V] : par = Num(f, 0)
        /\ off = <<>> /\ g = 0 /\ kept = BestOf(par, dir) /\ pc = "breed"
Size == CASE kind \in {"comma", "gen", "weak"} -> {N, M} [] kind \in {"ssworse", "sstour"} -> 1..(N - 1) [] OTHER -> 1..M
Breed == /\ pc = "breed" /\ g < Gens
         /\ \E k \in (IF kind = "gen" \/ kind = "weak" THEN {N} ELSE {z \in Size : kind = "comma" => z >= N}) : \E f \in [1..k -> 0..V] : off' = Num(f, N)
         /\ pc' = (IF kind \in {"ssworse", "sstour"} THEN "shrink" ELSE "replace")
         /\ kept' = BestOf(par, dir) /\ UNCHANGED <<kind, dir, par, g>>
Del(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
\* one parent dies: a worst one, or the loser of a tournament between two
Shrink == /\ pc = "shrink" /\ Len(par) + Len(off) > N
          /\ \E i \in DOMAIN par :
             /\ (IF kind = "ssworse" THEN par[i][2] = WorstOf(par, dir) ELSE \E j \in DOMAIN par \ {i} : ~PBetter(par[i][2], par[j][2], dir))
             /\ par' = Del(par, i)
          /\ UNCHANGED <<kind, dir, off, g, kept, pc>>
Refill == /\ pc = "shrink" /\ Len(par) + Len(off) = N /\ par' = Num(Fits(par \o off), 0) /\ off' = <<>> /\ g' = g + 1 /\ pc' = "breed" /\ UNCHANGED <<kind, dir, kept>>
New == CASE kind = "plus" -> Plus(par, off, dir) [] kind = "comma" -> Comma(par, off, dir) [] kind = "gen" -> Fits(off)
         [] kind = "g3" -> G3(par, off, 2, dir) [] kind = "mgg" -> MGG(par, off, 2, dir) [] kind = "weak" -> WeakElite(par, off, dir)
         [] kind = "rmr" -> RMRStrong(par, off, 1, N - 1, Len(off), dir) [] kind = "sad" -> SaD(par, off, 1, 0, 0, 0, dir)
Replace == /\ pc = "replace" /\ par' = Num(New, 0) /\ off' = <<>> /\ g' = g + 1 /\ pc' = "breed" /\ UNCHANGED <<kind, dir, kept>>
Next == Breed \/ Shrink \/ Refill \/ Replace
Spec == Init /\ [][Next]_vars
SizeKept == pc = "breed" => Len(par) = N
\* no elitist strategy loses the best fitness
Elitist == (pc = "breed" /\ kind \in {"plus", "g3", "mgg", "weak", "rmr", "sad"}) => ~PBetter(kept, BestOf(par, dir), dir)
\* with one offspring steady-state keeps the best as well
TourKeepsBest == (pc = "shrink" /\ Len(par) >= 1) => BestOf(par, dir) = kept
\* dropping the worst one by one is truncation to the best
StepwiseIsBest == [][(kind = "ssworse" /\ pc = "shrink" /\ pc' = "breed") => Ranked(par', dir) = Merge2(Fits(par), Fits(off), dir)]_vars
=============================================================================
