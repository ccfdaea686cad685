----------------------------- MODULE Adaptation -----------------------------
(* Adapting a normal distribution to ranked parents: the centre becomes the   *)
(* weighted mean of the parents, better ones weighing at least as much; the   *)
(* step size grows when the accumulated path is longer than that of a random  *)
(* walk and shrinks when it is shorter; only ranks of fitnesses matter, and   *)
(* moving or stretching the whole picture moves or stretches the result.      *)
EXTENDS Common
\* weights as whole numbers of which One make up the unit
Weights(w, one, k) == /\ Len(w) = k /\ Abs(SumSeq(w) - one) <= k
                      /\ (\A i \in DOMAIN w : w[i] > 0)
                      /\ (\A i \in 1..(k - 1) : w[i] >= w[i + 1] - 1)
EqualWeights(w) == \A i, j \in DOMAIN w : Abs(w[i] - w[j]) <= 1
LinearWeights(w) == \A i \in DOMAIN w : Abs(w[i] * Len(w) - w[1] * (Len(w) - i + 1)) <= 2 * Len(w)
\* strictly decreasing, by less and less
ConvexWeights(w) == /\ (\A i \in 1..(Len(w) - 1) : w[i] > w[i + 1])
                    /\ (\A i \in 1..(Len(w) - 2) : w[i] - w[i + 1] > w[i + 1] - w[i + 2])
Recombined(w, ranked, j) == SumSeq([i \in DOMAIN ranked |-> w[i] * ranked[i][j]])
Close(a, b, tol) == Abs(a - b) <= tol
CloseVec(u, v, tol) == Len(u) = Len(v) /\ \A i \in DOMAIN u : Close(u[i], v[i], tol)
CloseMat(u, v, tol) == Len(u) = Len(v) /\ \A i \in DOMAIN u : CloseVec(u[i], v[i], tol)
\* path: length of the path in thousandths of the expected one; grow: factor in millionths
StepRule(path, grow) == /\ (path > 1010 => grow > 1000000) /\ (path < 990 => grow < 1000000)
\* the path of the covariance takes in the move unless the other path is too long; the
\* covariance keeps part of itself (more if the move was left out) and learns from path and parents
PathRule(pc, keep, move, h) == \A j \in DOMAIN pc : Close(pc[j], keep[j] + (IF h THEN move[j] ELSE 0), 3)
Learned(new, old, one, mix, c1, cmu, cor, h) == \A i \in DOMAIN new, j \in DOMAIN new :
  Close(10000 * new[i][j], (10000 - c1 - cmu) * old[i][j] + c1 * (one[i][j] + (IF h THEN 0 ELSE (cor * old[i][j]) \div 10000)) + cmu * mix[i][j], 50000)
\* parents sorted by fitness, best first (ties in any order)
RankedBy(ps, fit) == \A i \in 1..(Len(ps) - 1) : fit[ps[i]] >= fit[ps[i + 1]]
=============================================================================
