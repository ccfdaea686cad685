--------------------------- MODULE MC_Persistence ---------------------------
(* Programs that register, change, write, read, save and load objects in any *)
(* order, with a second program (another registry over other objects of the   *)
(* same classes) reading the first one's files.                            *)
EXTENDS Persistence
CONSTANTS V, Q, R
\* objects 1..3 belong to program 1, objects 4..6 to program 2
Order == <<<<1, 3, 2>>, <<4, 5, 6>>>>
Obj == UNION {{Order[p][i] : i \in 1..R} : p \in 1..2}
Class == <<"pop", "rng", "pop", "pop", "pop", "rng">>
Registry(p, n) == LET c == [i \in 1..n |-> Class[Order[p][i]]] IN LET nm == Names(c) IN [i \in 1..n |-> <<nm[i], Order[p][i]>>]
VARIABLES mem, nreg, stream, file, snap, hist
vars == <<mem, nreg, stream, file, snap, hist>>
Init == mem = [o \in Obj |-> 0] /\ nreg = [p \in 1..2 |-> 0] /\ stream = <<>> /\ file = <<>> /\ snap = <<>> /\ hist = <<>>
Change(o, v) == mem' = [mem EXCEPT ![o] = v] /\ UNCHANGED <<nreg, stream, file, snap, hist>>
Register(p) == nreg[p] < R /\ nreg' = [nreg EXCEPT ![p] = @ + 1] /\ UNCHANGED <<mem, stream, file, snap, hist>>
Write(o) == Len(stream) < Q /\ stream' = Append(stream, mem[o]) /\ hist' = Append(hist, <<o, mem[o]>>) /\ UNCHANGED <<mem, nreg, file, snap>>
Read(o) == Len(stream) > 0 /\ mem' = [mem EXCEPT ![o] = Head(stream)] /\ stream' = Tail(stream) /\ hist' = Tail(hist) /\ UNCHANGED <<nreg, file, snap>>
Save(p) == nreg[p] > 0 /\ file' = Saved(Registry(p, nreg[p]), mem) /\ snap' = [i \in 1..nreg[p] |-> mem[Order[p][i]]] /\ UNCHANGED <<mem, nreg, stream, hist>>
Load(p) ==
  /\ nreg[p] > 0 /\ file # <<>>
  /\ LET r == Registry(p, nreg[p])
     IN mem' = Loaded(file, r, mem)
  /\ UNCHANGED <<nreg, stream, file, snap, hist>>
Next == \/ \E o \in Obj, v \in 0..V : Change(o, v)
        \/ \E p \in 1..2 : Register(p) \/ Save(p) \/ Load(p)
        \/ \E o \in Obj : Write(o) \/ Read(o)
Spec == Init /\ [][Next]_vars
StreamIsHistory == stream = [i \in 1..Len(hist) |-> hist[i][2]]
NamesDiffer == \A p \in 1..2 : LET r == Registry(p, nreg[p]) IN \A i, j \in 1..Len(r) : i # j => r[i][1] # r[j][1]
Restores ==
  [][ \A p \in 1..2 : Load(p) =>
        LET r == Registry(p, nreg[p]) IN
        /\ \A o \in Obj : (\A i \in 1..Len(r) : r[i][2] # o) => mem'[o] = mem[o]
        /\ \A i \in 1..Len(r) : Known(file, r[i][1]) => mem'[r[i][2]] = snap[CHOOSE j \in 1..Len(file) : file[j][1] = r[i][1]]
        /\ \A i \in 1..Len(r) : ~Known(file, r[i][1]) => mem'[r[i][2]] = mem[r[i][2]]
    ]_vars
Idempotent == \A p \in 1..2 : nreg[p] > 0 => LET r == Registry(p, nreg[p]) IN Loaded(file, r, Loaded(file, r, mem)) = Loaded(file, r, mem)
=============================================================================
