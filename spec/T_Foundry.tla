----------------------------- MODULE T_Foundry ------------------------------
(* Histories of real forges and runs of real foundries.                      *)
EXTENDS Foundry, TraceBase
VARIABLES f, p, newest
vars == <<f, p, newest>>
\* f: the forge by reference, p: its shared-pointer instances (cached apart)
TNew == IsOp("new") /\ f' = EmptyForge(E.cache) /\ p' = EmptyForge(E.cache) /\ newest' = 0
TPut == IsOp("put") /\ f' = Put(f, E.k, E.r) /\ p' = Put(p, E.k, E.r) /\ UNCHANGED newest
TMake == /\ IsOp("make") /\ E.r = f.recipe[E.k]
         /\ TRUE = Made(f, E.k, E.r, E.serial, newest)
         /\ f' = Remember(f, E.k, E.serial) /\ newest' = MaxOf(newest, E.serial) /\ UNCHANGED p
TMakeP == /\ IsOp("makeptr") /\ TRUE = ~E.null
          /\ TRUE = Made(p, E.k, E.r, E.serial, newest)
          /\ p' = Remember(p, E.k, E.serial) /\ newest' = MaxOf(newest, E.serial) /\ UNCHANGED f
TRefuse == IsOp("refuse") /\ TRUE = E.threw /\ TRUE = ~Known(f, E.k) /\ UNCHANGED vars
TScalar == IsOp("scalar") /\ E.got = E.v /\ UNCHANGED vars
TEnc == IsOp("enc") /\ E.got = E.want /\ UNCHANGED vars
Sets(u) == [r \in DOMAIN u |-> ToSet(u[r])]
TFast == /\ IsOp("fast")
         /\ TRUE = FastUse(Sets(E.used), E.sel, E.crate, E.mrate, E.offs)
         /\ TRUE = (\A i \in DOMAIN E.sizes : E.sizes[i] = (IF E.offs = 0 THEN E.n ELSE E.offs))
         /\ TRUE = (E.evals <= E.max)
         /\ TRUE = (E.evals < E.max => E.gens = E.sel.cont[2])
         /\ TRUE = (E.gens <= E.sel.cont[2])
         /\ TRUE = E.truthful
         /\ UNCHANGED vars
TEA == /\ IsOp("ea")
       /\ TRUE = EAUse(Sets(E.used), E.sel)
       /\ E.gens = MinOf(E.maxgen, E.sel.cont[2])
       /\ TRUE = E.truthful
       /\ UNCHANGED vars
\* the names given for a configuration, in order, with their ranks
TName == IsOp("name") /\ E.got = E.want /\ UNCHANGED vars
TDecode == /\ IsOp("decode")
           /\ LET d == Decodes(E.xs, E.one) IN
              /\ TRUE = (InRange(d, E.sizes) => (E.ran /\ E.enc = d /\ E.fit = E.best))
              /\ TRUE = (~InRange(d, E.sizes) => (~E.ran /\ E.fit = E.penalty))
           /\ UNCHANGED vars
TKept == IsOp("kept") /\ TRUE = (~E.ran /\ E.fit = E.before) /\ UNCHANGED vars
TraceInit == l = 1 /\ f = EmptyForge(TRUE) /\ p = EmptyForge(TRUE) /\ newest = 0
TraceNext == TNew \/ TPut \/ TMake \/ TMakeP \/ TRefuse \/ TScalar \/ TEnc \/ TFast \/ TEA \/ TName \/ TDecode \/ TKept
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
