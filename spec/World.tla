------------------------------- MODULE World --------------------------------
(* Any number of containers and helpers side by side.  Each behaves as its own specification says, whatever    *)
(* happens to the others: operation o.o is applied to instance number o.i, of component o.c, alone.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS WComps, WMany, WSize
None == {}
Q == INSTANCE Queue WITH QVals <- {1, 2}, QCaps <- {0, 2}, QMax <- WSize
S == INSTANCE Stack WITH SVals <- {1, 2}, SMax <- WSize
D == INSTANCE Deque WITH DVals <- {1, 2}, DBulk <- None, DLens <- 0..WSize
L == INSTANCE ListSeq WITH LVals <- {1, 2}, LMax <- WSize
K == INSTANCE SkipMap WITH MKinds <- {0}, MMaps <- 1, MKeys <- 0..(WSize - 1), MVals <- {1}, MIters <- 1, MReads <- FALSE
O == INSTANCE OrdMap WITH OKinds <- {0}, OKeys <- 0..(WSize - 1), OVals <- {1}, OScripts <- None
E == INSTANCE SliceEdit WITH EVals <- {1}, EMax <- WSize, EHandles <- 1, EEdit <- TRUE, ERearr <- FALSE
B == INSTANCE BitSet WITH BKinds <- {0}, BPos <- 0..WSize, BMany <- FALSE
T == INSTANCE SortSearch WITH TKeys <- None, TLen <- 0, TSearch <- FALSE
I == INSTANCE Interval WITH IOffs <- None, IBands <- None, ILen <- 0
R == INSTANCE Branches WITH BKinds <- None, BVals <- {0, 1}, BHeld <- 1, BFuncs <- 0

Fresh == [start |-> TRUE]
OpsOf(c, s) == CASE c = "queue" -> Q!Ops(s) [] c = "stack" -> S!Ops(s) [] c = "deque" -> D!Ops(s) [] c = "list" -> L!Ops(s)
                 [] c = "skipmap" -> K!Ops(s) [] c = "ordmap" -> O!Ops(s) [] c = "slice" -> E!Ops(s) [] c = "bitset" -> B!Ops(s)
DoOf(c, s, o) == CASE c = "queue" -> Q!Do(s, o) [] c = "stack" -> S!Do(s, o) [] c = "deque" -> D!Do(s, o) [] c = "list" -> L!Do(s, o)
                   [] c = "skipmap" -> K!Do(s, o) [] c = "ordmap" -> O!Do(s, o) [] c = "slice" -> E!Do(s, o) [] c = "bitset" -> B!Do(s, o)
                   [] c = "sorts" -> T!Do(s, o) [] c = "interval" -> I!Do(s, o) [] c = "branches" -> R!Do(s, o)

(* The instances: number -> [c, st]. *)
Start == Fresh
Is(w) == IF w = Fresh THEN <<>> ELSE w.is
At(w, i) == IF i \in DOMAIN Is(w) THEN Is(w)[i].st ELSE Fresh
(* Bounded exploration: instances of one kind, made one after the other. *)
Ops(w) == LET n == Cardinality(DOMAIN Is(w)) IN
          UNION {{[i |-> i, c |-> w.is[i].c, o |-> o] : o \in OpsOf(w.is[i].c, w.is[i].st)} : i \in 1..n}
          \cup (IF n >= WMany THEN {}
                ELSE UNION {{[i |-> n + 1, c |-> c, o |-> o] : o \in OpsOf(c, Fresh)} : c \in IF n = 0 THEN WComps ELSE {w.is[1].c}})
Do(w, o) == {[st |-> [is |-> (o.i :> [c |-> o.c, st |-> x.st]) @@ Is(w)], r |-> x.r] : x \in DoOf(o.c, At(w, o.i), o.o)}
=============================================================================
