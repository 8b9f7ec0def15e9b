---------------------------- MODULE SkipListAlgo ----------------------------
(* The skip list of dsx/mapx/sklmapx: nodes with up to H levels of successors between a head and a tail, a     *)
(* search that goes right as long as the key there is smaller and down otherwise, and an iterator that keeps   *)
(* its node and searches again when the node has left the map.  A node's height is drawn at random: any.       *)
(* Refines SkipMap.tla: every operation has the effect and the result it has on the sorted sequence.           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS H, K, ValSet
KeySet == 1..K
N == 2 * K
First == 0
Last_ == N + 1
NoNode == -1
VARIABLES nodes, itNode, stale, size, last
avars == <<nodes, itNode, stale, size, last>>
Blank == [key |-> 0, val |-> 0, h |-> 0, next |-> [i \in 1..H |-> Last_], gone |-> FALSE]
EmptyN == [n \in 0..N |-> Blank]
AInit == nodes = EmptyN /\ itNode = NoNode /\ stale = FALSE /\ size = 0 /\ last = [op |-> [op |-> "none"], r |-> 0]

RECURSIVE Right(_, _, _)
Right(x, i, k) == LET y == nodes[x].next[i] IN IF y # Last_ /\ nodes[y].key < k THEN Right(y, i, k) ELSE x
RECURSIVE Down(_, _, _)
Down(x, i, k) == IF i = 0 THEN <<>> ELSE LET y == Right(x, i, k) IN Append(Down(y, i - 1, k), y)
Ctx(k) == Down(First, H, k)                  \* at each level the last node before k
Search(k) == LET x == nodes[Ctx(k)[1]].next[1] IN IF x # Last_ /\ nodes[x].key = k THEN x ELSE NoNode

RECURSIVE Walk(_, _)
Walk(x, i) == IF x = Last_ THEN <<>> ELSE <<x>> \o Walk(nodes[x].next[i], i)
Level(i) == Walk(nodes[First].next[i], i)
AbsMap == [j \in 1..Len(Level(1)) |-> <<nodes[Level(1)[j]].key, nodes[Level(1)[j]].val>>]
M == INSTANCE SkipMap WITH MKinds <- {0}, MMaps <- 1, MKeys <- {}, MVals <- ValSet, MIters <- 1, MReads <- TRUE
Abs == [kind |-> 0, ms |-> <<AbsMap>>, it |-> <<[m |-> 1, k |-> IF itNode = NoNode THEN M!NoKey ELSE nodes[itNode].key]>>]

(* A node for key k is k or, as long as an iterator keeps a node that has left the map, k + K.  A node no one   *)
(* can reach any more is blank.                                                                                *)
InList(n) == \E j \in 1..Len(Level(1)) : Level(1)[j] = n
FreeNodes == {n \in 1..N : ~InList(n) /\ n # itNode}
(* the iterator moves from its node to n *)
Without(n) == IF itNode # NoNode /\ itNode # n /\ ~InList(itNode) THEN [nodes EXCEPT ![itNode] = Blank] ELSE nodes
Said(o, r) == last' = [op |-> o, r |-> r]

Set(k, v) == /\ LET x == Search(k) IN
                IF x # NoNode THEN nodes' = [nodes EXCEPT ![x].val = v] /\ UNCHANGED size
                ELSE \E h \in 1..H : LET c == Ctx(k)
                                         n == IF k \in FreeNodes THEN k ELSE k + K
                                         new == [key |-> k, val |-> v, h |-> h, gone |-> FALSE,
                                                 next |-> [i \in 1..H |-> IF i <= h THEN nodes[c[i]].next[i] ELSE Last_]]
                                     IN /\ nodes' = [m \in 0..N |-> IF m = n THEN new
                                                       ELSE [nodes[m] EXCEPT !.next = [i \in 1..H |-> IF i <= h /\ c[i] = m THEN n ELSE nodes[m].next[i]]]]
                                        /\ size' = size + 1
             /\ Said([op |-> "Set", m |-> 1, k |-> k, v |-> v], TRUE) /\ UNCHANGED <<itNode, stale>>
Del(k) == /\ LET x == Search(k) IN
             IF x = NoNode THEN UNCHANGED <<nodes, size>>
             ELSE LET c == Ctx(k) IN
                  /\ nodes' = [m \in 0..N |-> IF m = x THEN (IF x = itNode THEN [nodes[m] EXCEPT !.gone = TRUE] ELSE Blank)
                                 ELSE [nodes[m] EXCEPT !.next = [i \in 1..H |-> IF i <= nodes[x].h /\ c[i] = m THEN nodes[x].next[i] ELSE nodes[m].next[i]]]]
                  /\ size' = size - 1
          /\ Said([op |-> "Del", m |-> 1, k |-> k], Search(k) # NoNode) /\ UNCHANGED <<itNode, stale>>
Clear == /\ nodes' = [m \in 0..N |-> IF m = itNode THEN nodes[m] ELSE Blank]
         /\ stale' = (itNode # NoNode) /\ size' = 0
         /\ Said([op |-> "Clear", m |-> 1], TRUE) /\ UNCHANGED itNode
Get(k) == /\ Said([op |-> "Get", m |-> 1, k |-> k], IF Search(k) = NoNode THEN <<>> ELSE <<nodes[Search(k)].val>>)
          /\ UNCHANGED <<nodes, itNode, stale, size>>
Size == Said([op |-> "Len", m |-> 1], size) /\ UNCHANGED <<nodes, itNode, stale, size>>
Seek(k) == /\ itNode' = Search(k) /\ stale' = FALSE
           /\ nodes' = Without(Search(k))
           /\ Said([op |-> "Seek", i |-> 1, k |-> k], IF Search(k) = NoNode THEN <<>> ELSE <<k, nodes[Search(k)].val>>)
           /\ UNCHANGED size
Rewind == itNode' = NoNode /\ stale' = FALSE /\ nodes' = Without(NoNode) /\ Said([op |-> "Rewind", i |-> 1], TRUE) /\ UNCHANGED size
NextNode == IF itNode = NoNode THEN nodes[First].next[1]
            ELSE IF nodes[itNode].gone \/ stale
                 THEN LET k == nodes[itNode].key IN IF Search(k) = NoNode THEN nodes[Ctx(k)[1]].next[1] ELSE nodes[Search(k)].next[1]
                 ELSE nodes[itNode].next[1]
Next == LET n == NextNode IN
        /\ IF n = Last_ THEN UNCHANGED <<itNode, stale, nodes>> ELSE itNode' = n /\ stale' = FALSE /\ nodes' = Without(n)
        /\ Said([op |-> "Next", i |-> 1], IF n = Last_ THEN <<>> ELSE <<nodes[n].key, nodes[n].val>>)
        /\ UNCHANGED size

ANext == \/ \E k \in KeySet : (\E v \in ValSet : Set(k, v)) \/ Del(k) \/ Get(k) \/ Seek(k)
         \/ Clear \/ Size \/ Rewind \/ Next
ASpec == AInit /\ [][ANext]_avars
View == <<nodes, itNode, stale, size>>
Refines == [][\E x \in M!Do(Abs, last'.op) : x.st = Abs' /\ x.r = last'.r]_avars
Sorted == \A i \in 1..H : LET l == Level(i) IN
            /\ \A j \in 1..Len(l) - 1 : nodes[l[j]].key < nodes[l[j + 1]].key
            /\ \A j \in 1..Len(l) : nodes[l[j]].h >= i /\ ~nodes[l[j]].gone
            /\ i > 1 => \A j \in 1..Len(l) : InList(l[j])
Count == size = Len(Level(1)) /\ \A n \in 1..N : InList(n) => \A i \in 1..nodes[n].h : \E j \in 1..Len(Level(i)) : Level(i)[j] = n
=============================================================================
