--------------------------------- MODULE Thr --------------------------------
(* Reference counting by threads, in atomic steps (property C02): how the pointers *)
(* and strings are built. An operation that gives a slot another owner first       *)
(* increments that owner's counter, then decrements the counter of what the slot   *)
(* owned, and the thread that sees it become zero releases the object. Every       *)
(* thread runs any sequence of MaxOps operations. The observable events of this    *)
(* machine are those of Share.tla: TLC checks that under every interleaving each   *)
(* event is one that Share allows.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, K, M, MaxOps, Bug      \* threads, slots per thread, objects, operations per thread
VARIABLES own, cnt, pc, todo, dead, freed, abs, ok
\* pc[t]: "idle", "inc", "dec", "test", "free"; todo[t]: the operation, what to increment, what to decrement, the value seen, operations left
vars == <<own, cnt, pc, todo, dead, freed, abs, ok>>
S == INSTANCE Share WITH st <- abs, ret <- 0, op <- <<>>

T == 1..N
Slots == 1..K
Objs == 1..M
OpSet == {<<n, d, s>> : n \in {"copy", "move"}, d \in Slots, s \in Slots} \cup {<<"drop", d>> : d \in Slots} \cup {<<"read", d>> : d \in Slots}
Legal(o) == Len(o) = 3 => o[2] # o[3]
CountOf(f, k) == Cardinality({<<t, i>> \in T \X Slots : f[t][i] = k})
Init ==
    /\ own \in [T -> [Slots -> 0..M]]
    /\ \A t \in T : \A i \in Slots : own[t][i] = 0 \/ own[t][i] = ((t + i) % M) + 1 \/ own[t][i] = 1
    /\ \A k \in Objs : CountOf(own, k) > 0
    /\ cnt = [k \in Objs |-> CountOf(own, k)]
    /\ pc = [t \in T |-> "idle"]
    /\ todo = [t \in T |-> [o |-> <<>>, inc |-> 0, dec |-> 0, left |-> MaxOps]]
    /\ dead = {} /\ freed = [k \in Objs |-> 0]
    /\ abs = [own |-> own, doing |-> [t \in T |-> <<>>], dead |-> {}]
    /\ ok = TRUE
\* ok while Share explains everything that was seen
See(may, s) == ok' = may /\ abs' = s
Start(t) == \E o \in OpSet :
    /\ Legal(o) /\ pc[t] = "idle" /\ todo[t].left > 0
    /\ LET inc == IF o[1] = "copy" THEN own[t][o[3]] ELSE 0
           dec == IF o[1] = "read" THEN 0 ELSE own[t][o[2]] IN
       /\ todo' = [todo EXCEPT ![t] = [o |-> o, inc |-> inc, dec |-> dec, left |-> @.left - 1]]
       /\ pc' = [pc EXCEPT ![t] = IF inc # 0 THEN "inc" ELSE IF dec # 0 THEN "dec" ELSE "done"]
    /\ See(S!MayBegin(abs, t), S!Begin(abs, t, o))
    /\ UNCHANGED <<own, cnt, dead, freed>>
Inc(t) ==
    /\ pc[t] = "inc"
    /\ cnt' = [cnt EXCEPT ![todo[t].inc] = @ + 1]
    /\ pc' = [pc EXCEPT ![t] = IF todo[t].dec # 0 THEN "dec" ELSE "done"]
    /\ UNCHANGED <<own, todo, dead, freed, abs, ok>>
Dec(t) ==
    /\ pc[t] = "dec"
    /\ cnt' = [cnt EXCEPT ![todo[t].dec] = @ - 1]
    /\ pc' = [pc EXCEPT ![t] = IF Bug = "reread" THEN "test" ELSE IF cnt'[todo[t].dec] = 0 THEN "free" ELSE "done"]
    /\ UNCHANGED <<own, todo, dead, freed, abs, ok>>
\* the mistake of looking at the counter once more
Test(t) ==
    /\ pc[t] = "test"
    /\ pc' = [pc EXCEPT ![t] = IF cnt[todo[t].dec] = 0 THEN "free" ELSE "done"]
    /\ UNCHANGED <<own, cnt, todo, dead, freed, abs, ok>>
Free(t) == LET k == todo[t].dec IN
    /\ pc[t] = "free"
    /\ dead' = dead \cup {k}
    /\ freed' = [freed EXCEPT ![k] = @ + 1]
    /\ pc' = [pc EXCEPT ![t] = "done"]
    /\ See(S!MayDestroy(abs, t, k), S!Destroy(abs, k))
    /\ UNCHANGED <<own, cnt, todo>>
Done(t) ==
    /\ pc[t] = "done"
    /\ own' = [own EXCEPT ![t] = S!Effect(@, todo[t].o)]
    /\ pc' = [pc EXCEPT ![t] = "idle"]
    /\ todo' = [todo EXCEPT ![t] = [o |-> <<>>, inc |-> 0, dec |-> 0, left |-> @.left]]
    /\ See(S!MayEnd(abs, t), S!End(abs, t))
    /\ UNCHANGED <<cnt, dead, freed>>
Next == ok /\ \E t \in T : Start(t) \/ Inc(t) \/ Dec(t) \/ Test(t) \/ Free(t) \/ Done(t)
Spec == Init /\ [][Next]_vars
View == vars
Explained == ok
OncePerObject == \A k \in Objs : freed[k] <= 1
\* nobody who owns an object finds it released, and nothing touches the counter of a released object
NoUseAfterRelease == \A t \in T :
    /\ \A i \in Slots : own[t][i] # 0 /\ ~ (pc[t] \in {"free", "done", "test"} /\ todo[t].o[2] = i) => own[t][i] \notin dead
    /\ pc[t] = "inc" => todo[t].inc \notin dead
    /\ pc[t] \in {"dec", "free"} => todo[t].dec \notin dead
Quiet == \A t \in T : pc[t] = "idle"
Exact == Quiet => \A k \in Objs : cnt[k] = CountOf(own, k) /\ (k \in dead <=> cnt[k] = 0)
=============================================================================
