------------------------------ MODULE NestHeap ------------------------------
(* Assignment of owners in two steps, on a heap of elements (property C28).   *)
(* Every owner is a slot or the one inside an element; an element that is     *)
(* released takes the owner inside it along. x := move(y) takes the content   *)
(* of y and releases the former content of x, in one order or the other. Only *)
(* one of them implements Nest: y may be inside of what x releases.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Slots, Vals, Ids, TakeFirst
VARIABLES own,    \* owner -> sequence of elements
          val,    \* element -> value
          alive,  \* elements that exist
          todo,   \* what is left to do of the assignment in progress
          stray,  \* an owner was read after it was released
          ret, op
vars == <<own, val, alive, todo, stray, ret, op>>

Owners == Slots \cup Ids
RECURSIVE Reach(_)
Reach(s) == UNION {{s[i]} \cup Reach(own[s[i]]) : i \in DOMAIN s}
RECURSIVE Tree(_)
Tree(s) == [i \in DOMAIN s |-> <<val[s[i]], Tree(own[s[i]])>>]
Abs == [c \in Slots |-> Tree(own[c])]
N == INSTANCE Nest WITH st <- Abs, Kind <- "seq", MaxNodes <- 99

Exists(x) == x \in Slots \/ x \in alive
Idle == todo = <<>>
Ok == ret' = <<"ok", 0>>

\* the first step of x := move(y)
Begin(x, y) ==
    /\ Idle
    /\ IF TakeFirst
       THEN /\ own' = [own EXCEPT ![x] = own[y], ![y] = <<>>]
            /\ todo' = <<"release", own[x]>> /\ alive' = alive
       ELSE /\ own' = [own EXCEPT ![x] = <<>>]
            /\ todo' = <<"take", x, y>> /\ alive' = alive \ Reach(own[x])
    /\ UNCHANGED <<val, stray>> /\ Ok
End ==
    /\ ~Idle /\ todo' = <<>> /\ Ok /\ op' = <<"end">> /\ val' = val
    /\ IF todo[1] = "release"
       THEN alive' = alive \ Reach(todo[2]) /\ own' = own /\ stray' = stray
       ELSE /\ own' = [own EXCEPT ![todo[2]] = own[todo[3]], ![todo[3]] = <<>>]
            /\ stray' = (stray \/ ~Exists(todo[3])) /\ alive' = alive

New(c, v, keep) ==
    LET free == Ids \ alive IN
    /\ Idle /\ free # {}
    /\ LET n == CHOOSE x \in free : TRUE IN
          /\ alive' = alive \cup {n} /\ val' = [val EXCEPT ![n] = v]
          /\ own' = IF keep THEN [own EXCEPT ![c] = Append(own[c], n), ![n] = <<>>]
                    ELSE [own EXCEPT ![c] = <<n>>, ![n] = own[c]]
    /\ UNCHANGED <<todo, stray>> /\ Ok
Drop(c, i) == /\ Idle
              /\ own' = [own EXCEPT ![c] = N!Without(own[c], i)]
              /\ alive' = alive \ Reach(<<own[c][i]>>)
              /\ UNCHANGED <<val, todo, stray>> /\ Ok

In(c) == DOMAIN own[c] \cap {1, 2}
Next ==
    \/ End
    \/ \E c \in Slots : \E v \in Vals : New(c, v, FALSE) /\ op' = <<"wrap", c, v>>
    \/ \E c \in Slots : \E v \in Vals : New(c, v, TRUE) /\ op' = <<"push", c, v>>
    \/ \E c \in Slots : \E i \in In(c) : Begin(c, own[c][i]) /\ op' = <<"lift", c, i>>
    \/ \E c \in Slots : \E i \in In(c) : own[own[c][i]] # <<>> /\ Begin(c, own[own[c][i]][1]) /\ op' = <<"lift2", c, i>>
    \/ \E c \in Slots : \E d \in Slots \ {c} : \E i \in In(d) : Begin(c, own[d][i]) /\ op' = <<"take", c, d, i>>
    \/ \E c \in Slots : \E d \in Slots \ {c} : \E i \in In(d) : Begin(own[d][i], c) /\ op' = <<"plant", c, d, i>>
    \/ \E c \in Slots : \E d \in Slots \ {c} : Begin(c, d) /\ op' = <<"move", c, d>>
    \/ \E c \in Slots : \E i \in In(c) : Drop(c, i) /\ op' = <<"drop", c, i>>
Init == /\ own = [x \in Owners |-> <<>>] /\ val = [x \in Ids |-> 1] /\ alive = {} /\ todo = <<>> /\ stray = FALSE
        /\ ret = <<"ok", 0>> /\ op = <<"init">>
Spec == Init /\ [][Next]_vars
View == <<own, val, alive, todo, stray>>

(* ------------------------------ properties ------------------------------- *)
NoStrayRead == ~stray
OneOwner == \A x, y \in Slots \cup alive : \A i \in DOMAIN own[x] : \A j \in DOMAIN own[y] :
                own[x][i] = own[y][j] => x = y /\ i = j
\* what exists is what can be reached, or is about to be released
NoLeak == alive = UNION {Reach(own[c]) : c \in Slots} \cup (IF Idle \/ todo[1] = "take" THEN {} ELSE Reach(todo[2]))
\* every step is a step of Nest, or changes nothing that can be seen
Refines == [][\E o \in N!Ops : N!Do(o)]_Abs
=============================================================================
