-------------------------------- MODULE QSort -------------------------------
(* The sorting algorithm of Collections/Operation.h (SortLambda), step by step:  *)
(* a pivot that travels between the two ends, equal elements gathered around it, *)
(* the smaller side sorted by a recursive call and the larger by iteration.      *)
(* Checked for every small input: it terminates, permutes, orders, never leaves   *)
(* the array, and raises an error if the comparator ever said "unordered".       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS KeyVals, MaxLen, Cmps
VARIABLES a, todo, pc, base, len, pivot, left, right, flag, rd, wr, cmp, orig, told
vars == <<a, todo, pc, base, len, pivot, left, right, flag, rd, wr, cmp, orig, told>>
S == INSTANCE Sort WITH st <- [arr |-> a, told |-> told], ret <- <<>>, op <- <<>>
Swap(i, j) == [a EXCEPT ![base + i + 1] = a[base + j + 1], ![base + j + 1] = a[base + i + 1]]
C(i, j) == S!Cmp(cmp, a[base + i + 1], a[base + j + 1])
Init == /\ \E xs \in UNION {[1..n -> KeyVals] : n \in 0..MaxLen} : a = S!Tag(xs)
        /\ cmp \in Cmps /\ orig = a /\ todo = <<<<0, Len(a)>>>> /\ pc = "pop"
        /\ base = 0 /\ len = 0 /\ pivot = 0 /\ left = 0 /\ right = 0 /\ flag = FALSE /\ rd = 0 /\ wr = 0 /\ told = 0
Keep == UNCHANGED <<cmp, orig>>
Pop == /\ pc = "pop"
       /\ IF todo = <<>> THEN pc' = "done" /\ UNCHANGED <<a, todo, base, len, pivot, left, right, flag, rd, wr, told>>
          ELSE /\ base' = Head(todo)[1] /\ len' = Head(todo)[2] /\ todo' = Tail(todo)
               /\ pc' = IF Head(todo)[2] = 0 THEN "pop" ELSE "split"
               /\ pivot' = 0 /\ left' = 0 /\ right' = 0 /\ flag' = FALSE
               /\ UNCHANGED <<a, rd, wr, told>>
       /\ Keep
Split == /\ pc = "split" /\ Keep
         /\ IF left + right + 1 = len
            THEN pc' = "gatherleft" /\ rd' = left - 1 /\ wr' = left - 1 /\ UNCHANGED <<a, todo, base, len, pivot, left, right, flag, told>>
            ELSE LET cand == IF flag THEN left ELSE len - right - 1
                     c == C(pivot, cand)
                     stay == IF flag THEN c \in {"gt", "eq"} ELSE c \in {"lt", "eq"} IN
                 IF c = "un" THEN pc' = "error" /\ told' = told + 1 /\ UNCHANGED <<a, todo, base, len, pivot, left, right, flag, rd, wr>>
                 ELSE IF stay THEN /\ IF flag THEN left' = left + 1 /\ right' = right ELSE right' = right + 1 /\ left' = left
                                   /\ UNCHANGED <<a, todo, base, len, pivot, flag, rd, wr, pc, told>>
                 ELSE /\ IF flag THEN right' = right + 1 /\ left' = left ELSE left' = left + 1 /\ right' = right
                      /\ a' = Swap(pivot, cand) /\ pivot' = cand /\ flag' = ~flag
                      /\ UNCHANGED <<todo, base, len, rd, wr, pc, told>>
GatherLeft == /\ pc = "gatherleft" /\ Keep
              /\ IF rd < 0 THEN left' = wr + 1 /\ pc' = "gatherright" /\ rd' = len - right /\ wr' = len - right /\ UNCHANGED <<a, todo, base, len, pivot, right, flag, told>>
                 ELSE LET c == C(pivot, rd) IN
                      IF c = "un" THEN pc' = "error" /\ told' = told + 1 /\ UNCHANGED <<a, todo, base, len, pivot, left, right, flag, rd, wr>>
                      ELSE /\ IF c = "eq" THEN a' = Swap(rd, wr) /\ wr' = wr - 1 ELSE a' = a /\ wr' = wr
                           /\ rd' = rd - 1 /\ UNCHANGED <<todo, base, len, pivot, left, right, flag, pc, told>>
GatherRight == /\ pc = "gatherright" /\ Keep
               /\ IF rd >= len THEN LET r == len - wr IN
                     /\ right' = r /\ pc' = "pop"
                     \* both sides, the smaller one first
                     /\ todo' = IF left < r THEN <<<<base, left>>, <<base + len - r, r>>>> \o todo
                                            ELSE <<<<base + len - r, r>>, <<base, left>>>> \o todo
                     /\ UNCHANGED <<a, base, len, pivot, left, flag, rd, wr, told>>
                  ELSE LET c == C(pivot, rd) IN
                      IF c = "un" THEN pc' = "error" /\ told' = told + 1 /\ UNCHANGED <<a, todo, base, len, pivot, left, right, flag, rd, wr>>
                      ELSE /\ IF c = "eq" THEN a' = Swap(rd, wr) /\ wr' = wr + 1 ELSE a' = a /\ wr' = wr
                           /\ rd' = rd + 1 /\ UNCHANGED <<todo, base, len, pivot, left, right, flag, pc, told>>
Next == Pop \/ Split \/ GatherLeft \/ GatherRight
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == vars
Permutes == S!IsPerm(a, orig)
SortedAtEnd == pc = "done" => S!Ordered(cmp, a) /\ (S!Total(cmp) => S!OrderedAll(cmp, a))
NoSilentUnordered == told > 0 => pc = "error"
FailsOnlyIfUnordered == pc = "error" => told > 0
InsideArray == /\ base >= 0 /\ base + len <= Len(a) /\ left + right <= len
               /\ pc = "split" => pivot \in 0..(len - 1)
Terminates == <>(pc \in {"done", "error"})
=============================================================================
