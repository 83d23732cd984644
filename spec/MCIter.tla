------------------------------- MODULE MCIter -------------------------------
(* Every iterator as the reader implements it - byte ranges that move, bytes  *)
(* that are left, leaves of an index root, slices of text - against the one   *)
(* fixed sequence it has to behave as (C13), under every short call history.  *)
(* Machine words are small (0..Top) here, so that every overflow is reached.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Depth,      \* calls in a history
          Top,        \* the largest machine word; Top + 1 is a power of two
          MaxItems, MaxLeaves, MaxLeaf, MaxText,
          Step        \* bytes per segment of big data

Sat(x) == IF x > Top THEN Top ELSE x
Monus(a, b) == IF a > b THEN a - b ELSE 0
CeilDiv(a, b) == (a + b - 1) \div b

None == 0                 \* results: 0 = nothing, i = the i-th element, -1 = an error that ends knowledge
Lost == -1

(* ------------------------------ what iterates ----------------------------- *)
Configs ==
  [k : {"list"}, n : 0..MaxItems, s : {4, 8}]
  \cup [k : {"root"}, l : UNION {[1..m -> 0..MaxLeaf] : m \in 0..MaxLeaves}]          \* 0: a faulty leaf
  \cup {[k |-> "big", n |-> n, m |-> CeilDiv(n, Step) + x] : n \in (Step + 1)..(3 * Step + 1), x \in 0..1}
  \cup {[k |-> "multi", p |-> p] : p \in
          UNION {{<<SubSeq(t, 1, c), SubSeq(t, c + 1, Len(t))>> : c \in 1..(Len(t) - 1)} \cup {<<t>>}
                 : t \in UNION {[1..m -> {0, 1}] : m \in 1..MaxText}}}
  \cup {[k |-> "multi", p |-> <<t, <<2>>, <<1, 0>>>>] : t \in UNION {[1..m -> {0, 1}] : m \in 1..2}}   \* <<2>>: unreadable

(* the sequence, as the number of its elements *)
Flat(p) == FoldLeft(LAMBDA a, b : a \o b, <<>>, p)
RECURSIVE Strings(_, _)
Strings(u, run) ==          \* complete strings before the end; Lost if the unreadable part is reached
  IF u = <<>> THEN IF run > 0 THEN <<run>> ELSE <<>>
  ELSE IF Head(u) = 2 THEN <<Lost>>
  ELSE IF Head(u) = 1 THEN Strings(Tail(u), run + 1)
  ELSE IF run = 0 THEN <<>> ELSE <<run>> \o Strings(Tail(u), 0)
Denoted(c) ==
  CASE c.k = "list" -> [i \in 1..c.n |-> i]
    [] c.k = "root" -> [i \in 1..FoldLeft(LAMBDA a, x : a + (IF x = 0 THEN 1 ELSE x), 0, c.l) |-> i]
    [] c.k = "big" -> [i \in 1..CeilDiv(c.n, Step) |-> i]
    [] c.k = "multi" -> LET s == Strings(Flat(c.p), 0) IN [i \in 1..Len(s) |-> IF s[i] = Lost THEN Lost ELSE i]

(* --------------------------- the implementation --------------------------- *)
Start(c) ==
  CASE c.k = "list" -> [a |-> 3, b |-> 3 + c.n * c.s]
    [] c.k = "root" -> [j |-> 1, left |-> 0, at |-> 0]
    [] c.k = "big" -> [left |-> c.n, a |-> 1, b |-> 1 + 4 * c.m]
    [] c.k = "multi" -> [cur |-> c.p[1], rest |-> Tail(c.p), at |-> 0, open |-> TRUE]

(* deliver: [r, st] *)
ByteRange(st, s) == IF st.a + s > Top \/ st.a + s > st.b THEN [ok |-> FALSE, st |-> st]
                ELSE [ok |-> TRUE, st |-> [st EXCEPT !.a = @ + s]]
RECURSIVE RootNext(_, _)
RootNext(c, st) ==
  IF st.left > 0 THEN [r |-> st.at + 1, st |-> [st EXCEPT !.left = @ - 1, !.at = @ + 1]]
  ELSE IF st.j > Len(c.l) THEN [r |-> None, st |-> st]
  ELSE IF c.l[st.j] = 0 THEN [r |-> st.at + 1, st |-> [st EXCEPT !.j = @ + 1, !.at = @ + 1]]
  ELSE RootNext(c, [st EXCEPT !.j = @ + 1, !.left = c.l[st.j]])
RECURSIVE MultiNext(_, _)
MultiNext(st, run) ==
  IF st.cur # <<>>
  THEN IF Head(st.cur) = 2 THEN [r |-> Lost, st |-> [st EXCEPT !.cur = <<>>]]
       ELSE IF Head(st.cur) = 1 THEN MultiNext([st EXCEPT !.cur = Tail(@)], run + 1)
       ELSE IF run = 0 THEN [r |-> None, st |-> [st EXCEPT !.cur = <<>>, !.rest = <<>>, !.open = FALSE]]
       ELSE [r |-> st.at + 1, st |-> [st EXCEPT !.cur = Tail(@), !.at = @ + 1]]
  ELSE IF st.rest # <<>> THEN MultiNext([st EXCEPT !.cur = Head(st.rest), !.rest = Tail(@)], run)
  ELSE IF run = 0 THEN [r |-> None, st |-> [st EXCEPT !.open = FALSE]]
  ELSE [r |-> st.at + 1, st |-> [st EXCEPT !.at = @ + 1]]

ItemOf(st, s) == (st.a - 3) \div s + 1
Deliver(c, st) ==
  CASE c.k = "list" -> LET x == ByteRange(st, c.s) IN [r |-> IF x.ok THEN ItemOf(st, c.s) ELSE None, st |-> x.st]
    [] c.k = "root" -> RootNext(c, st)
    [] c.k = "big" ->
         LET take == IF st.left < Step THEN st.left ELSE Step
             x == ByteRange(st, 4)
         IN IF take = 0 \/ ~x.ok THEN [r |-> None, st |-> st]
            ELSE [r |-> (st.a - 1) \div 4 + 1, st |-> [x.st EXCEPT !.left = @ - take]]
    [] c.k = "multi" -> MultiNext(st, 0)

RECURSIVE ByNext(_, _, _)
ByNext(c, st, n) == LET x == Deliver(c, st) IN IF n = 0 \/ x.r \in {None, Lost} THEN x ELSE ByNext(c, x.st, n - 1)
Skip(c, st, n) ==
  CASE c.k = "list" -> Deliver(c, [st EXCEPT !.a = Sat(@ + Sat(n * c.s))])
    [] c.k = "big" -> LET left == Monus(st.left, Sat(n * Step))
                      IN IF left = 0 THEN [r |-> None, st |-> [st EXCEPT !.left = 0]]
                         ELSE Deliver(c, [st EXCEPT !.left = left, !.a = @ + 4 * n])
    [] OTHER -> ByNext(c, st, n)

Width(st) == IF st.a < st.b THEN st.b - st.a ELSE 0
Hint(c, st) ==          \* <<lower, upper>>, upper = -1: unknown
  CASE c.k = "list" -> LET n == Width(st) \div c.s IN <<n, n>>
    [] c.k = "big" -> LET n == CeilDiv(st.left, Step) IN <<n, n>>
    [] OTHER -> <<0, -1>>
RECURSIVE Drain(_, _, _, _)
Drain(c, st, n, last) == LET x == Deliver(c, st) IN IF x.r = None THEN [n |-> n, last |-> last]
                                                    ELSE IF x.r = Lost THEN [n |-> Lost, last |-> Lost]
                                                    ELSE Drain(c, x.st, n + 1, x.r)
CountItems(c, st) == IF c.k \in {"list", "big"} THEN Hint(c, st)[1] ELSE Drain(c, st, 0, None).n
LastItem(c, st) == IF c.k \in {"list", "big"}
               THEN IF Hint(c, st)[1] = 0 THEN None ELSE Skip(c, st, Hint(c, st)[1] - 1).r
               ELSE Drain(c, st, 0, None).last

(* --------------------------------- histories ------------------------------ *)
VARIABLES c, st, pos, h, r, want
vars == <<c, st, pos, h, r, want>>

Distances(cc) == {0, 1, 2, 3, Top} \cup (CASE cc.k = "list" -> {(Top + 1) \div cc.s, Top \div cc.s}
                                         [] cc.k = "big" -> {Top \div Step, Top \div Step + 1, (Top + 1) \div 4, Top \div 4}
                                         [] OTHER -> {})
NextCall == -1
View_ == Denoted(c)
Ended == pos > Len(View_)

Init == c \in Configs /\ st = Start(c) /\ pos = 1 /\ h = <<>> /\ r = None /\ want = None

(* pos = the element that is due; what the sequence view answers *)
Due(n) == IF \E i \in 1..Len(View_) : View_[i] = Lost /\ pos + n >= i THEN Lost
          ELSE IF pos + n > Len(View_) THEN None ELSE View_[pos + n]
Call(op) ==
  LET n == IF op = NextCall THEN 0 ELSE op
      x == IF op = NextCall THEN Deliver(c, st) ELSE Skip(c, st, n)
  IN /\ r' = x.r /\ st' = x.st /\ want' = Due(n)
     /\ pos' = IF pos + n >= Len(View_) THEN Len(View_) + 1 ELSE pos + n + 1
     /\ h' = Append(h, op)
     /\ UNCHANGED c
(* one more call of each sort after the end *)
Next == /\ Len(h) < Depth
        /\ want # Lost
        /\ \E op \in {NextCall} \cup Distances(c) : (Ended => op \in {NextCall, 1, Top}) /\ Call(op)
Spec == Init /\ [][Next]_vars

(* --------------------------------- contract ------------------------------- *)
LeftNow == Len(View_) - pos + 1
Delivers == want # Lost => r = want
StaysLost == r = Lost => want = Lost
Known == want # Lost /\ ~\E i \in 1..Len(View_) : View_[i] = Lost
HintSound == want # Lost =>
               LET x == Hint(c, st) IN /\ x[1] <= LeftNow
                                       /\ x[2] # -1 => x[2] >= LeftNow
                                       /\ c.k \in {"list", "big"} => x = <<LeftNow, LeftNow>>
CountAgrees == Known => CountItems(c, st) = LeftNow
LastAgrees == Known => LastItem(c, st) = (IF LeftNow = 0 THEN None ELSE Len(View_))

Export == (Len(h) > 0) => PrintT(ToJson([c |-> c, h |-> h, ended |-> Ended]))
=============================================================================
