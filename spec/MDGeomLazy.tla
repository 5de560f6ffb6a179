----------------------------- MODULE MDGeomLazy -----------------------------
(* The lazy trajectory reader as a seekable cursor over n frames.            *)
(*                                                                           *)
(* State: n frames on file, nxt = index of the frame the next sequential     *)
(* read delivers (nxt = n: past the end), and up to two live iterators, each *)
(* remembering the frame it delivered last.  Every public call is one action *)
(* and carries the observation the caller must see.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxN,       \* largest trajectory
          Slices      \* also enumerate slices and index lists

VARIABLES n, nxt, it
vars == <<n, nxt, it>>

None == -99
Fresh == -1           \* iterator created, nothing delivered yet
Absent == -3
Done == -2

Iters == {1, 2}

-----------------------------------------------------------------------------
(* Python's index arithmetic *)
InRange(i) == i >= -n /\ i < n
Norm(i) == IF i < 0 THEN i + n ELSE i

Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

\* slice(a, b, c).indices(n) as the list of positions it denotes
SliceIdx(a, b, c) ==
  LET step == IF c = None THEN 1 ELSE c
      lo == IF step > 0 THEN 0 ELSE -1
      hi == IF step > 0 THEN n ELSE n - 1
      Adj(v) == Clamp(IF v < 0 THEN v + n ELSE v, lo, hi)
      start == IF a = None THEN (IF step > 0 THEN lo ELSE hi) ELSE Adj(a)
      stop == IF b = None THEN (IF step > 0 THEN hi ELSE lo) ELSE Adj(b)
      RECURSIVE Go(_)
      Go(x) == IF (step > 0 /\ x >= stop) \/ (step < 0 /\ x <= stop) THEN <<>>
               ELSE <<x>> \o Go(x + step)
  IN Go(start)

After(i) == i + 1       \* cursor after frame i has been delivered (n = end)

\* a list of look-ups: deliver in order, stop at the first bad index
Take(l) ==
  LET bad == {k \in 1..Len(l) : ~InRange(l[k])}
      cut == IF bad = {} THEN Len(l) + 1 ELSE CHOOSE k \in bad : \A j \in bad : k <= j
      good == [k \in 1..(cut - 1) |-> Norm(l[k])]
  IN [obs |-> IF bad = {} THEN <<"frames", good>> ELSE <<"IndexError">>,
      nxt |-> IF cut = 1 THEN nxt ELSE After(good[cut - 1])]

Out(op, obs) ==
  PrintT(ToJson([s |-> vars, o |-> op, x |-> obs, t |-> vars']))

-----------------------------------------------------------------------------
Init == n \in 1..MaxN /\ nxt = 0 /\ it = [k \in Iters |-> Absent]

LenOp == /\ UNCHANGED vars
         /\ Out(<<"len">>, <<"int", n>>)

NextFrame == /\ UNCHANGED vars
             /\ Out(<<"next_frame">>, IF nxt = n THEN <<"none">> ELSE <<"int", nxt>>)

Get(i) == /\ nxt' = IF InRange(i) THEN After(Norm(i)) ELSE nxt
          /\ UNCHANGED <<n, it>>
          /\ Out(<<"get", i>>, IF InRange(i) THEN <<"frame", Norm(i)>> ELSE <<"IndexError">>)

GetFrame(i) == /\ nxt' = IF InRange(i) THEN After(Norm(i)) ELSE nxt
               /\ UNCHANGED <<n, it>>
               /\ Out(<<"get_frame", i>>, IF InRange(i) THEN <<"frame", Norm(i)>> ELSE <<"IndexError">>)

GetList(l) == /\ nxt' = Take(l).nxt
              /\ UNCHANGED <<n, it>>
              /\ Out(<<"list", l>>, Take(l).obs)

GetSlice(a, b, c) == LET l == SliceIdx(a, b, c) IN
              /\ nxt' = Take(l).nxt
              /\ UNCHANGED <<n, it>>
              /\ Out(<<"slice", a, b, c>>, Take(l).obs)

ReadNext == /\ nxt' = IF nxt < n THEN nxt + 1 ELSE nxt
            /\ UNCHANGED <<n, it>>
            /\ Out(<<"read_next">>, IF nxt < n THEN <<"frame", nxt>> ELSE <<"Stop">>)

\* list(reader): a private iterator run to exhaustion
All == /\ nxt' = n
       /\ UNCHANGED <<n, it>>
       /\ Out(<<"all">>, <<"frames", [k \in 1..n |-> k - 1]>>)

IterNew(k) == /\ it[k] = Absent
              /\ it' = [it EXCEPT ![k] = Fresh]
              /\ UNCHANGED <<n, nxt>>
              /\ Out(<<"iter", k>>, <<"ok">>)

IterDrop(k) == /\ it[k] # Absent
               /\ it' = [it EXCEPT ![k] = Absent]
               /\ UNCHANGED <<n, nxt>>
               /\ Out(<<"drop", k>>, <<"ok">>)

\* deliver frame j through iterator k, or end it
Deliver(k, j, op) ==
  /\ it' = [it EXCEPT ![k] = IF j < n THEN j ELSE Done]
  /\ nxt' = IF j < n THEN After(j) ELSE nxt
  /\ UNCHANGED n
  /\ Out(op, IF j < n THEN <<"frame", j>> ELSE <<"Stop">>)

IterNext(k) == /\ it[k] # Absent
               /\ IF it[k] = Done THEN UNCHANGED vars /\ Out(<<"next", k>>, <<"Stop">>)
                  ELSE Deliver(k, it[k] + 1, <<"next", k>>)

IterSend(k, j) == /\ it[k] >= 0
                  /\ Deliver(k, j, <<"send", k, j>>)

Bounds == {None} \cup (-(n + 1))..(n + 1)
Lists == {<<>>} \cup [1..1 -> -(n + 1)..n] \cup [1..2 -> -(n + 1)..n]

Next ==
  \/ LenOp \/ NextFrame \/ ReadNext \/ All
  \/ \E i \in -(n + 1)..(n + 1) : Get(i) \/ GetFrame(i)
  \/ \E k \in Iters : IterNew(k) \/ IterDrop(k) \/ IterNext(k) \/ \E j \in 0..n : IterSend(k, j)
  \/ /\ Slices /\ it = [k \in Iters |-> Absent]
     /\ \/ \E l \in Lists : GetList(l)
        \/ \E a, b \in Bounds, c \in {None, -2, -1, 1, 2} : GetSlice(a, b, c)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == /\ nxt \in 0..n
          /\ it \in [Iters -> {Absent, Fresh, Done} \cup 0..(n - 1)]

\* A look-up moves the cursor and nothing else; iterators never interfere.
OnlyOneIterMoves == [][Cardinality({k \in Iters : it'[k] # it[k]}) <= 1]_vars
FileFixed == [][n' = n]_vars
\* An iterator that moves without being told to jump delivers the next frame.
=============================================================================
