------------------------------- MODULE Session -------------------------------
(* One process using the library: files parsed by path, handles opened by    *)
(* the caller and parsed, in any order, with contents that parse and         *)
(* contents that fail.                                                       *)
(*                                                                           *)
(* slots   the caller's handles                                              *)
(* prev    the last content parsed: what a result must NOT depend on, kept   *)
(*         so that every ordered pair of parses is a step of the model       *)
(* cwd     current directory                                                 *)
(* lib     files the library holds open between calls (always none)          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Types,        \* e.g. {"text1", "text2", "bin"}: stands for any three types
          Contents,     \* "good", "bad": parses or not; "fault": reading fails part way
          Slots,        \* how many handles the caller may have open
          Rich          \* TRUE: all path forms; FALSE: one

VARIABLES slots, prev, cwd, lib
vars == <<slots, prev, cwd, lib>>

Content == Types \X Contents
Nothing == <<"-", "-">>
Closed == [st |-> "none", of |-> Nothing, medium |-> "-", from |-> 0]
Ids == 1..Slots

Out(op, obs) == PrintT(ToJson([s |-> vars, o |-> op, x |-> obs, t |-> vars']))
\* what every parse must show: the content's own outcome, nothing left open, callers' handles untouched
Outcome(c) == [of |-> c, lib |-> 0, open |-> {i \in Ids : slots[i].st # "none"}]

Init == slots = [i \in Ids |-> Closed] /\ prev = Nothing /\ cwd = "here" /\ lib = {}

\* The caller opens a file or a stream, perhaps reads some lines of something else first.
Open(i, c, medium, from) ==
  /\ slots[i].st = "none"
  /\ slots' = [slots EXCEPT ![i] = [st |-> "ready", of |-> c, medium |-> medium, from |-> from]]
  /\ UNCHANGED <<prev, cwd, lib>> /\ Out(<<"open", i, c, medium, from>>, "-")
\* Handing it to a parser: the function of its type, or the generic one told the type.
ParseHandle(i, via) ==
  /\ slots[i].st = "ready"
  /\ slots' = [slots EXCEPT ![i].st = "used"] /\ prev' = slots[i].of
  /\ UNCHANGED <<cwd, lib>> /\ Out(<<"handle", i, via>>, Outcome(slots[i].of))
\* It is still the caller's: move it back and use it again, or close it.
SeekBack(i) == /\ slots[i].st = "used" /\ slots' = [slots EXCEPT ![i].st = "ready"]
               /\ UNCHANGED <<prev, cwd, lib>> /\ Out(<<"seek", i>>, "-")
Close(i) == /\ slots[i].st = "used" /\ slots' = [slots EXCEPT ![i] = Closed]
            /\ UNCHANGED <<prev, cwd, lib>> /\ Out(<<"close", i>>, "-")

PathForms == IF Rich THEN {"str", "Path", "relative", "dotted"} ELSE {"str", "relative"}
\* lib would gain the file on opening and must lose it before the call returns: one atomic step here
ParsePath(c, via, form) ==
  /\ prev' = c /\ lib' = lib /\ UNCHANGED <<slots, cwd>>
  /\ Out(<<"path", c, via, form>>, Outcome(c))
\* The caller alters the result it was given last; that is its own affair.
Spoil == /\ prev # Nothing /\ prev' = Nothing /\ UNCHANGED <<slots, cwd, lib>> /\ Out(<<"spoil">>, "-")
Chdir == /\ cwd' = (IF cwd = "here" THEN "there" ELSE "here") /\ UNCHANGED <<slots, prev, lib>> /\ Out(<<"chdir">>, "-")

\* A type nobody supports, or none where there is no extension to tell it: refused, and nothing is touched.
Refuse(kind) == UNCHANGED vars /\ Out(<<"refuse", kind>>, "refused")

Next ==
  \/ \E kind \in {"extension", "name", "handle"} : Refuse(kind)
  \/ \E i \in Ids : \/ \E c \in Content, m \in {"file", "memory"}, f \in {0, 1} : Open(i, c, m, f)
                    \/ \E via \in {"function", "name", "callable"} : ParseHandle(i, via)
                    \/ SeekBack(i) \/ Close(i)
  \/ \E c \in Content, via \in {"function", "extension", "name", "callable"}, form \in PathForms : ParsePath(c, via, form)
  \/ Chdir \/ Spoil
Spec == Init /\ [][Next]_vars

NothingHeld == lib = {}
\* no parse closes or opens a handle of the caller
HandlesKept == [][\A i \in Ids : (slots[i].st = "none") # (slots'[i].st = "none") => (prev' = prev)]_vars
=============================================================================
