------------------------------ MODULE Numerals ------------------------------
(* How Fortran and users spell numbers, character class by character class,  *)
(* with the value carried along: mantissa digits, digits after the point,    *)
(* exponent digits and denominator, all by position in the token.            *)
(* In mode "vector" a state is a sequence of token kinds, with the type of   *)
(* the whole.                                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode, MaxLen,
          Wrong         \* longest token kept growing once it is no number

VARIABLES str, q, mant, frac, exps, den
vars == <<str, q, mant, frac, exps, den>>

Classes == {"sign", "digit", "dot", "exp", "slash", "alpha"}
Kinds == {"int", "float", "rational", "logical", "word"}

Step(s, c) ==
  CASE s = "start" /\ c = "sign" -> "signed"
    [] s \in {"start", "signed"} /\ c = "digit" -> "int"
    [] s \in {"start", "signed"} /\ c = "dot" -> "point"
    [] s = "int" /\ c = "digit" -> "int"
    [] s = "int" /\ c = "dot" -> "whole"
    [] s \in {"int", "whole", "frac"} /\ c = "exp" -> "e"
    [] s = "int" /\ c = "slash" -> "over"
    [] s \in {"point", "whole", "frac"} /\ c = "digit" -> "frac"
    [] s = "e" /\ c = "sign" -> "esign"
    [] s \in {"e", "esign"} /\ c = "digit" -> "ex1"
    [] s = "ex1" /\ c = "digit" -> "ex2"
    [] s = "ex2" /\ c = "digit" -> "ex3"
    [] s \in {"over", "den"} /\ c = "digit" -> "den"
    [] OTHER -> "dead"

KindOf(s) == CASE s = "int" -> "int"
               [] s \in {"whole", "frac", "ex1", "ex2", "ex3"} -> "float"
               [] s = "den" -> "rational"
               [] OTHER -> "other"
Kind == KindOf(q)

Init == str = << >> /\ q = "start" /\ mant = << >> /\ frac = 0 /\ exps = << >> /\ den = << >>

Token(c) ==
  LET at == Len(str) + 1 n == Step(q, c) IN
  /\ str' = Append(str, c) /\ q' = n
  /\ mant' = IF n \in {"int", "frac"} THEN Append(mant, at) ELSE mant
  /\ frac' = IF n = "frac" THEN frac + 1 ELSE frac
  /\ exps' = IF n \in {"ex1", "ex2", "ex3"} THEN Append(exps, at) ELSE exps
  /\ den' = IF n = "den" THEN Append(den, at) ELSE den

Element(k) == /\ str' = Append(str, k)
              /\ UNCHANGED <<q, mant, frac, exps, den>>

(* Nothing that is not the beginning of a number becomes one. *)
Next == Len(str) < (IF q = "dead" THEN Wrong ELSE MaxLen) /\ IF Mode = "token" THEN \E c \in Classes : Token(c) ELSE \E k \in Kinds : Element(k)
Spec == Init /\ [][Next]_vars

(* ---- the type of several tokens together ---- *)
All(S) == \A i \in 1 .. Len(str) : str[i] \in S
Inferred == CASE Len(str) = 1 /\ All({"logical"}) -> "bool"
              [] All({"int"}) -> "int"
              [] All({"int", "float", "rational"}) -> "float"
              [] OTHER -> "str"

(* ---- the same language, said without the automaton ---- *)
Count(c) == Cardinality({i \in 1 .. Len(str) : str[i] = c})
Where(c) == CHOOSE i \in 1 .. Len(str) : str[i] = c
Body(s) == IF s # << >> /\ s[1] = "sign" THEN Tail(s) ELSE s
Digits(s) == s # << >> /\ \A i \in 1 .. Len(s) : s[i] = "digit"
Decimal(s) == /\ \E i \in 1 .. Len(s) : s[i] = "digit"
              /\ Cardinality({i \in 1 .. Len(s) : s[i] = "dot"}) <= 1
              /\ \A i \in 1 .. Len(s) : s[i] \in {"digit", "dot"}
IsInt == Digits(Body(str))
IsFloat == \/ Decimal(Body(str)) /\ Count("dot") = 1
           \/ /\ Count("exp") = 1
              /\ LET i == Where("exp") e == Body(SubSeq(str, i + 1, Len(str)))
                 IN Decimal(Body(SubSeq(str, 1, i - 1))) /\ Digits(e) /\ Len(e) <= 3
IsRational == /\ Count("slash") = 1
              /\ LET i == Where("slash") IN Digits(Body(SubSeq(str, 1, i - 1))) /\ Digits(SubSeq(str, i + 1, Len(str)))
SameLanguage == Mode = "token" => (/\ (Kind = "int") = IsInt
                                   /\ (Kind = "float") = IsFloat
                                   /\ (Kind = "rational") = IsRational)
\* Every digit of a number counts towards its value, once.
AllDigits == Mode = "token" /\ Kind # "other" => Len(mant) + Len(exps) + Len(den) = Count("digit")

Emit == str # << >> =>
  PrintT(ToJson(IF Mode = "token" THEN [str |-> str, kind |-> Kind, mant |-> mant, frac |-> frac, exps |-> exps, den |-> den]
                ELSE [str |-> str, kind |-> Inferred]))
=============================================================================
