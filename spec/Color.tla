-------------------------------- MODULE Color --------------------------------
(* ANSI colour control: colour specifications, the control sequences they     *)
(* stand for, and the terminal that interprets them.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Names == <<"black", "red", "green", "yellow", "blue", "magenta", "cyan", "white">>
Short == <<"k", "r", "g", "y", "b", "m", "c", "w">>
NameIdx(x) == {i \in 1..8 : Names[i] = x \/ Short[i] = x}
IsName(x) == NameIdx(x) # {}
Idx(x) == (CHOOSE i \in NameIdx(x) : TRUE) - 1
Bit(i, b) == IF ((i \div b) % 2) = 1 THEN 255 ELSE 0
\* full-intensity components: red is bit 1, green bit 2, blue bit 4
NameRGB(x) == <<Bit(Idx(x), 1), Bit(Idx(x), 2), Bit(Idx(x), 4)>>
\* a colour c: [k |-> "none"], [k |-> "name", n (lower case)], [k |-> "int", v], [k |-> "rgb", v], [k |-> "hex", d] with digit values
Codes4(fg) == IF fg THEN (30..37) \cup (90..97) ELSE (40..47) \cup (100..107)
Valid(c, sch, fg) ==
  IF c.k = "none" THEN TRUE
  ELSE IF c.k = "name" THEN IsName(c.n)
  ELSE IF sch = 4 THEN c.k = "int" /\ c.v \in Codes4(fg)
  ELSE IF sch = 8 THEN c.k = "int" /\ c.v \in 0..255
  ELSE IF c.k = "rgb" THEN Len(c.v) = 3 /\ \A i \in 1..3 : c.v[i] \in 0..255
  ELSE c.k = "hex" /\ Len(c.d) = 6 /\ \A i \in 1..6 : c.d[i] \in 0..15
\* a specification of a kind the scheme has no meaning for: left open
Foreign(c, sch) == \/ c.k = "int" /\ sch = 24
                   \/ c.k = "rgb" /\ (sch # 24 \/ Len(c.v) # 3)
\* select graphic rendition parameters
Params(c, sch, fg) ==
  LET sel == IF fg THEN 38 ELSE 48
  IN IF c.k = "none" THEN <<>>
     ELSE IF sch = 4 THEN <<IF c.k = "int" THEN c.v ELSE (IF fg THEN 30 ELSE 40) + Idx(c.n)>>
     ELSE IF sch = 8 THEN <<sel, 5, IF c.k = "int" THEN c.v ELSE Idx(c.n)>>
     ELSE <<sel, 2>> \o (IF c.k = "name" THEN NameRGB(c.n) ELSE IF c.k = "rgb" THEN c.v
                         ELSE <<16 * c.d[1] + c.d[2], 16 * c.d[3] + c.d[4], 16 * c.d[5] + c.d[6]>>)
Controls(fg, bg, bold, sch) ==
  SelectSeq(<<Params(fg, sch, TRUE), Params(bg, sch, FALSE), IF bold THEN <<1>> ELSE <<>>>>, LAMBDA x : x # <<>>)
\* written out; the escape character is shown as ~
RECURSIVE Digits(_)
Digits(p) == IF Len(p) = 1 THEN ToString(p[1]) ELSE ToString(p[1]) \o ";" \o Digits(Tail(p))
Csi(p) == "~[" \o Digits(p) \o "m"
RECURSIVE Write(_)
Write(q) == IF q = <<>> THEN "" ELSE Csi(q[1]) \o Write(Tail(q))
Colored(text, fg, bg, bold, sch) == Write(Controls(fg, bg, bold, sch)) \o text \o "~[0m"

(* the terminal *)
Plain == [fg |-> <<"default">>, bg |-> <<"default">>, bold |-> FALSE]
Obey(t, p) ==
  IF p = <<0>> THEN Plain
  ELSE IF p = <<1>> THEN [t EXCEPT !.bold = TRUE]
  ELSE IF p[1] = 38 THEN [t EXCEPT !.fg = IF p[2] = 5 THEN <<"palette", p[3]>> ELSE <<"rgb", p[3], p[4], p[5]>>]
  ELSE IF p[1] = 48 THEN [t EXCEPT !.bg = IF p[2] = 5 THEN <<"palette", p[3]>> ELSE <<"rgb", p[3], p[4], p[5]>>]
  ELSE IF p[1] \in 30..37 THEN [t EXCEPT !.fg = <<"palette", p[1] - 30>>]
  ELSE IF p[1] \in 90..97 THEN [t EXCEPT !.fg = <<"palette", p[1] - 82>>]
  ELSE IF p[1] \in 40..47 THEN [t EXCEPT !.bg = <<"palette", p[1] - 40>>]
  ELSE IF p[1] \in 100..107 THEN [t EXCEPT !.bg = <<"palette", p[1] - 92>>]
  ELSE t
\* what a colour means
Shown(c, sch) ==
  IF c.k = "none" THEN <<"default">>
  ELSE IF c.k = "name" THEN IF sch = 24 THEN <<"rgb">> \o NameRGB(c.n) ELSE <<"palette", Idx(c.n)>>
  ELSE IF c.k = "rgb" THEN <<"rgb">> \o c.v
  ELSE IF c.k = "hex" THEN <<"rgb", 16 * c.d[1] + c.d[2], 16 * c.d[3] + c.d[4], 16 * c.d[5] + c.d[6]>>
  ELSE <<"palette", IF sch = 8 THEN c.v ELSE IF c.v < 50 THEN (c.v % 10) ELSE c.v - 82 - (IF c.v > 99 THEN 10 ELSE 0)>>
=============================================================================
