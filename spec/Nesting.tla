------------------------------- MODULE Nesting -------------------------------
(***************************************************************************)
(* Deeply nested and unbalanced texts.  A text is a unit of one or more    *)
(* openers repeated many times, something in the middle, and either the    *)
(* matching closers, the closers in the wrong order, or none.  Each is a   *)
(* text like any other: the grammar assigns it a tree (Parser!Parse is     *)
(* total), so parsing must return, with work in proportion to the text.    *)
(* The texts themselves are too long to be parsed here.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cfg    == JsonDeserialize(IOEnv.VERIF_CFG)
Opens  == Cfg.opens
Closes == Cfg.closes
Mids   == Cfg.mids

VARIABLES unit, mid, ending, times
vars == <<unit, mid, ending, times>>

Init == unit = <<>> /\ mid = 1 /\ ending = "open" /\ times = 0
\* Put another opener inside; choose how the text goes on.
Open  == /\ times = 0 /\ Len(unit) < Cfg.depth
         /\ \E i \in DOMAIN Opens : unit' = Append(unit, i)
         /\ UNCHANGED <<mid, ending, times>>
Finish == /\ times = 0 /\ unit # <<>>
          /\ mid' \in DOMAIN Mids
          /\ ending' \in {"open", "closed", "crossed"}
          /\ times' \in {Cfg.count} \cup (IF Len(unit) = 1 THEN {Cfg.deep} ELSE {})
          /\ UNCHANGED unit
Spec == Init /\ [][Open \/ Finish]_vars

RECURSIVE Concat(_, _)
Concat(u, S) == IF u = <<>> THEN <<>> ELSE S[Head(u)] \o Concat(Tail(u), S)
RECURSIVE Reverse(_)
Reverse(u) == IF u = <<>> THEN <<>> ELSE Append(Reverse(Tail(u)), Head(u))
Prefix == Concat(unit, Opens)
Suffix == CASE ending = "open" -> <<>>
            [] ending = "closed" -> Concat(Reverse(unit), Closes)
            [] ending = "crossed" -> Concat(unit, Closes)

HashSign == <<35>>
\* start: a text everything begins with.
Emit == times = 0 \/
  IF Cfg.start # <<>> THEN PrintT(ToJson(<<"Markup", Cfg.start, Prefix, Mids[mid], Suffix, times>>)) ELSE
  /\ PrintT(ToJson(<<"Code", <<>>, Prefix, Mids[mid], Suffix, times>>))
  /\ PrintT(ToJson(<<"Markup", HashSign, Prefix, Mids[mid], Suffix, times>>))
  /\ PrintT(ToJson(<<"Markup", <<>>, Prefix, Mids[mid], Suffix, times>>))
=============================================================================
