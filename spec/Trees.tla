--------------------------------- MODULE Trees ---------------------------------
(***************************************************************************)
(* Syntax trees as values.  Trees are made from leaves, errors and other   *)
(* trees, and changed in place: a node's kind, its conversion to an error, *)
(* a hint, the replacement of some of its children, after which its        *)
(* ancestors are brought up to date.  Whatever happened, a tree knows its  *)
(* length, its size and whether it contains errors; two trees are the same *)
(* iff they agree in everything but spans; and a change of one tree        *)
(* changes no other.                                                       *)
(*                                                                         *)
(* A tree can be numbered within an interval if there is room for its      *)
(* nodes.  Children can be replaced if the tree is numbered and there is   *)
(* room for the new ones; if there is little, both outcomes are allowed;   *)
(* if it fails, nothing changes.                                           *)
(***************************************************************************)
EXTENDS Kinds, Json, IOUtils, TLC, FiniteSets

Cfg == JsonDeserialize(IOEnv.VERIF_CFG)
Fam == Cfg.fams
Ample == 1073741824        \* this much room is enough for any tree here

CharLen(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE Bytes(_), Sum(_, _)
Bytes(s) == IF s = <<>> THEN 0 ELSE CharLen(Head(s)) + Bytes(Tail(s))
Sum(c, f) == IF c = <<>> THEN 0 ELSE Head(c)[f] + Sum(Tail(c), f)
\* A node: what it is; its length, size and whether it contains errors.
MsgOf(f) == [f |-> f, a |-> <<>>]
L(k, x) == [t |-> "L", k |-> k, x |-> x, m |-> MsgOf(""), h |-> <<>>, c |-> <<>>, l |-> Bytes(x), d |-> 1, r |-> FALSE]
E(m, h, x) == [t |-> "E", k |-> "Error", x |-> x, m |-> m, h |-> h, c |-> <<>>, l |-> Bytes(x), d |-> 1, r |-> TRUE]
I(k, c) == [t |-> "I", k |-> k, x |-> <<>>, m |-> MsgOf(""), h |-> <<>>, c |-> c, l |-> Sum(c, "l"), d |-> 1 + Sum(c, "d"),
            r |-> \E i \in DOMAIN c : c[i].r]
RECURSIVE TextOf(_), TextsOf(_)
TextOf(x) == IF x.t = "I" THEN TextsOf(x.c) ELSE x.x
TextsOf(c) == IF c = <<>> THEN <<>> ELSE TextOf(Head(c)) \o TextsOf(Tail(c))
RECURSIVE Errors(_), ErrorsOf(_)
Errors(x) == IF x.t = "E" THEN <<<<x.m, x.h>>>> ELSE ErrorsOf(x.c)
ErrorsOf(c) == IF c = <<>> THEN <<>> ELSE Errors(Head(c)) \o ErrorsOf(Tail(c))

\* ---- places in a tree -----------------------------------------------------
\* A path is taken as far as it goes; its numbers are reduced to children.
RECURSIVE Resolve(_, _), At(_, _), Put(_, _, _)
Resolve(x, p) == IF p = <<>> \/ x.c = <<>> THEN <<>>
                 ELSE LET i == (Head(p) % Len(x.c)) + 1 IN <<i>> \o Resolve(x.c[i], Tail(p))
At(x, p) == IF p = <<>> THEN x ELSE At(x.c[Head(p)], Tail(p))
Put(x, p, v) == IF p = <<>> THEN v ELSE I(x.k, [x.c EXCEPT ![Head(p)] = Put(x.c[Head(p)], Tail(p), v)])

\* ---- states ---------------------------------------------------------------
\* regs: the trees; room: what is known of the numbering of each ("none": no
\* node is numbered, "mixed": some are, "tight", "ample").
VARIABLES fam, regs, room, n, hist
vars == <<fam, regs, room, n, hist>>
Reg(a) == (a % Len(regs)) + 1
Init == /\ fam \in DOMAIN Fam /\ n = 0 /\ hist = <<>>
        /\ regs = <<L("Text", <<97>>), E(MsgOf("bad"), <<>>, <<98>>), I("Markup", <<L("Text", <<99>>)>>)>>
        /\ room = <<"none", "none", "none">>
\* Register a (perhaps a new one) becomes x.
Becomes(o, a, p, x, rm, ok) ==
  LET rs == IF a > Len(regs) THEN Append(regs, x) ELSE [regs EXCEPT ![a] = x]
  IN /\ regs' = rs
     /\ room' = IF a > Len(regs) THEN Append(room, rm) ELSE [room EXCEPT ![a] = rm]
     /\ hist' = Append(hist, <<o, a, p, x, ok, {b \in DOMAIN rs : rs[b] = x}, Errors(x), TextOf(x)>>)
New == Len(regs) + 1
Mixed(a) == IF room[a] = "none" THEN "none" ELSE "mixed"
Clone(o, a) == Becomes([o EXCEPT !.op = "clone", !.a = a], New, <<>>, regs[a], room[a], TRUE)
\* Converting a node to an error, if it is none.
Convert(o, a, p, m) ==
  LET x == At(regs[a], p)
      kw == o.op = "expected" /\ x.k \in Keyword /\ o.w \in {"identifier", "pattern"}
      h == IF kw THEN <<[f |-> "keyword `%` is not allowed as an identifier; try `%_` instead", a |-> TextOf(x)]>> ELSE <<>>
      y == IF x.t = "E" THEN x ELSE E(m, h, TextOf(x))
  IN Becomes([o EXCEPT !.a = a], a, p, Put(regs[a], p, y), IF x.t = "E" THEN room[a] ELSE Mixed(a), TRUE)
Many(rs) == [i \in DOMAIN rs |-> regs[Reg(rs[i])]]
Do(o) ==
  LET a == Reg(o.a)
      p == Resolve(regs[a], o.p)
      x == At(regs[a], p)
  IN
  CASE o.op = "leaf"  -> Becomes(o, New, <<>>, L(o.k, o.x), "none", TRUE)
    [] o.op = "error" -> Becomes(o, New, <<>>, E(MsgOf(o.w), [i \in DOMAIN o.hs |-> MsgOf(o.hs[i])], o.x), "none", TRUE)
    [] o.op = "inner" -> LET s == {Reg(o.rs[i]) : i \in DOMAIN o.rs} IN
                         Becomes([o EXCEPT !.rs = [i \in DOMAIN o.rs |-> Reg(o.rs[i])]], New, <<>>, I(o.k, Many(o.rs)),
                                 IF \A b \in s : room[b] = "none" THEN "none" ELSE "mixed", TRUE)
    [] o.op = "clone" -> Clone(o, a)
    [] o.op = "kind"  -> IF x.t = "E" THEN Clone(o, a)
                         ELSE Becomes([o EXCEPT !.a = a], a, p, Put(regs[a], p, [x EXCEPT !.k = o.k]), room[a], TRUE)
    [] o.op = "hint"  -> Becomes([o EXCEPT !.a = a], a, p, IF x.t = "E" THEN Put(regs[a], p, [x EXCEPT !.h = Append(@, MsgOf(o.w))]) ELSE regs[a], room[a], TRUE)
    [] o.op = "convert"    -> Convert(o, a, p, MsgOf(o.w))
    [] o.op = "expected"   -> Convert(o, a, p, MsgOf("expected " \o o.w \o ", found " \o KindName(x.k)))
    [] o.op = "unexpected" -> Convert(o, a, p, MsgOf("unexpected " \o KindName(x.k)))
    [] o.op = "synthesize" -> Becomes([o EXCEPT !.a = a], a, <<>>, regs[a], "mixed", TRUE)
    [] o.op = "number" ->
         LET ok == o.i >= regs[a].d IN
         Becomes([o EXCEPT !.a = a], a, <<>>, regs[a], IF ~ok THEN room[a] ELSE IF o.i >= Ample THEN "ample" ELSE "tight", ok)
    [] o.op = "replace" ->
         IF x.t # "I" \/ room[a] = "mixed" THEN Clone(o, a)
         ELSE LET f == o.i % (Len(x.c) + 1)
                  g == f + (o.j % (Len(x.c) - f + 1))
                  y == I(x.k, SubSeq(x.c, 1, f) \o Many(o.rs) \o SubSeq(x.c, g + 1, Len(x.c)))
                  o2 == [o EXCEPT !.a = a, !.i = f, !.j = g, !.rs = [q \in DOMAIN o.rs |-> Reg(o.rs[q])]]
              IN \/ room[a] # "none" /\ Becomes(o2, a, p, Put(regs[a], p, y), room[a], TRUE)
                 \/ room[a] # "ample" /\ Becomes(o2, a, p, regs[a], room[a], FALSE)
Planned == Fam[fam].plan # <<>>
Limit == IF Planned THEN Len(Fam[fam].plan) ELSE Fam[fam].steps
Next == /\ n < Limit /\ n' = n + 1 /\ UNCHANGED fam
        /\ IF Planned THEN Do(Fam[fam].plan[n + 1]) ELSE \E j \in DOMAIN Fam[fam].ops : Do(Fam[fam].ops[j])
Spec == Init /\ [][Next]_vars

\* ---- properties of the specification --------------------------------------
RECURSIVE Sound(_)
Sound(x) == /\ x.l = Bytes(TextOf(x))
            /\ x.r = (Errors(x) # <<>>)
            /\ x.t = "I" => x = I(x.k, x.c)
            /\ x.t # "I" => x.c = <<>> /\ x.d = 1
            /\ \A i \in DOMAIN x.c : Sound(x.c[i])
AllSound == \A a \in DOMAIN regs : Sound(regs[a])
\* No operation but a replacement changes what a tree spells, and none changes
\* two trees.
KeepsText == [][\A a \in DOMAIN regs : TextOf(regs'[a]) = TextOf(regs[a]) \/ (hist'[Len(hist')][1].op = "replace" /\ hist'[Len(hist')][2] = a)]_vars
One == [][\A a, b \in DOMAIN regs : regs'[a] # regs[a] /\ regs'[b] # regs[b] => a = b]_vars
Emit == n < Limit \/ PrintT(ToJson(hist))
===============================================================================
