------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* A document under construction.  The document is a sequence of fragments *)
(* (texts); it changes by typing, inserting, removing, replacing fragments *)
(* or by being cut short.  In every state the syntax tree is the one the   *)
(* grammar of Parser prescribes for the current text.                      *)
(*                                                                         *)
(* The configuration lists families of documents: initial documents,       *)
(* fragments, the steps allowed and how many, and the mode the document    *)
(* is read in.  TLC enumerates the states of all families; `Emit` prints   *)
(* mode, text and tree of each, to be compared with the implementation.    *)
(***************************************************************************)
EXTENDS Parser, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.VERIF_CFG)
Fam == Cfg.fams
Buckets == 16
F(f) == Fam[f]

VARIABLES fam, doc, tree, n

RECURSIVE TextOf(_, _)
TextOf(f, d) == IF d = <<>> THEN <<>> ELSE F(f).frags[Head(d)] \o TextOf(f, Tail(d))
Text == IF n < 0 THEN <<>> ELSE TextOf(fam, doc)
Mode == F(fam).mode

\* Nothing written yet; doc holds which share of the initial documents to
\* open (so that TLC's workers share them).
Init == /\ fam \in DOMAIN Fam
        /\ doc \in {<<b>> : b \in 0..(Buckets - 1)}
        /\ tree = Inner("Markup", <<>>)
        /\ n = -1

Becomes(d) == /\ doc' = d
              /\ tree' = Parse(TextOf(fam, d), Mode)
              /\ n' = n + 1 /\ UNCHANGED fam

Open == /\ n = -1
        /\ \E i \in {j \in DOMAIN F(fam).seeds : j % Buckets = doc[1]} : Becomes(F(fam).seeds[i])

Can(op)  == /\ n >= 0 /\ n < F(fam).steps
            /\ \E i \in DOMAIN F(fam).ops : F(fam).ops[i] = op
Added    == {F(fam).added[i] : i \in DOMAIN F(fam).added}
Type     == Can("type") /\ \E f \in Added : Becomes(Append(doc, f))
Insert   == Can("insert") /\ \E f \in Added, i \in 0..Len(doc) :
              Becomes(SubSeq(doc, 1, i) \o <<f>> \o SubSeq(doc, i + 1, Len(doc)))
Remove   == Can("remove") /\ \E i \in 1..Len(doc) :
              Becomes(SubSeq(doc, 1, i - 1) \o SubSeq(doc, i + 1, Len(doc)))
Replace  == Can("replace") /\ \E f \in Added, i \in 1..Len(doc) :
              Becomes([doc EXCEPT ![i] = f])
Truncate == Can("truncate") /\ \E i \in 1..(Len(doc) - 1) : Becomes(SubSeq(doc, 1, i))
Swap     == Can("swap") /\ \E i \in 1..(Len(doc) - 1) :
              Becomes([doc EXCEPT ![i] = doc[i + 1], ![i + 1] = doc[i]])

Next == Open \/ Type \/ Insert \/ Remove \/ Replace \/ Truncate \/ Swap
Spec == Init /\ [][Next]_<<fam, doc, tree, n>>

View == IF n < 0 THEN <<fam, "start", doc>> ELSE <<fam, Text>>

(***************************************************************************)
(* What the grammar guarantees in every state, whatever the text.          *)
(***************************************************************************)
\* The tree covers the text.
Lossless == tree.l = Len(Text)

RECURSIVE Sound(_)
\* Every node is as long as its children, and flagged iff an error is in it.
Sound(x) == IF x.t = "I"
            THEN /\ x.l = SumLen(x.c)
                 /\ x.r = (\E i \in DOMAIN x.c : x.c[i].r)
                 /\ \A i \in DOMAIN x.c : Sound(x.c[i])
            ELSE x.c = <<>> /\ x.r = (x.t = "E")
TreeSound == Sound(tree)

\* All nodes with their positions.
RECURSIVE NodesAt(_, _), ChildNodes(_, _, _)
NodesAt(x, pos) == <<[n |-> x, p |-> pos]>> \o ChildNodes(x.c, 1, pos)
ChildNodes(c, i, pos) == IF i > Len(c) THEN <<>>
                         ELSE NodesAt(c[i], pos) \o ChildNodes(c, i + 1, pos + c[i].l)

\* Nothing but trivia and markers of enclosing items, or the bracket opening
\* a content block, precedes a block-level marker on its line.
BlockMarker == {"HeadingMarker", "ListMarker", "EnumMarker", "TermMarker"}
LineStartOnly ==
  LET ns == NodesAt(tree, 0)
      leaf == SelectSeq(ns, LAMBDA x : x.n.t # "I" /\ x.n.l > 0)
      ok(i) == \/ i = 1
               \/ LET k == leaf[i - 1].n.k IN
                  \/ k \in Trivia \cup {"LeftBracket"} \cup BlockMarker \cup {"Error", "Colon"}
      trivial(i) == leaf[i].n.k \in Trivia
  IN  \A i \in DOMAIN leaf : leaf[i].n.k \in BlockMarker => ok(i)

\* Documents known to be valid have no errors.
ValidAccepted == (n = 0 /\ F(fam).valid) => ~tree.r

\* Operands are grouped by precedence and associativity.
OpOf(x) == IF x.k = "Binary"
           THEN LET s == SelectSeq(x.c, LAMBDA y : y.t = "L" /\ y.k \in BinaryOps) IN
                IF s = <<>> THEN "Not" ELSE s[1].k
           ELSE ""
Prec(x) == IF \E i \in DOMAIN x.c : x.c[i].k = "Not" THEN NotInPrec ELSE BinaryPrec(OpOf(x))
Operands(x) == SelectSeq(x.c, LAMBDA y : y.k \notin Trivia /\ y.k \notin BinaryOps /\ y.k # "Not")
Grouped ==
  LET ns == NodesAt(tree, 0)
      ok(x) ==
        LET o == Operands(x) IN
        x.k # "Binary" \/ x.r \/ Len(o) # 2 \/
        /\ o[1].k = "Binary" => IF RightAssoc(OpOf(x)) THEN Prec(o[1]) > Prec(x) ELSE Prec(o[1]) >= Prec(x)
        /\ o[2].k = "Binary" => IF RightAssoc(OpOf(x)) THEN Prec(o[2]) >= Prec(x) ELSE Prec(o[2]) > Prec(x)
  IN  \A i \in DOMAIN ns : ok(ns[i].n)

\* Parentheses that only group the operand of a fraction, a script or a
\* radicand are not taken for delimiters; a fraction has one bar, and what an
\* equation holds lies between its dollar signs.
MathShaped ==
  LET ns == NodesAt(tree, 0)
      starts(x) == [i \in DOMAIN x.n.c |-> x.p + SumLen(SubSeq(x.n.c, 1, i - 1))]
      fenced(y, s) == /\ y.k = "MathDelimited" /\ y.c[1].l = 1 /\ y.c[Len(y.c)].l = 1
                      /\ Text[s + 1] = 40 /\ Text[s + y.l] = 41
      \* the first of the children that is an operand (scripts have their base in front)
      from(x) == IF x.n.k = "MathAttach" THEN 2 ELSE 1
      bars(x) == {i \in DOMAIN x.n.c : x.n.c[i].k = "Slash"}
      ok(x) ==
        CASE x.n.k \in {"MathFrac", "MathAttach", "MathRoot"} ->
               LET s == starts(x) IN
               /\ \A i \in from(x)..Len(x.n.c) : ~fenced(x.n.c[i], s[i])
               /\ x.n.k = "MathFrac" => Cardinality(bars(x)) = 1
          [] x.n.k = "Equation" ->
               /\ x.n.r \/ (x.n.c[1].k = "Dollar" /\ x.n.c[Len(x.n.c)].k = "Dollar")
               /\ Cardinality({i \in DOMAIN x.n.c : x.n.c[i].k = "Math"}) = 1
          [] OTHER -> TRUE
  IN  n < 0 \/ \A i \in DOMAIN ns : ok(ns[i])

(***************************************************************************)
Emit == n < 0 \/ PrintT(ToJson(<<Text, Out(tree), Mode>>))
=============================================================================
