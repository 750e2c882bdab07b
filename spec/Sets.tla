--------------------------------- MODULE Sets ---------------------------------
(***************************************************************************)
(* Sets of kinds are values: making a set from others leaves the others as *)
(* they were, and no two sets share anything.  The grammar's first sets    *)
(* are such values; so the behaviours start with them.                     *)
(*                                                                         *)
(* The first state of a behaviour also carries the classes and names of    *)
(* every kind.                                                             *)
(***************************************************************************)
EXTENDS Kinds, Json, IOUtils, TLC

Cfg == JsonDeserialize(IOEnv.VERIF_CFG)
Fam == Cfg.fams

StmtKind == {"LetBinding", "SetRule", "ShowRule", "ModuleImport", "ModuleInclude"}
Predefined == <<
  [n |-> "stmt", v |-> StmtStart], [n |-> "math", v |-> MathStart], [n |-> "code", v |-> ExprStart],
  [n |-> "atomicCode", v |-> AtomicExprStart], [n |-> "codePrimary", v |-> AtomicExprStart \cup {"Underscore"}],
  [n |-> "atomicCodePrimary", v |-> AtomicExprStart], [n |-> "unary", v |-> UnaryOps], [n |-> "binary", v |-> BinaryOps],
  [n |-> "item", v |-> ItemStart], [n |-> "arg", v |-> ItemStart], [n |-> "param", v |-> PatItemStart],
  [n |-> "destructItem", v |-> PatItemStart], [n |-> "pattern", v |-> PatternStart], [n |-> "patternLeaf", v |-> PatternLeaf]>>
Class(k) == [name |-> KindName(k), grouping |-> k \in Grouping, terminator |-> k \in Terminator, block |-> k \in Block,
             stmt |-> k \in StmtKind, keyword |-> k \in Keyword, trivia |-> k \in Trivia, error |-> k = "Error"]

VARIABLES fam, sets, ops, hist
vars == <<fam, sets, ops, hist>>

Start == [j \in DOMAIN Predefined |-> Predefined[j].v]
Init == /\ fam \in DOMAIN Fam
        /\ sets = IF Fam[fam].predefined THEN Start ELSE <<>>
        /\ ops = 0 /\ hist = <<>>
Do(o, a, b, ks, v) == /\ sets' = Append(sets, v) /\ ops' = ops + 1
                      /\ hist' = Append(hist, <<o, a, b, ks, v>>) /\ UNCHANGED fam
SetOf(ks) == {ks[j] : j \in DOMAIN ks}
New(ks) == Do("new", 0, 0, ks, SetOf(ks))
AddTo(a, k) == Do("add", a, 0, <<k>>, sets[a] \cup {k})
Union(a, b) == Do("union", a, b, <<>>, sets[a] \cup sets[b])
Clone(a) == Do("clone", a, 0, <<>>, sets[a])
Step(o) == CASE o.op = "new" -> New(o.ks)
             [] o.op = "add" -> AddTo(o.a, o.ks[1])
             [] o.op = "union" -> Union(o.a, o.b)
             [] o.op = "clone" -> Clone(o.a)
Planned == Fam[fam].plan # <<>>
Limit == IF Planned THEN Len(Fam[fam].plan) ELSE Fam[fam].steps
Next == /\ ops < Limit
        /\ IF Planned THEN Step(Fam[fam].plan[ops + 1])
           ELSE \/ \E j \in DOMAIN Fam[fam].kinds : New(Fam[fam].kinds[j])
                \/ \E a \in DOMAIN sets, k \in SetOf(Fam[fam].palette) : AddTo(a, k)
                \/ \E a, b \in DOMAIN sets : Union(a, b)
                \/ \E a \in DOMAIN sets : Clone(a)
Spec == Init /\ [][Next]_vars

\* ---- properties -----------------------------------------------------------
\* No set ever changes.
Values == [][\A a \in DOMAIN sets : sets'[a] = sets[a]]_vars
OfKinds == \A a \in DOMAIN sets : sets[a] \subseteq Kind
\* Every set is what its operation says of the sets before.
Disjointness == /\ Keyword \cap Trivia = {} /\ Grouping \cap Keyword = {} /\ StmtKind \cap Keyword = {}
                /\ StmtStart \subseteq Keyword /\ UnaryOps \subseteq ExprStart /\ "Error" \notin ExprStart \cup PatItemStart \cup MathStart
                /\ Trivia \cap (ExprStart \cup PatItemStart \cup MathStart \cup BinaryOps) = {}
Emit == ops < Limit \/ PrintT(ToJson(<<Fam[fam].predefined, hist, IF ops = 0 THEN Predefined ELSE <<>>,
                                       IF ops = 0 THEN [k \in Kind |-> Class(k)] ELSE <<>>>>))
===============================================================================
