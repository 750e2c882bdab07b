-------------------------------- MODULE Bundles ------------------------------
(***************************************************************************)
(* Recorded bundles: the references of their source files are followed     *)
(* from the main file, as a reader of the bundle would.  A reference that  *)
(* names a package, or a place without a file, leaves the bundle.          *)
(***************************************************************************)
EXTENDS Imports, Json, IOUtils, TLC

Cfg == JsonDeserialize(IOEnv.VERIF_CFG)
VARIABLES b,       \* which bundle
          todo, seen,
          out      \* references that leave it: <<place, reference>>
vars == <<b, todo, seen, out>>
B == Cfg.bundles[b]
TextOf(p) == B.files[CHOOSE i \in DOMAIN B.files : B.files[i].path = p].text
Sources == {B.files[i].path : i \in DOMAIN B.files}
Files == Sources \cup {B.others[i] : i \in DOMAIN B.others}

Init == b \in DOMAIN Cfg.bundles /\ todo = {<<>>} /\ seen = {} /\ out = {}
Importing(r) == r.how \in {"import", "include"}
Leaves(r, to) == (Importing(r) /\ PK!SpecOf(r.s).ok) \/ (to \notin Files /\ r.how # "maybe")
Read(p) ==
  LET rs == All(TextOf(p))
      good == {k \in DOMAIN rs : ~rs[k].bad}
      to == {<<k, PO!Join(p, rs[k].s)>> : k \in good}
  IN  /\ seen' = seen \cup {p}
      /\ out' = out \cup {<<p, rs[t[1]].s>> : t \in {t \in to : Leaves(rs[t[1]], t[2])}}
      /\ todo' = (todo \cup {t[2] : t \in {t \in to : Importing(rs[t[1]]) /\ t[2] \in Sources}}) \ seen'
Opened == todo = {<<>>} /\ seen = {} /\ todo' = {B.main} /\ UNCHANGED <<seen, out>>
\* (one order suffices: reading commutes)
Next == /\ UNCHANGED b
        /\ \/ Opened
           \/ todo \notin {{}, {<<>>}} /\ Read(CHOOSE p \in todo : TRUE)
Spec == Init /\ [][Next]_vars
Emit == todo # {} \/ PrintT(ToJson(<<b, out, Cardinality(seen)>>))
=============================================================================
