------------------------------- MODULE Manifest -------------------------------
(***************************************************************************)
(* A package manifest being written: sections are opened, fields set,      *)
(* replaced and erased.  In every state it is a manifest or it is not; if  *)
(* it is, it says what its fields say, and it is the manifest of exactly   *)
(* the packages with its name and version, provided the compiler is not    *)
(* older than it asks for.                                                 *)
(***************************************************************************)
EXTENDS PackageText, TLC, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.VERIF_CFG)
Fam == Cfg.fams
Current == Cfg.current            \* the compiler's version

\* A field is <<section, name>>; a value has a type ("str", "arr" of texts, or
\* another), and a text s or texts a.
Needed   == {<<"package", "name">>, <<"package", "version">>, <<"package", "entrypoint">>}
TNeeded  == {<<"template", "path">>, <<"template", "entrypoint">>}
Plain    == {<<"package", x>> : x \in {"name", "entrypoint", "license", "description", "homepage", "repository"}}
            \cup {<<"template", x>> : x \in {"path", "entrypoint", "thumbnail"}}
Lists    == {<<"package", x>> : x \in {"authors", "keywords", "categories", "disciplines", "exclude"}}
Ver      == <<"package", "version">>
Bound_   == <<"package", "compiler">>

VARIABLES fam, man, secs, n
vars == <<fam, man, secs, n>>
F == Fam[fam]

Base(b) == [f \in {<<b[j].f[1], b[j].f[2]>> : j \in DOMAIN b} |->
            LET j == CHOOSE k \in DOMAIN b : <<b[k].f[1], b[k].f[2]>> = f IN b[j].v]
Init == /\ fam \in DOMAIN Fam /\ n = 0
        /\ man = Base(Fam[fam].base) /\ secs = {}
Write(f, v) == man' = [g \in DOMAIN man \cup {f} |-> IF g = f THEN v ELSE man[g]] /\ UNCHANGED secs
Erase(f)    == f \in DOMAIN man /\ man' = [g \in DOMAIN man \ {f} |-> man[g]] /\ UNCHANGED secs
OpenSec(s)  == s \notin secs /\ secs' = secs \cup {s} /\ UNCHANGED man
Next == /\ n < F.steps /\ n' = n + 1 /\ UNCHANGED fam
        /\ \/ \E j \in DOMAIN F.choices : \E k \in DOMAIN F.choices[j].vs :
                Write(<<F.choices[j].f[1], F.choices[j].f[2]>>, F.choices[j].vs[k])
           \/ \E f \in DOMAIN man : Erase(f)
           \/ \E j \in DOMAIN F.sections : OpenSec(F.sections[j])
Spec == Init /\ [][Next]_vars
View == <<fam, man, secs>>

\* ---- what a manifest is ---------------------------------------------------
Has(s) == s \in secs \/ \E f \in DOMAIN man : f[1] = s
Right(f, v) == CASE f \in Plain -> v.t = "str"
                 [] f \in Lists -> v.t = "arr"
                 [] f = Ver     -> v.t = "str" /\ VersionOf(v.s, 3).ok
                 [] f = Bound_  -> v.t = "str" /\ VersionOf(v.s, 1).ok
                 [] OTHER       -> TRUE                     \* unknown fields
Accepts(m, tmpl, pkg) == /\ pkg /\ Needed \subseteq DOMAIN m
                         /\ tmpl => TNeeded \subseteq DOMAIN m
                         /\ \A f \in DOMAIN m : Right(f, m[f])
Accepted == Accepts(man, Has("template"), Has("package"))
Fits(p) == /\ man[<<"package", "name">>].s = p.name
           /\ VersionOf(man[Ver].s, 3).v = VersionOf(p.version, 3).v
           /\ Bound_ \in DOMAIN man => Order(VersionOf(Current, 3).v, VersionOf(man[Bound_].s, 1).v) >= 0

\* ---- properties of the specification --------------------------------------
\* Nothing but what is needed is needed, and all of that is.
OnlyNeeded == Accepted => \A f \in DOMAIN man : LET m == [g \in DOMAIN man \ {f} |-> man[g]] IN
  Accepts(m, Has("template"), TRUE) <=> (f \notin Needed /\ (f \in TNeeded => ~Has("template")))
\* A manifest fits no two versions and no two names.
OneFits == Accepted => \A j, k \in DOMAIN F.specs : Fits(F.specs[j]) /\ Fits(F.specs[k]) =>
  F.specs[j].name = F.specs[k].name /\ VersionOf(F.specs[j].version, 3).v = VersionOf(F.specs[k].version, 3).v
Emit == PrintT(ToJson(<<{<<f[1], f[2], man[f]>> : f \in DOMAIN man}, secs,
          Accepted, Has("template"),
          IF Accepted THEN [j \in DOMAIN F.specs |-> <<F.specs[j], Fits(F.specs[j])>>] ELSE <<>>,
          IF Accepted THEN <<VersionOf(man[Ver].s, 3).v, IF Bound_ \in DOMAIN man THEN VersionOf(man[Bound_].s, 1).v ELSE <<>>>> ELSE <<>>>>))
===============================================================================
