------------------------------ MODULE Packages -------------------------------
(***************************************************************************)
(* Texts that may be package specifications, versions or bounds, and       *)
(* versions compared with bounds.                                          *)
(***************************************************************************)
EXTENDS PackageText, TLC, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.VERIF_CFG)
Fam == Cfg.fams

\* ---- behaviours: a text is typed fragment by fragment; versions change ----
VARIABLES fam, text, bound, n
vars == <<fam, text, bound, n>>
F == Fam[fam]
Init == /\ fam \in DOMAIN Fam /\ text = <<-1>> /\ bound = <<>> /\ n = 0
Open == text = <<-1>> /\ \E i \in DOMAIN F.seeds : text' = F.seeds[i] /\ UNCHANGED <<fam, bound, n>>
Type == /\ text # <<-1>> /\ n < F.steps
        /\ \E i \in DOMAIN F.frags : text' = text \o F.frags[i]
        /\ n' = n + 1 /\ UNCHANGED <<fam, bound>>
Compare == /\ text # <<-1>> /\ bound = <<>> /\ F.bounds # <<>> /\ \E i \in DOMAIN F.bounds : bound' = F.bounds[i]
           /\ UNCHANGED <<fam, text, n>>
Next == Open \/ Type \/ Compare
Spec == Init /\ [][Next]_vars
View == <<fam, text, bound>>
Started == text # <<-1>>

\* What is printed is read as the same value; only versions printed with
\* leading zeros are not printed as they were.
RoundTrip == Started => \A k \in Kinds : LET x == Read(k, text) IN x.ok =>
  /\ Read(k, Printed(x)) = x
  /\ Len(Printed(x)) = Len(text) => Printed(x) = text
\* Comparing with a full version is a total order, and with a bound it is
\* the comparison of what the bound gives.
Ordered == (Started /\ bound # <<>>) =>
  LET v == VersionOf(text, 3).v  b == VersionOf(bound, 1).v IN
  /\ Order(v, v) = 0
  /\ Len(b) = 3 => (Order(v, b) = -Order(b, v) /\ (Order(v, b) = 0 <=> v = b))
  /\ \A i \in DOMAIN F.bounds : LET c == VersionOf(F.bounds[i], 1).v IN
       (Len(b) = 3 /\ Order(v, b) < 0 /\ Order(b, c) < 0) => Order(v, c) < 0
Emit == ~Started \/
  IF bound # <<>> THEN PrintT(ToJson(<<"compare", text, bound, Order(VersionOf(text, 3).v, VersionOf(bound, 1).v)>>))
  ELSE PrintT(ToJson(<<"read", text, [k \in Kinds |-> LET x == Read(k, text) IN
          [ok |-> x.ok, ns |-> x.ns, name |-> x.name, v |-> x.v, out |-> IF x.ok THEN Printed(x) ELSE <<>>]]>>))
=============================================================================
