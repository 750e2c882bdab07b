-------------------------------- MODULE Walk ---------------------------------
(***************************************************************************)
(* Walking a tree.  The walker shows nodes to a visitor; the visitor       *)
(* declines a node or accepts it, in which case the walker goes on to its  *)
(* children.  Walks start anywhere in the tree.                            *)
(***************************************************************************)
EXTENDS Views, Json, IOUtils

Cfg  == JsonDeserialize(IOEnv.VERIF_CFG)
Docs == Cfg.docs
Buckets == 16

VARIABLES doc,      \* the document, 0 while not chosen
          N,        \* its nodes
          start, todo, shown, declined
vars == <<doc, N, start, todo, shown, declined>>

Init == /\ \E b \in 1..Buckets : doc = -b
        /\ N = <<>> /\ start = 0 /\ todo = <<>> /\ shown = <<>> /\ declined = {}
\* Very long documents are walked in one step: a node is shown unless a node
\* above it is declined.
Long(d) == d > 0 /\ Docs[d].long
RECURSIVE Hidden(_, _, _)
Hidden(M, d, i) == M[i].par # 0 /\ (((M[i].par * 7 + Docs[d].salt) % Docs[d].every) = 0 \/ Hidden(M, d, M[i].par))
Whole == /\ doc < 0
         /\ \E d \in {x \in DOMAIN Docs : x % Buckets = (-doc) - 1 /\ Long(x)} :
            /\ doc' = d /\ start' = 1 /\ todo' = <<>>
            /\ N' = Flatten(Parse(Docs[d].text, Docs[d].mode))
            /\ shown' = SelectSeq([i \in 1..Len(N') |-> i], LAMBDA i : ~Hidden(N', d, i))
            /\ declined' = {i \in 1..Len(N') : ((i * 7 + Docs[d].salt) % Docs[d].every) = 0 /\ ~Hidden(N', d, i)}
Choose == /\ doc < 0
          /\ \E d \in {x \in DOMAIN Docs : x % Buckets = (-doc) - 1 /\ ~Long(x)} :
             LET M == Flatten(Parse(Docs[d].text, Docs[d].mode)) IN
             /\ doc' = d /\ N' = M
             /\ \E s \in (IF Docs[d].starts = 0 THEN {1} ELSE {i \in DOMAIN M : i % Docs[d].starts = 1 % Docs[d].starts}) :
                  start' = s /\ todo' = <<s>>
          /\ UNCHANGED <<shown, declined>>

RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE <<MinOr(S, 0)>> \o Ordered(S \ {MinOr(S, 0)})
\* Whether the visitor may decline (accept) the node: freely, or as planned.
Free == doc > 0 /\ Docs[doc].every = 0
Plan(i) == ((i * 7 + Docs[doc].salt) % Docs[doc].every) = 0
Show(ok) == /\ doc > 0 /\ todo # <<>>
            /\ LET i == Head(todo) IN
               /\ IF Free THEN TRUE ELSE ok = ~Plan(i)
               /\ shown' = Append(shown, i)
               /\ todo' = (IF ok THEN Ordered(Kids(N, i)) ELSE <<>>) \o Tail(todo)
               /\ declined' = IF ok THEN declined ELSE declined \cup {i}
            /\ UNCHANGED <<doc, N, start>>
Next == Choose \/ Whole \/ Show(TRUE) \/ Show(FALSE)
Spec == Init /\ [][Next]_vars

Done == doc > 0 /\ todo = <<>>
\* Exactly the nodes without a declined node above them, in document order.
Above(i) == {j \in Within(N, start) : j < i /\ i \in Within(N, j)}
ToShow == SelectSeq([i \in 1..Len(N) |-> i], LAMBDA i : i \in Within(N, start) /\ Above(i) \cap declined = {})
Exact == Done /\ ~Long(doc) => shown = ToShow
Once  == Long(doc) \/ \A i, j \in DOMAIN shown : i # j => shown[i] # shown[j]
Emit  == ~Done \/ PrintT(ToJson(<<Docs[doc].text, Docs[doc].mode, [i \in 1..Len(N) |-> <<N[i].k, N[i].p, N[i].e, N[i].par>>],
                                  start, Ordered(declined), shown>>))
=============================================================================
