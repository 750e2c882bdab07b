-------------------------------- MODULE Rooted -------------------------------
(***************************************************************************)
(* Writing below a directory that holds symbolic links.                    *)
(*                                                                         *)
(* A small world: the output directory `dest` next to the project `proj`   *)
(* and to files that are none of the command's business (`victim`).  Some  *)
(* places below `dest` are links.  A path below `dest` is walked component *)
(* by component, links followed, once as the operating system would        *)
(* ("naive") and once refusing to leave `dest` ("rooted").                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

\* Where links may be, where they may lead (absolute: from the top of the
\* world), and what is written.
Spots == {<<"dest", "s">>, <<"dest", "libs">>, <<"dest", "main.typ">>, <<"dest", "s", "t">>, <<"dest", "img.png">>, <<"dest", "u">>,
          <<"dest", "i">>, <<"dest", "i", "j">>}
Targets == {[abs |-> FALSE, to |-> <<"..", "victim">>], [abs |-> TRUE, to |-> <<"victim">>], [abs |-> FALSE, to |-> <<"..", "victim", "x.typ">>],
            [abs |-> FALSE, to |-> <<".">>], [abs |-> FALSE, to |-> <<"..">>], [abs |-> FALSE, to |-> <<"..", "proj">>],
            [abs |-> FALSE, to |-> <<"u">>], [abs |-> FALSE, to |-> <<"s">>], [abs |-> FALSE, to |-> <<"..", "dest", "w">>],
            [abs |-> FALSE, to |-> <<"..", "..", "dest">>], [abs |-> TRUE, to |-> <<"dest", "v">>], [abs |-> FALSE, to |-> <<"..", "..", "victim">>]}
Written == {<<"main.typ">>, <<"s", "x.typ">>, <<"s", "t", "y.typ">>, <<"img.png">>, <<"i", "j", "x.png">>, <<"libs", "p", "1.0.0", "lib.typ">>}
CONSTANT MaxLinks

VARIABLES links,               \* place -> target, a partial function
          path,                \* what is written
          mode,                \* "naive", "rooted"
          at, rest, hops, end  \* the walk
vars == <<links, path, mode, at, rest, hops, end>>
Init == /\ links = <<>> /\ path = <<>> /\ mode = "" /\ at = <<>> /\ rest = <<>> /\ hops = 0 /\ end = ""
AddLink == /\ mode = "" /\ Cardinality(DOMAIN links) < MaxLinks
           /\ \E s \in Spots \ DOMAIN links, t \in Targets :
                /\ \A d \in DOMAIN links : Len(d) <= Len(s) /\ ~(d = SubSeq(s, 1, Len(d)))   \* nothing below links
                /\ links' = [x \in DOMAIN links \cup {s} |-> IF x = s THEN t ELSE links[x]]
           /\ UNCHANGED <<path, mode, at, rest, hops, end>>
Begin == /\ mode = "" /\ links # <<>>
         /\ \E p \in Written, m \in {"naive", "rooted"} : path' = p /\ mode' = m /\ rest' = p
         /\ at' = <<"dest">>
         /\ UNCHANGED <<links, hops, end>>
Within(p) == Len(p) >= 1 /\ p[1] = "dest"
Walk == /\ mode # "" /\ end = ""
        /\ UNCHANGED <<links, path, mode>>
        /\ IF mode = "rooted" /\ ~Within(at) THEN end' = "refused" /\ UNCHANGED <<at, rest, hops>>
           ELSE IF rest = <<>> THEN end' = "written" /\ UNCHANGED <<at, rest, hops>>
           ELSE LET c == Head(rest)
                    next == IF c = "." THEN at ELSE IF c = ".." THEN (IF at = <<>> THEN at ELSE SubSeq(at, 1, Len(at) - 1)) ELSE Append(at, c)
                IN  IF c \notin {".", ".."} /\ next \in DOMAIN links
                    THEN IF hops > 6 THEN end' = "loop" /\ UNCHANGED <<at, rest, hops>>
                         ELSE IF links[next].abs /\ mode = "rooted" THEN end' = "refused" /\ UNCHANGED <<at, rest, hops>>
                         ELSE /\ at' = IF links[next].abs THEN <<>> ELSE at
                              /\ rest' = links[next].to \o Tail(rest) /\ hops' = hops + 1 /\ UNCHANGED end
                    ELSE at' = next /\ rest' = Tail(rest) /\ UNCHANGED <<hops, end>>
Next == AddLink \/ Begin \/ Walk
Spec == Init /\ [][Next]_vars

\* Rooted walks that write anything write it inside.
Contained == mode = "rooted" /\ end = "written" => Within(at)
\* Layouts in which following links would do harm.
Emit == end = "" \/ mode = "rooted" \/ PrintT(ToJson(
  <<{<<s, links[s].abs, links[s].to>> : s \in DOMAIN links}, path, IF end = "loop" THEN "loop" ELSE IF Within(at) THEN "inside" ELSE "outside">>))
=============================================================================
