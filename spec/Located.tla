------------------------------- MODULE Located -------------------------------
(***************************************************************************)
(* What the commands that process a project are told on the command line:  *)
(* a file, and perhaps the project's root.  Both are spelled in some way   *)
(* (relative to the working directory or from the top; with repeated       *)
(* slashes, `.` and `..`).  A file inside the root has a place below it,   *)
(* under which everything goes to the output; any other file is refused.   *)
(*                                                                         *)
(* Behaviours: the command line is put together, then both spellings are   *)
(* walked component by component, then the root is taken off the file.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxRoot, MaxFile
Names == {"a", "ab", "b"}
Parts == Names \cup {".", "..", ""}
Main == "m.typ"
Top == <<"t">>                   \* the scratch directory, seen from the top of everything

VARIABLES cwd, kind, root, fabs, file,   \* the command line
          files,                         \* how many files are named on it
          phase, rAt, rRest, fAt, fRest, \* the walks
          out                            \* "", "refused", "placed"
vars == <<cwd, kind, root, fabs, file, files, phase, rAt, rRest, fAt, fRest, out>>
line == <<cwd, kind, root, fabs, file, files>>

Init == /\ cwd \in {Top, Top \o <<"a">>, Top \o <<"ab", "b">>} /\ kind \in {"none", "rel", "abs", "all"} /\ root = <<>>
        /\ fabs \in BOOLEAN /\ file = <<>> /\ files \in {0, 1, 2}
        /\ (files # 1 => kind = "none" /\ fabs)
        /\ phase = "root" /\ rAt = <<>> /\ rRest = <<>> /\ fAt = <<>> /\ fRest = <<>> /\ out = ""
\* An empty component in front would make a relative path absolute.
Fits(p, c, abs) == c # "" \/ abs \/ p # <<>>
Root == /\ phase = "root" /\ kind \in {"rel", "abs"} /\ files = 1 /\ Len(root) < MaxRoot
        /\ \E c \in Parts : Fits(root, c, kind = "abs") /\ root' = Append(root, c)
        /\ UNCHANGED <<cwd, kind, fabs, file, files, phase, rAt, rRest, fAt, fRest, out>>
Turn == /\ phase = "root" /\ (kind = "rel" => root # <<>>) /\ phase' = "file"
        /\ UNCHANGED <<line, rAt, rRest, fAt, fRest, out>>
File == /\ phase = "file" /\ Len(file) < MaxFile
        /\ \E c \in Parts : Fits(file, c, fabs) /\ file' = Append(file, c)
        /\ UNCHANGED <<cwd, kind, root, fabs, files, phase, rAt, rRest, fAt, fRest, out>>
Go == /\ phase = "file" /\ phase' = "walk"
      /\ rAt' = (CASE kind = "rel" -> cwd [] kind = "abs" -> Top [] OTHER -> <<>>) /\ rRest' = root
      /\ fAt' = (IF fabs THEN Top ELSE cwd) /\ fRest' = Append(file, Main)
      /\ UNCHANGED <<line, out>>
StepTo(at, c) == CASE c \in {"", "."} -> at
                   [] c = ".." -> (IF at = <<>> THEN at ELSE SubSeq(at, 1, Len(at) - 1))
                   [] OTHER -> Append(at, c)
\* Nothing outside of the scratch directory is named (a restriction of what is generated).
WalkRoot == /\ phase = "walk" /\ rRest # <<>> /\ rAt' = StepTo(rAt, Head(rRest)) /\ Len(rAt') >= 1 /\ rRest' = Tail(rRest)
            /\ UNCHANGED <<line, phase, fAt, fRest, out>>
WalkFile == /\ phase = "walk" /\ rRest = <<>> /\ fRest # <<>> /\ fAt' = StepTo(fAt, Head(fRest)) /\ Len(fAt') >= 1 /\ fRest' = Tail(fRest)
            /\ UNCHANGED <<line, phase, rAt, rRest, out>>
\* Without a root, the file's own directory is it.
End == /\ phase = "walk" /\ rRest = <<>> /\ fRest = <<>> /\ phase' = "end"
       /\ rAt' = IF kind = "none" THEN SubSeq(fAt, 1, Len(fAt) - 1) ELSE rAt
       /\ out' = IF files = 1 /\ Len(rAt') < Len(fAt) /\ SubSeq(fAt, 1, Len(rAt')) = rAt' THEN "placed" ELSE "refused"
       /\ UNCHANGED <<line, rRest, fAt, fRest>>
Next == Root \/ Turn \/ File \/ Go \/ WalkRoot \/ WalkFile \/ End
Spec == Init /\ [][Next]_vars

Place == SubSeq(fAt, Len(rAt) + 1, Len(fAt))

\* ---- properties of the specification --------------------------------------
Plain(p) == \A i \in DOMAIN p : p[i] \notin {"", ".", ".."}
Walked == Plain(rAt) /\ Plain(fAt)
\* A placed file is found again from the root; a refused one from no place.
Found == phase = "end" =>
           /\ out = "placed" => rAt \o Place = fAt /\ Place # <<>> /\ Plain(Place)
           /\ (out = "refused" /\ files = 1) => ~\E n \in 0..Len(fAt) - 1 : rAt \o SubSeq(fAt, n + 1, Len(fAt)) = fAt
\* The directory of the file and the top of everything always do.
Always == phase = "end" /\ kind \in {"none", "all"} /\ files = 1 => out = "placed"
Emit == phase # "end" \/ PrintT(ToJson(<<cwd, kind, root, fabs, Append(file, Main), files, out, rAt, fAt>>))
==============================================================================
