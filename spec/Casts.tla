-------------------------------- MODULE Casts --------------------------------
(***************************************************************************)
(* Which kinds of node may stand at which place of the typed view, and as  *)
(* what.                                                                   *)
(***************************************************************************)
EXTENDS Ast, Json

VARIABLE kind
Init == kind \in Kind \ {"Error", "End"}
Next == UNCHANGED kind
Spec == Init /\ [][Next]_kind
\* What may be a positional item of an array may be one of a call; patterns
\* take in all expressions; a name is the same everywhere.
Consistent ==
  /\ Variant("ArrayItem", kind) = "Pos" <=> Variant("Expr", kind) # "" 
  /\ Variant("Arg", kind) = "Pos" <=> Variant("Expr", kind) # ""
  /\ Variant("Expr", kind) # "" => Variant("Pattern", kind) # ""
  /\ Variant("Param", kind) = "Pos" <=> Variant("Pattern", kind) # ""
  /\ kind \in Hashable \cup LiteralKind => Variant("Expr", kind) # ""
Emit == PrintT(ToJson(<<kind, [p \in Place |-> Variant(p, kind)], kind \in Hashable, kind \in LiteralKind>>))
=============================================================================
