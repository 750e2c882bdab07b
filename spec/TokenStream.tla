------------------------------- MODULE TokenStream -----------------------------
(***************************************************************************)
(* The lexer on its own: a text grows by fragments; in every state it is   *)
(* split into the tokens of the lexical grammar, in each of its modes.     *)
(***************************************************************************)
EXTENDS Lexer, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.VERIF_CFG)
Fam == Cfg.fams
Buckets == 16
F(f) == Fam[f]
Modes == {"Markup", "Code", "Math"}

VARIABLES fam, text, toks, n

Split(T) == [m \in Modes |-> Tokens(T, 0, m)]
Becomes(T) == text' = T /\ toks' = Split(T) /\ UNCHANGED fam
\* text holds which share of the initial texts to open
Init == /\ fam \in DOMAIN Fam
        /\ text \in {<<b>> : b \in 0..(Buckets - 1)}
        /\ toks = [m \in Modes |-> <<>>] /\ n = -1
Open == /\ n = -1 /\ n' = 0
        /\ \E i \in {j \in DOMAIN F(fam).seeds : j % Buckets = text[1]} : Becomes(F(fam).seeds[i])
Type == /\ n >= 0 /\ n < F(fam).steps /\ n' = n + 1
        /\ \E i \in DOMAIN F(fam).frags : Becomes(text \o F(fam).frags[i])
Close == /\ n >= 0 /\ n < F(fam).steps /\ n' = F(fam).steps       \* wrap what there is
         /\ \E i \in DOMAIN F(fam).closers : Becomes(text \o F(fam).closers[i])
Spec == Init /\ [][Open \/ Type \/ Close]_<<fam, text, toks, n>>
View == IF n < 0 THEN <<fam, "start", text>> ELSE <<fam, text>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s).n.l + Sum(Tail(s))
\* Tokens tile the text, none is empty, trivia kinds and newlines agree.
Tiles == n < 0 \/ \A m \in Modes : Sum(toks[m]) = Len(text)
NonEmpty == \A m \in Modes : \A i \in DOMAIN toks[m] :
              /\ toks[m][i].n.l > 0
              /\ toks[m][i].nl => toks[m][i].k \in Trivia
Bounded == n < 0 \/ \A m \in Modes : Len(toks[m]) <= Len(text)
\* A token depends on nothing before it but the two preceding characters (a
\* name after a dot) and the start of the text (shebang): lexing from a token
\* boundary continues the same way.
Resumable == n < 0 \/ \A m \in Modes : LET f == IF toks[m] = <<>> THEN 0 ELSE toks[m][1].e
             IN f >= Len(text) \/ Tokens(text, f, m) = Tail(toks[m])

Emit == n < 0 \/ \A m \in Modes :
          PrintT(ToJson(<<text, m, [i \in 1..Len(toks[m]) |->
                  [k |-> toks[m][i].k, nl |-> toks[m][i].nl, n |-> Out(toks[m][i].n)]]>>))
=============================================================================
