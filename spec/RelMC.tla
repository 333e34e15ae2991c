-------------------------------- MODULE RelMC --------------------------------
(* Lists of relations written as XML elements and scanned again, character by character.
   A character is named; what is written for it is a sequence of source tokens: itself or a reference.    *)
EXTENDS Integers, Sequences, SequencesExt, Emit
CONSTANTS Chars, MaxLen, MaxRels, Styles

(* references stand for their character; literal white space becomes a blank; a quote ends the value *)
Ref(c) == "&" \o c
Special == {"quot", "apos", "amp", "lt", "gt", "tab", "nl", "cr"}
(* styles of writing an attribute: the quote, and the characters written as references *)
Style == [dq   |-> [q |-> "quot", refs |-> Special \ {"apos"}],
          sq   |-> [q |-> "apos", refs |-> Special \ {"quot"}],
          refs |-> [q |-> "quot", refs |-> Special \cup {"a", "astral"}]]
Source(s, st) == [i \in 1..Len(s) |-> IF s[i] \in Style[st].refs THEN Ref(s[i]) ELSE s[i]]
Attr(s, st) == <<Style[st].q>> \o Source(s, st) \o <<Style[st].q>>
Texts == UNION {[1..n -> Chars] : n \in 0..MaxLen}
NS == <<"http", "/", "rels", "/">>
Element(r, st) == <<"<Rel">> \o <<"Id=">> \o Attr(r.id, st) \o <<"Type=">> \o Attr(NS \o r.type, st) \o <<"Target=">> \o Attr(r.target, st) \o <<"/>">>
LastSegment(s) == LET at == {i \in 1..Len(s) : s[i] = "/"} IN
  IF at = {} THEN s ELSE SubSeq(s, (CHOOSE i \in at : \A j \in at : j <= i) + 1, Len(s))

VARIABLES rels, doc, style, phase, pos, quote, cur, now, got
vars == <<rels, doc, style, phase, pos, quote, cur, now, got>>
Empty == [id |-> <<>>, type |-> <<>>, target |-> <<>>]
Init == rels = <<>> /\ doc = <<>> /\ style \in Styles /\ phase = "write" /\ pos = 1 /\ quote = "" /\ cur = "" /\ now = Empty /\ got = <<>>
(* one attribute varies, the others are fixed *)
Write == /\ phase = "write" /\ Len(rels) < MaxRels
         /\ \E t \in Texts, w \in {"id", "type", "target"} :
              LET r == [[id |-> <<"a">>, type |-> <<"a">>, target |-> <<"a", "/", "a">>] EXCEPT ![w] = t]
              IN rels' = Append(rels, r) /\ doc' = doc \o Element(r, style)
         /\ UNCHANGED <<style, phase, pos, quote, cur, now, got>>
Scan == phase = "write" /\ rels # <<>> /\ phase' = "out" /\ UNCHANGED <<rels, doc, style, pos, quote, cur, now, got>>
Tok == doc[pos]
Step == /\ phase \in {"out", "value"} /\ pos <= Len(doc) /\ pos' = pos + 1 /\ UNCHANGED <<rels, doc, style>>
        /\ IF phase = "out"
           THEN CASE Tok = "<Rel" -> now' = Empty /\ UNCHANGED <<phase, quote, cur, got>>
                  [] Tok \in {"Id=", "Type=", "Target="} ->
                       cur' = (CASE Tok = "Id=" -> "id" [] Tok = "Type=" -> "type" [] OTHER -> "target") /\ UNCHANGED <<phase, quote, now, got>>
                  [] Tok = "/>" -> got' = Append(got, [now EXCEPT !.type = LastSegment(@)]) /\ UNCHANGED <<phase, quote, cur, now>>
                  [] OTHER -> quote' = Tok /\ phase' = "value" /\ UNCHANGED <<cur, now, got>>
           ELSE IF Tok = quote THEN phase' = "out" /\ UNCHANGED <<quote, cur, now, got>>
           ELSE /\ now' = [now EXCEPT ![cur] = Append(@, IF \E c \in Chars \cup Special : Tok = Ref(c) THEN CHOOSE c \in Chars \cup Special : Tok = Ref(c)
                                                         ELSE IF Tok \in {"tab", "nl", "cr"} THEN "sp" ELSE Tok)]
                /\ UNCHANGED <<phase, quote, cur, got>>
Next == Write \/ Scan \/ Step
Spec == Init /\ [][Next]_vars
Done == phase = "out" /\ pos > Len(doc)

(* --- meaning --- *)
Meaning == [i \in 1..Len(rels) |-> [rels[i] EXCEPT !.type = LastSegment(@)]]
Same == IsPrefix(got, Meaning) /\ (Done => got = Meaning)
Replayed == Done => Put([rels |-> rels, style |-> style, doc |-> doc, want |-> got])
=============================================================================
