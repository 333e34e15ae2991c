------------------------------- MODULE XmlMC -------------------------------
(* Character data of XML written in every form, read character by character.

   What stands in an element is a sequence of pieces: plain characters, references, CDATA sections, comments,
   processing instructions and line ends.  Meaning: the concatenation of what the pieces stand for.  The machine is
   a reader of characters with a mode; a value must be the same however it is written.                        *)
EXTENDS Integers, Sequences, SequencesExt, Emit
CONSTANTS Pieces, MaxLen, Sites

NL == "\n"
CR == "\r"
(* what is written for a piece, and what it stands for *)
Source(p) == CASE p = "a" -> "a" [] p = "7" -> "7"
               [] p = "ref" -> "&#97;" [] p = "hex" -> "&#x61;" [] p = "ref7" -> "&#55;" [] p = "hex7" -> "&#x37;"
               [] p = "amp" -> "&amp;" [] p = "lt" -> "&lt;" [] p = "rsq" -> "]]" [] p = "gt" -> "&gt;"
               [] p = "cdata" -> "<![CDATA[a]]>" [] p = "cdata7" -> "<![CDATA[7]]>" [] p = "markup" -> "<![CDATA[<v>&amp;]]>" [] p = "void" -> "<![CDATA[]]>"
               [] p = "note" -> "<!--a-->" [] p = "tagged" -> "<!-- <v>9</v> -->" [] p = "pi" -> "<?a 7?>"
               [] p = "nl" -> NL [] p = "crlf" -> CR \o NL [] p = "cr" -> CR [] p = "crref" -> "&#13;"
Value(p) == CASE p \in {"a", "ref", "hex", "cdata"} -> "a" [] p \in {"7", "ref7", "hex7", "cdata7"} -> "7"
              [] p = "amp" -> "&" [] p = "lt" -> "<" [] p = "gt" -> ">" [] p = "rsq" -> "]]" [] p = "markup" -> "<v>&amp;"
              [] p \in {"nl", "crlf", "cr"} -> NL [] p = "crref" -> CR
              [] OTHER -> ""

VARIABLES site, ps, src, mode, pos, held, got
vars == <<site, ps, src, mode, pos, held, got>>
Ch(s, i) == SubSeq(s, i, i)
At(s) == pos + Len(s) - 1 <= Len(src) /\ SubSeq(src, pos, pos + Len(s) - 1) = s

Init == site \in Sites /\ ps = <<>> /\ src = "" /\ mode = "write" /\ pos = 1 /\ held = "" /\ got = ""
Digits == {"7", "ref7", "hex7", "cdata7", "note", "tagged", "pi", "void"}
Fits(p) == site \in {"number", "index"} => p \in Digits
Write(p) == /\ mode = "write" /\ Len(ps) < MaxLen /\ Fits(p)
            /\ (IF p = "nl" /\ ps # <<>> THEN Last(ps) # "cr" ELSE TRUE)         \* those two would be one line end
            /\ (IF p = "gt" /\ ps # <<>> THEN Last(ps) # "rsq" ELSE TRUE)
            /\ ps' = Append(ps, p) /\ src' = src \o Source(p) /\ UNCHANGED <<site, mode, pos, held, got>>
Begin == mode = "write" /\ ps # <<>> /\ mode' = "text" /\ UNCHANGED <<site, ps, src, pos, held, got>>
To(m, n) == mode' = m /\ pos' = pos + n /\ UNCHANGED <<site, ps, src>>
CodeOf(h) == CASE h \in {"#97", "#x61"} -> "a" [] h \in {"#55", "#x37"} -> "7" [] h = "#13" -> CR
               [] h = "amp" -> "&" [] h = "lt" -> "<" [] h = "gt" -> ">"
Step ==
  /\ mode \in {"text", "ref", "cdata", "comment", "pi"} /\ pos <= Len(src)
  /\ LET c == Ch(src, pos) IN
     CASE mode = "text" /\ At("<![CDATA[") -> To("cdata", 9) /\ UNCHANGED <<held, got>>
       [] mode = "text" /\ At("<!--") -> To("comment", 4) /\ UNCHANGED <<held, got>>
       [] mode = "text" /\ At("<?") -> To("pi", 2) /\ UNCHANGED <<held, got>>
       [] mode = "text" /\ c = "&" -> To("ref", 1) /\ held' = "" /\ UNCHANGED got
       [] mode = "text" /\ At(CR \o NL) -> To("text", 2) /\ got' = got \o NL /\ UNCHANGED held
       [] mode = "text" /\ c = CR -> To("text", 1) /\ got' = got \o NL /\ UNCHANGED held
       [] mode = "text" -> To("text", 1) /\ got' = got \o c /\ UNCHANGED held
       [] mode = "ref" /\ c = ";" -> To("text", 1) /\ got' = got \o CodeOf(held) /\ held' = ""
       [] mode = "ref" -> To("ref", 1) /\ held' = held \o c /\ UNCHANGED got
       [] mode = "cdata" /\ At("]]>") -> To("text", 3) /\ UNCHANGED <<held, got>>
       [] mode = "cdata" -> To("cdata", 1) /\ got' = got \o c /\ UNCHANGED held
       [] mode = "comment" /\ At("-->") -> To("text", 3) /\ UNCHANGED <<held, got>>
       [] mode = "pi" /\ At("?>") -> To("text", 2) /\ UNCHANGED <<held, got>>
       [] OTHER -> To(mode, 1) /\ UNCHANGED <<held, got>>
Next == (\E p \in Pieces : Write(p)) \/ Begin \/ Step
Spec == Init /\ [][Next]_vars
Done == mode = "text" /\ pos > Len(src)

RECURSIVE Meaning(_)
Meaning(s) == IF s = <<>> THEN "" ELSE Value(Head(s)) \o Meaning(Tail(s))
Same == Done => got = Meaning(ps)
Replayed == Done => Put([site |-> site, ps |-> ps, src |-> src, want |-> got])
=============================================================================
