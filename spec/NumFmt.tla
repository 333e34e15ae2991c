------------------------------- MODULE NumFmt -------------------------------
(* What a number format code says about its cells: "t" a date or time, "n" a number, "g" neither.

   A code is sections separated by ";"; only the first counts.  Quoted texts, escaped characters and bracketed parts are
   not letters of a date, except the brackets of elapsed time: [h], [mm] and so on.                                      *)
EXTENDS Txt, FiniteSets

Letters == {"d", "m", "h", "y", "s", "D", "M", "H", "Y", "S"}
Elapsed == {"h", "hh", "m", "mm", "s", "ss", "H", "HH", "Hh", "hH", "M", "MM", "Mm", "mM", "S", "SS", "Ss", "sS"}

(* codes that do not end inside a quotation, a bracket or an escape are well formed; a token is [k, s] *)
EndAt(s, p, c) == LET e == {i \in p..Len(s) : Ch(s, i) = c} IN IF e = {} THEN 0 ELSE CHOOSE i \in e : \A j \in e : i <= j
RECURSIVE Tokens(_, _, _)
Tokens(s, p, acc) ==
  IF p > Len(s) THEN acc
  ELSE LET c == Ch(s, p)
           e == CASE c = "\"" -> EndAt(s, p + 1, "\"") [] c = "[" -> EndAt(s, p + 1, "]")
                  [] c = "\\" -> (IF p < Len(s) THEN p + 1 ELSE 0) [] OTHER -> p
           k == CASE c = "\"" -> "quoted" [] c = "[" -> "bracket" [] c = "\\" -> "escaped" [] c = ";" -> "end" [] OTHER -> "char"
       IN IF e = 0 THEN Append(acc, [k |-> "broken", s |-> ""])
          ELSE Tokens(s, e + 1, Append(acc, [k |-> k, s |-> IF k = "bracket" THEN SubSeq(s, p + 1, e - 1) ELSE SubSeq(s, p, e)]))

WellFormed(s) == \A i \in DOMAIN Tokens(s, 1, <<>>) : Tokens(s, 1, <<>>)[i].k # "broken"
FirstTokens(s) == LET t == Tokens(s, 1, <<>>)
                      e == {i \in 1..Len(t) : t[i].k = "end"}
                  IN IF e = {} THEN t ELSE SubSeq(t, 1, (CHOOSE i \in e : \A j \in e : i <= j) - 1)
IsDate(s) == LET t == FirstTokens(s)
             IN \E i \in 1..Len(t) : (t[i].k = "char" /\ t[i].s \in Letters) \/ (t[i].k = "bracket" /\ t[i].s \in Elapsed)
FirstText(s) == LET t == FirstTokens(s) IN Concat([i \in 1..Len(t) |-> IF t[i].k = "bracket" THEN "[" \o t[i].s \o "]" ELSE t[i].s])
CodeClass(s) == IF IsDate(s) THEN "t" ELSE IF FirstText(s) = "0" \/ Within(FirstText(s), ".00") THEN "n" ELSE "g"

(* built-in formats *)
BuiltIn(id) == IF id \in (14..22) \cup (45..47) THEN "t" ELSE IF id \in (1..4) \cup (37..40) \cup {48} THEN "n" ELSE "g"

(* The class of every cell style: fmts = << <<id, code>>, ... >> the list of number formats, xfs the format ids of the styles *)
StyleClass(fmts, id) ==
  LET at == {i \in 1..Len(fmts) : fmts[i][1] = id}
  IN IF at = {} THEN BuiltIn(id) ELSE CodeClass(fmts[CHOOSE i \in at : \A j \in at : j <= i][2])
=============================================================================
