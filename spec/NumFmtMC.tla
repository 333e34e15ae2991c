------------------------------- MODULE NumFmtMC -------------------------------
(* Every short format code, read character by character. *)
EXTENDS NumFmt, Emit
CONSTANTS Which, MaxLen
Alphabet == <<{"d", "h", "0", ".", "\"", "[", "]", ";", "\\", "x"}, {"m", "H", "0", "\"", "[", "]", ";", "\\"},
              {"s", "Y", "0", ".", "\"", "[", "]", ";", "\\", "@"}>>[Which]

VARIABLES code, mode, brk, first, tem, sec, odd
vars == <<code, mode, brk, first, tem, sec, odd>>
Init == code = "" /\ mode = "out" /\ brk = "" /\ first = TRUE /\ tem = FALSE /\ sec = "" /\ odd = FALSE

Read(c) ==
  /\ Len(code) < MaxLen /\ code' = code \o c
  /\ first' = (first /\ ~(mode = "out" /\ c = ";"))
  /\ sec' = IF first' THEN sec \o c ELSE sec
  /\ mode' = CASE mode = "esc" -> "out"
               [] mode = "quote" -> (IF c = "\"" THEN "out" ELSE "quote")
               [] mode = "brk" -> (IF c = "]" THEN "out" ELSE "brk")
               [] OTHER -> CASE c = "\\" -> "esc" [] c = "\"" -> "quote" [] c = "[" -> "brk" [] OTHER -> "out"
  /\ brk' = IF mode = "brk" /\ c # "]" THEN brk \o c ELSE ""
  /\ tem' = (tem \/ (first /\ ((mode = "out" /\ c \in Letters) \/ (mode = "brk" /\ c = "]" /\ brk \in Elapsed))))
  \* elapsed times of three letters and more are left open
  /\ odd' = (odd \/ (mode = "brk" /\ c = "]" /\ Len(brk) > 2 /\ \A i \in 1..Len(brk) : Ch(brk, i) \in Letters \ {"d", "y", "D", "Y"}))
Next == \E c \in Alphabet : Read(c)
Spec == Init /\ [][Next]_vars

Class == IF tem THEN "t" ELSE IF sec = "0" \/ Within(sec, ".00") THEN "n" ELSE "g"

(* --- meaning --- *)
Meaning == /\ WellFormed(code) = (mode = "out")
           /\ mode = "out" => Class = CodeClass(code)
(* after the first section nothing changes any more *)
Settled == [][~first => (tem' = tem /\ sec' = sec)]_vars
(* a date stays a date *)
Once == [][tem => tem']_vars
Replayed == (mode = "out" /\ ~odd /\ code # "") => Put([c |-> code, k |-> Class])
=============================================================================
