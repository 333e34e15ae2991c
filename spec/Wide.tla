-------------------------------- MODULE Wide --------------------------------
(* Nullable wide strings: a count of 16-bit units (all ones: null) and the units, low byte first.
   Texts are sequences of code points; a point beyond the basic plane takes two units.                 *)
EXTENDS Integers, Sequences, SequencesExt
Null == <<-1>>
Units(p) == IF p < 65536 THEN <<p>> ELSE <<55296 + (p - 65536) \div 1024, 56320 + ((p - 65536) % 1024)>>
Bytes2(u) == <<u % 256, u \div 256>>
Bytes4(n) == <<n % 256, (n \div 256) % 256, n \div 65536, 0>>
UnitsOf(t) == FoldLeft(LAMBDA a, p : a \o Units(p), <<>>, t)
Dump(t) == IF t = Null THEN <<255, 255, 255, 255>>
           ELSE LET u == UnitsOf(t) IN Bytes4(Len(u)) \o FoldLeft(LAMBDA a, x : a \o Bytes2(x), <<>>, u)
=============================================================================
