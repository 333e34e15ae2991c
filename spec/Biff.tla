-------------------------------- MODULE Biff --------------------------------
(* BIFF12 record streams.  A byte has a low part below B and a continuation flag of weight B; in the
   files B is 128.  A record is [id, n]: its id (as the file form of the table) and the size of its data.   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANT B

High(b) == (b \div B) % 2 = 1
ValidId(id) == id >= 0 /\ ((id < B) \/ (High(id % (2 * B)) /\ id < 4 * B * B))
ValidSize(n) == n >= 0 /\ n < B * B * B * B

IdBytes(id) == IF High(id) THEN <<id % (2 * B), id \div (2 * B)>> ELSE <<id>>
RECURSIVE SizeBytes(_)
SizeBytes(n) == IF n < B THEN <<n>> ELSE <<(n % B) + B>> \o SizeBytes(n \div B)
(* a size may be written in more bytes than it needs, four at most *)
RECURSIVE Padded(_, _)
Padded(s, w) == IF Len(s) >= w THEN s ELSE Padded([s EXCEPT ![Len(s)] = @ + B] \o <<0>>, w)
Width(r) == IF "w" \in DOMAIN r THEN r.w ELSE 0
Header(r) == IdBytes(r.id) \o Padded(SizeBytes(r.n), Width(r))
Whole(r) == Len(Header(r)) + r.n

RECURSIVE EndOf(_, _)
EndOf(rs, i) == IF i = 0 THEN 0 ELSE EndOf(rs, i - 1) + Whole(rs[i])

(* --- meaning: records that lie wholly before the cut and are wanted (all: no set of wanted ids) --- *)
Scanned(rs, all, only, cut) ==
  SelectSeq([i \in 1..Len(rs) |-> i], LAMBDA i : EndOf(rs, i) <= cut /\ (all \/ rs[i].id \in only))

(* --- the byte at a position of a stream; data bytes are such that reading them as a header would show --- *)
Filler(i, o) == (i * (B + 1) + o) % (2 * B)
ByteAt(rs, p) ==
  LET i == CHOOSE k \in 1..Len(rs) : EndOf(rs, k - 1) <= p /\ p < EndOf(rs, k)
      h == Header(rs[i])
      o == p - EndOf(rs, i - 1)
  IN IF o < Len(h) THEN h[o + 1] ELSE Filler(i, o)
=============================================================================
