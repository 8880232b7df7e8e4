------------------------------ MODULE BitsGen -------------------------------
(* All behaviours of the bit buffer up to a depth over a small set of          *)
(* arguments.  TLC checks that the buffer's laws hold of them and prints the   *)
(* operation sequences for replay into the real buffer.                        *)
EXTENDS BitsBuf, Json
CONSTANTS Depth, Ns
Starts == {<<>>, <<229, 60>>}

VARIABLES s, hist, start
O(o, n, by) == [o |-> o, n |-> n, by |-> by]
Ops == {O("read_bits", n, <<>>) : n \in Ns \cup {0}} \cup {O("write_bits", n, <<v>>) : n \in Ns, v \in {165, 0}}
       \cup {O("read_u16", 2, <<>>), O("read_vec", 1, <<>>), O("write_u16", 0, <<195, 90>>), O("write_bytes", 0, <<255>>)}
       \cup {O(o, n, <<>>) : o \in {"set_read", "set_write", "truncate"}, n \in {0, 3, 8, 13}}

Init == start \in Starts /\ s = Fresh(start) /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops : Enabled(s, op) /\ s' = Eff(s, op) /\ hist' = Append(hist, op) /\ UNCHANGED start
Spec == Init /\ [][Next]_<<s, hist, start>>

CursorsInside == s.rd <= Len(s.bits) /\ s.wr <= Len(s.bits)
BitsAreBits == \A k \in 1..Len(s.bits) : s.bits[k] \in {0, 1}
\* what was written is what is read back from the same place
ReadBack == \A op \in {o \in Ops : IsWrite(o)} :
               LET t == Eff(s, op)
                   u == [t EXCEPT !.rd = s.wr]
                   n == t.wr - s.wr
               IN SubSeq(u.bits, u.rd + 1, u.rd + n) = WBits(op) /\ Len(t.bits) = IF s.wr + n > Len(s.bits) THEN s.wr + n ELSE Len(s.bits)
FailsWithoutEffect == \A op \in {o \in Ops : IsRead(o)} : ~CanRead(s, op) => Eff(s, op) = s
RoundTrip == Len(s.bits) % 8 = 0 => Bits(ToBytes(s.bits)) = s.bits
Dump == Len(hist) = Depth => PrintT(<<"GEN", ToJson([start |-> start, ops |-> hist])>>)
=============================================================================
