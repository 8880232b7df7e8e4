------------------------------ MODULE BitsBuf -------------------------------
(* The bit buffer (C04): a sequence of bits, a read and a write cursor.        *)
(* An operation is [o, n, by]; it is defined by its effect Eff(s, op) and its  *)
(* result Res(s, op) on a state s = [bits, rd, wr].                            *)
EXTENDS Naturals, Sequences, TLC

P2 == <<128, 64, 32, 16, 8, 4, 2, 1>>
ByteBits(x) == [j \in 1..8 |-> (x \div P2[j]) % 2]
LowBits(x, n) == [j \in 1..n |-> (x \div P2[8 - n + j]) % 2]     \* the n low bits of a byte
Bits(by) == [k \in 1..(8 * Len(by)) |-> ByteBits(by[((k - 1) \div 8) + 1])[((k - 1) % 8) + 1]]
\* bits as bytes, filled up with zeroes on the right
Get(b, k) == IF k <= Len(b) THEN b[k] ELSE 0
ToBytes(b) == [k \in 1..((Len(b) + 7) \div 8) |->
                 LET g(j) == Get(b, 8 * (k - 1) + j) * P2[j] IN g(1) + g(2) + g(3) + g(4) + g(5) + g(6) + g(7) + g(8)]

Fresh(by) == [bits |-> Bits(by), rd |-> 0, wr |-> 8 * Len(by)]

\* number of bits an operation reads, and the bits it writes
NRead(op) == CASE op.o = "read_bits" -> op.n [] op.o \in {"read_u8", "read_u16", "read_u32", "read_vec", "read_arr"} -> 8 * op.n
IsRead(op) == op.o \in {"read_bits", "read_u8", "read_u16", "read_u32", "read_vec", "read_arr"}
IsWrite(op) == op.o \in {"write_bits", "write_u8", "write_u16", "write_u32", "write_bytes"}
WBits(op) == IF op.o = "write_bits" THEN LowBits(op.by[1], op.n) ELSE Bits(op.by)

Enabled(s, op) == op.o \in {"set_read", "set_write"} => op.n <= Len(s.bits)

CanRead(s, op) == s.rd + NRead(op) <= Len(s.bits)

Min(x, y) == IF x < y THEN x ELSE y
Eff(s, op) ==
    CASE IsRead(op) -> IF CanRead(s, op) THEN [s EXCEPT !.rd = s.rd + NRead(op)] ELSE s
      [] IsWrite(op) -> LET w == WBits(op) IN
            [s EXCEPT !.bits = SubSeq(s.bits, 1, s.wr) \o w \o SubSeq(s.bits, s.wr + Len(w) + 1, Len(s.bits)),
                      !.wr = s.wr + Len(w)]
      [] op.o = "set_read" -> [s EXCEPT !.rd = op.n]
      [] op.o = "set_write" -> [s EXCEPT !.wr = op.n]
      [] op.o = "truncate" -> [bits |-> SubSeq(s.bits, 1, Min(op.n, Len(s.bits))), rd |-> Min(s.rd, op.n), wr |-> Min(s.wr, op.n)]

\* what a read returns, as bytes; read_bits returns its bits in the low end of one byte
Res(s, op) ==
    LET r == SubSeq(s.bits, s.rd + 1, s.rd + NRead(op)) IN
    IF op.o = "read_bits" THEN <<LET f(j) == IF j > 8 - op.n THEN r[j - (8 - op.n)] * P2[j] ELSE 0
                                 IN f(1) + f(2) + f(3) + f(4) + f(5) + f(6) + f(7) + f(8)>>
    ELSE ToBytes(r)
=============================================================================
