-------------------------------- MODULE Crc --------------------------------
(***************************************************************************)
(* Checksums of concatenations.  A reflected CRC with register width W and *)
(* polynomial P over bit sequences; the combination algorithm squares the  *)
(* matrix that shifts in one zero and applies it for every binary digit of *)
(* the length of the second part.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS W, Polys, MaxBits

RECURSIVE Xor(_, _)
Xor(a, b) == IF a = 0 /\ b = 0 THEN 0 ELSE ((a + b) % 2) + 2 * Xor(a \div 2, b \div 2)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Ones == Pow2(W) - 1

VARIABLES P, a, b, n, i, op, c
vars == <<P, a, b, n, i, op, c>>

Shift(r) == IF r % 2 = 1 THEN Xor(r \div 2, P) ELSE r \div 2
RECURSIVE Feed(_, _)
Feed(r, s) == IF s = <<>> THEN r ELSE Feed(Shift(Xor(r, Head(s))), Tail(s))
CRC(s) == Xor(Feed(Ones, s), Ones)
RECURSIVE Zeros(_, _)
Zeros(r, k) == IF k = 0 THEN r ELSE Zeros(Shift(r), k - 1)

RECURSIVE Times(_, _, _)
Times(m, v, k) == IF v = 0 THEN 0 ELSE Xor(IF v % 2 = 1 THEN m[k] ELSE 0, Times(m, v \div 2, k + 1))
Square(m) == [k \in 1 .. W |-> Times(m, m[k], 1)]
OneZero == [k \in 1 .. W |-> Shift(Pow2(k - 1))]

Bits == UNION {[1 .. k -> {0, 1}] : k \in 0 .. MaxBits}
Init == /\ P \in Polys /\ a \in Bits /\ b \in Bits
        /\ n = Len(b) /\ i = 0 /\ op = OneZero /\ c = CRC(a)
Step == /\ n > 0
        /\ c' = IF n % 2 = 1 THEN Times(op, c, 1) ELSE c
        /\ op' = Square(op) /\ n' = n \div 2 /\ i' = i + 1
        /\ UNCHANGED <<P, a, b>>
Spec == Init /\ [][Step]_vars

(*-- properties --*)
Combined == n = 0 => Xor(c, CRC(b)) = CRC(a \o b)
OpIsPower == \A k \in 1 .. W : op[k] = Zeros(Pow2(k - 1), Pow2(i))
Partial == c = Zeros(CRC(a), Len(b) - n * Pow2(i))
RECURSIVE Digits(_)
Digits(k) == IF k = 0 THEN <<>> ELSE <<k % 2>> \o Digits(k \div 2)
\* one behaviour for each pair of lengths
Emit == IF n = 0 /\ (\A q \in Polys : P <= q)
           /\ (\A k \in 1 .. Len(a) : a[k] = 1) /\ (\A k \in 1 .. Len(b) : b[k] = 1)
        THEN PrintT("B|" \o ToJson([a |-> Len(a), b |-> Digits(Len(b))]))
        ELSE TRUE
=============================================================================
