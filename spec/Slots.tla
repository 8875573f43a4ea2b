------------------------------- MODULE Slots -------------------------------
(***************************************************************************)
(* The slot of a key as Redis Cluster defines it: CRC16 (XMODEM: polynomial *)
(* x^16+x^12+x^5+1, initial value 0) modulo 16384 of the part between the   *)
(* first "{" and the first "}" after it if there is such a part and it is  *)
(* not empty, and of the whole key otherwise.  A key is a sequence of bytes.*)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

Poly == 4129       \* 0x1021
RECURSIVE Shift(_, _)
Shift(c, n) == IF n = 0 THEN c
               ELSE Shift(IF c >= 32768 THEN ((2 * c) % 65536) ^^ Poly ELSE 2 * c, n - 1)
Table == [b \in 0..255 |-> Shift(b * 256, 8)]
Step(c, b) == ((c % 256) * 256) ^^ Table[(c \div 256) ^^ b]
RECURSIVE Crc(_, _, _)
Crc(key, i, c) == IF i > Len(key) THEN c ELSE Crc(key, i + 1, Step(c, key[i]))
Crc16(key) == Crc(key, 1, 0)

Open == 123
Close == 125
RECURSIVE Find(_, _, _)
Find(key, b, i) == IF i > Len(key) THEN 0 ELSE IF key[i] = b THEN i ELSE Find(key, b, i + 1)
Hashed(key) ==
    LET o == Find(key, Open, 1)
        c == IF o = 0 THEN 0 ELSE Find(key, Close, o + 1)
    IN IF o = 0 \/ c = 0 \/ c = o + 1 THEN key ELSE SubSeq(key, o + 1, c - 1)
Slot(key) == Crc16(Hashed(key)) % 16384

(* the check value of the CRC and the examples of the Redis Cluster specification *)
ASSUME Crc16(<<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = 12739                     \* "123456789" -> 0x31C3
ASSUME Hashed(<<Open, 97, Close, 98>>) = <<97>>
ASSUME Hashed(<<Open, Close, Open, 97, Close>>) = <<Open, Close, Open, 97, Close>>
ASSUME Hashed(<<120, Open, Open, 97, Close, Close>>) = <<Open, 97>>
ASSUME Hashed(<<Open, 97, Close, Open, 98, Close>>) = <<97>>
ASSUME Hashed(<<Close, Open, 97>>) = <<Close, Open, 97>>
=============================================================================
