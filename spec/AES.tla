-------------------------------- MODULE AES --------------------------------
(***************************************************************************)
(* AES-128 (FIPS-197), the block cipher behind the generator, the trees    *)
(* and the hash functions.  Keys and blocks are byte strings (Num.tla):    *)
(* 32 hex digits in memory order.  AESEnc is replaced by javax.crypto when *)
(* TLC runs (java/tlc2/module/AES.java); PAESEnc is the specification.     *)
(***************************************************************************)
EXTENDS Num

Xtime(b) == IF b < 128 THEN 2*b ELSE XorI((2*b) % 256, 27, 8)
GMul8(a, b) ==
  FoldLeft(LAMBDA acc, k : <<Xtime(acc[1]),
             IF (b \div (2^(k-1))) % 2 = 1 THEN XorI(acc[2], acc[1], 8) ELSE acc[2]>>,
           <<a, 0>>, Idx(8))[2]
Inv8(a) == FoldLeft(LAMBDA acc, k : GMul8(a, GMul8(acc, acc)), a, Idx(6)) \* a^127
Inverse8(a) == LET i == Inv8(a) IN GMul8(i, i)                           \* a^254
RotL8(b, k) == ((b * Pow2I(k)) % 256) + (b \div Pow2I(8-k))
SBoxOf(b) == LET i == Inverse8(b)
             IN XorI(XorI(XorI(XorI(XorI(i, RotL8(i,1), 8), RotL8(i,2), 8), RotL8(i,3), 8), RotL8(i,4), 8), 99, 8)
SBox == [b \in 0..255 |-> SBoxOf(b)]

Bytes16(h) == [i \in 1..16 |-> 16 * DigitOf(CharAt(h, 2*i-1)) + DigitOf(CharAt(h, 2*i))]
Hex16(s) == FoldLeft(LAMBDA acc, b : acc \o HexByte(b), "", s)
Xor16(a, b) == [i \in 1..16 |-> XorI(a[i], b[i], 8)]

RCon == <<1, 2, 4, 8, 16, 32, 64, 128, 27, 54>>
NextKey(k, r) ==
  LET t == <<XorI(SBox[k[14]], RCon[r], 8), SBox[k[15]], SBox[k[16]], SBox[k[13]]>>
      w0 == [i \in 1..4 |-> XorI(k[i], t[i], 8)]
      w1 == [i \in 1..4 |-> XorI(k[4+i], w0[i], 8)]
      w2 == [i \in 1..4 |-> XorI(k[8+i], w1[i], 8)]
      w3 == [i \in 1..4 |-> XorI(k[12+i], w2[i], 8)]
  IN w0 \o w1 \o w2 \o w3
SubBytes(s) == [i \in 1..16 |-> SBox[s[i]]]
\* column-major state: byte i (0-based) is row i%4, column i\div 4
ShiftRows(s) == [i \in 1..16 |-> LET r == (i-1) % 4 c == (i-1) \div 4
                                 IN s[4*((c + r) % 4) + r + 1]]
MixColumns(s) ==
  [i \in 1..16 |->
    LET c == 4 * ((i-1) \div 4) r == (i-1) % 4
        at(j) == s[c + ((r + j) % 4) + 1]
    IN XorI(XorI(GMul8(at(0), 2), GMul8(at(1), 3), 8), XorI(at(2), at(3), 8), 8)]
Round(acc, r) ==      \* acc = <<state, round key>>
  LET k1 == NextKey(acc[2], r)
      t == ShiftRows(SubBytes(acc[1]))
  IN <<Xor16(IF r = 10 THEN t ELSE MixColumns(t), k1), k1>>
PAESEnc(key, pt) ==
  LET k == Bytes16(key)
  IN Hex16(FoldLeft(Round, <<Xor16(Bytes16(pt), k), k>>, Idx(10))[1])

AESEnc(key, pt) == PAESEnc(key, pt)
=============================================================================
