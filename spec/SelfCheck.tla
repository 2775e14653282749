------------------------------ MODULE SelfCheck ------------------------------
(* The accelerated operators agree with their TLA+ definitions.             *)
EXTENDS AES, Ring
Samples == {"0", "1", "2", "87", "ff", "100", "ffff", "10000", "deadbeef", "123456789abcdef",
            "ffffffffffffffff", "10000000000000000", "8000000000000000000000000000000",
            "ffffffffffffffffffffffffffffffff", "100000000000000000000000000000000",
            "f0e1d2c3b4a5968778695a4b3c2d1e0f", "1c0ffee0000000000000000badf00d"}
Few == {"0", "1", "87", "100", "ffffffffffffffff", "8000000000000000000000000000000",
        "ffffffffffffffffffffffffffffffff"}
AritOK == \A a, b \in Samples :
   /\ NAdd(a, b) = PAdd(a, b) /\ NXor(a, b) = PXor(a, b)
   /\ NLess(a, b) = PLess(a, b) /\ (NLeq(b, a) => NSub(a, b) = PSub(a, b))
UnaryOK == \A a \in Samples :
   /\ NBitLen(a) = PBitLen(a)
   /\ \A k \in {0, 1, 7, 8, 9, 63, 64, 127} : /\ NShl(a, k) = PShl(a, k) /\ NShr(a, k) = PShr(a, k)
                                              /\ NBit(a, k) = PBit(a, k)
   /\ BytesOfLE(a, 17) = PBytesOfLE(a, 17) /\ NatOfLE(BytesOfLE(a, 17)) = PNatOfLE(PBytesOfLE(a, 17))
MulOK == \A a, b \in Few : /\ NMul(a, b) = PMul(a, b)
DivOK == \A a \in Few : \A b \in {"1", "87", "ffffffffffffffc5", "10000000000000000"} :
           NDiv(a, b) = PDiv(a, b) /\ NMod(a, b) = PMod(a, b)
IntOK == \A i \in {0, 1, 9, 10, 15, 16, 255, 256, 65535, 2147483647} :
           NFromInt(i) = PFromInt(i) /\ NToInt(NFromInt(i)) = i
GFOK == /\ \A a \in {"2", "f0e1d2c3b4a5968778695a4b3c2d1e0f", "80000000000000000000000000000000"} :
           \A b \in {"87", "ffffffffffffffffffffffffffffffff"} : GFMul(a, b) = PGFMul(a, b)
AESOK == /\ PAESEnc("000102030405060708090a0b0c0d0e0f", "00112233445566778899aabbccddeeff")
              = "69c4e0d86a7b0430d8cdb78070b4c55a"        \* FIPS-197 appendix C.1
         /\ AESEnc("000102030405060708090a0b0c0d0e0f", "00112233445566778899aabbccddeeff")
              = "69c4e0d86a7b0430d8cdb78070b4c55a"
         /\ AESEnc("2b7e151628aed2a6abf7158809cf4f3c", "3243f6a8885a308d313198a2e0370734")
              = PAESEnc("2b7e151628aed2a6abf7158809cf4f3c", "3243f6a8885a308d313198a2e0370734")
SelfCheckOK == AritOK /\ UnaryOK /\ MulOK /\ DivOK /\ IntOK /\ GFOK /\ AESOK
=============================================================================
