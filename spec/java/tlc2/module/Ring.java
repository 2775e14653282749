package tlc2.module;
import java.math.BigInteger;
import tlc2.value.impl.*;
public class Ring {
  // Carry-less product, then reduction by x^128+x^7+x^2+x+1.
  public static Value GFMul(Value a, Value c) {
    BigInteger x = Num.b(a), y = Num.b(c), r = BigInteger.ZERO;
    for (int k = y.bitLength() - 1; k >= 0; k--) { r = r.shiftLeft(1); if (y.testBit(k)) r = r.xor(x); }
    BigInteger m = BigInteger.ONE.shiftLeft(128).or(BigInteger.valueOf(0x87));
    for (int k = r.bitLength() - 1; k >= 128; k--) if (r.testBit(k)) r = r.xor(m.shiftLeft(k - 128));
    return Num.s(r);
  }
}
