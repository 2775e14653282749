package tlc2.module;
import java.math.BigInteger;
import tlc2.value.impl.*;
// Accelerated versions of the N* operators of Num.tla (their TLA+ definitions
// stay authoritative; SelfCheck.tla compares).
public class Num {
  static BigInteger b(Value v) { return new BigInteger(((StringValue) v).val.toString(), 16); }
  static int i(Value v) { return ((IntValue) v).val; }
  static Value s(BigInteger x) { return new StringValue(x.toString(16)); }
  static Value bool(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value NAdd(Value a, Value c) { return s(b(a).add(b(c))); }
  public static Value NSub(Value a, Value c) { return s(b(a).subtract(b(c))); }
  public static Value NMul(Value a, Value c) { return s(b(a).multiply(b(c))); }
  public static Value NDiv(Value a, Value c) { return s(b(a).divide(b(c))); }
  public static Value NMod(Value a, Value c) { return s(b(a).mod(b(c))); }
  public static Value NLess(Value a, Value c) { return bool(b(a).compareTo(b(c)) < 0); }
  public static Value NShl(Value a, Value k) { return s(b(a).shiftLeft(i(k))); }
  public static Value NShr(Value a, Value k) { return s(b(a).shiftRight(i(k))); }
  public static Value NBit(Value a, Value k) { return IntValue.gen(b(a).testBit(i(k)) ? 1 : 0); }
  public static Value NXor(Value a, Value c) { return s(b(a).xor(b(c))); }
  public static Value NBitLen(Value a) { return IntValue.gen(b(a).bitLength()); }
  public static Value NFromInt(Value a) { return new StringValue(Integer.toHexString(i(a))); }
  public static Value NToInt(Value a) { return IntValue.gen(b(a).intValueExact()); }
  static final char[] HEX = "0123456789abcdef".toCharArray();
  static String hex(byte[] d) {
    char[] r = new char[2 * d.length];
    for (int k = 0; k < d.length; k++) { r[2*k] = HEX[(d[k] >> 4) & 15]; r[2*k+1] = HEX[d[k] & 15]; }
    return new String(r);
  }
  static byte[] unhex(String t) {
    byte[] r = new byte[t.length() / 2];
    for (int k = 0; k < r.length; k++)
      r[k] = (byte) ((Character.digit(t.charAt(2*k), 16) << 4) | Character.digit(t.charAt(2*k+1), 16));
    return r;
  }
  public static Value BytesOfLE(Value a, Value n) {
    BigInteger x = b(a); byte[] r = new byte[i(n)];
    byte[] be = x.toByteArray();
    for (int k = 0; k < r.length; k++) { int j = be.length - 1 - k; r[k] = j >= 0 ? be[j] : 0; }
    return new StringValue(hex(r));
  }
  public static Value NatOfLE(Value bs) {
    byte[] d = unhex(((StringValue) bs).val.toString()); byte[] be = new byte[d.length + 1];
    for (int k = 0; k < d.length; k++) be[be.length - 1 - k] = d[k];
    return s(new BigInteger(be));
  }
}
