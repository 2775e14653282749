package tlc2.module;
import java.util.LinkedHashMap;
import java.util.Map;
import javax.crypto.Cipher;
import javax.crypto.spec.SecretKeySpec;
import tlc2.value.impl.*;
public class AES {
  static final ThreadLocal<Map<String, Cipher>> CACHE = ThreadLocal.withInitial(() ->
      new LinkedHashMap<String, Cipher>(64, 0.75f, true) {
        protected boolean removeEldestEntry(Map.Entry<String, Cipher> e) { return size() > 256; }
      });
  static byte[] enc(String key, byte[] pt) {
    try {
      Cipher c = CACHE.get().get(key);
      if (c == null) {
        c = Cipher.getInstance("AES/ECB/NoPadding");
        c.init(Cipher.ENCRYPT_MODE, new SecretKeySpec(Num.unhex(key), "AES"));
        CACHE.get().put(key, c);
      }
      return c.doFinal(pt);
    } catch (Exception e) { throw new RuntimeException(e); }
  }
  public static Value AESEnc(Value key, Value pt) {
    return new StringValue(Num.hex(enc(((StringValue) key).val.toString(), Num.unhex(((StringValue) pt).val.toString()))));
  }
}
