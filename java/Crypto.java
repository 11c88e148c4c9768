// Java overrides for specs/Crypto.tla: the standard primitives the
// specifications take as given (hash functions, arbitrary-size integers, hex).
// Loaded by TLC because the class is named like the TLA+ module.
// Nothing in here knows anything about the code under verification.
import java.math.BigInteger;
import java.security.MessageDigest;
import tlc2.value.impl.*;
import util.UniqueString;

public class Crypto {
  private static final Value[] BYTE = new Value[256];
  private static final char[] HEX = "0123456789abcdef".toCharArray();
  static { for (int i = 0; i < 256; i++) BYTE[i] = IntValue.gen(i); }

  static byte[] unhex(Value v) {
    String s = ((StringValue) v).val.toString();
    byte[] r = new byte[s.length() / 2];
    for (int i = 0; i < r.length; i++)
      r[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
    return r;
  }
  static String str(Value v) { return ((StringValue) v).val.toString(); }
  static Value hexv(byte[] b) {
    char[] c = new char[b.length * 2];
    for (int i = 0; i < b.length; i++) { c[2*i] = HEX[(b[i] >> 4) & 15]; c[2*i+1] = HEX[b[i] & 15]; }
    return new StringValue(new String(c));
  }
  static byte[] bytes(Value v) {
    if (v instanceof StringValue) return unhex(v);
    TupleValue t = (TupleValue) v.toTuple();
    byte[] r = new byte[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = (byte) ((IntValue) t.elems[i]).val;
    return r;
  }
  static Value tuple(byte[] b) {
    Value[] e = new Value[b.length];
    for (int i = 0; i < b.length; i++) e[i] = BYTE[b[i] & 255];
    return new TupleValue(e);
  }
  static byte[] dig(String alg, byte[] b) {
    try { return MessageDigest.getInstance(alg).digest(b); }
    catch (Exception e) { throw new RuntimeException(e); }
  }
  static BigInteger big(Value v) {
    if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
    return new BigInteger(str(v));
  }
  static Value bigv(BigInteger b) { return new StringValue(b.toString()); }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static byte[] le(BigInteger v, int n) {   // two's complement, little endian, n bytes
    byte[] r = new byte[n];
    for (int i = 0; i < n; i++) r[i] = v.shiftRight(8 * i).byteValue();
    return r;
  }
  static BigInteger unle(byte[] b) {
    byte[] r = new byte[b.length + 1];
    for (int i = 0; i < b.length; i++) r[b.length - i] = b[i];
    return new BigInteger(r);
  }

  // hex strings <-> byte tuples
  public static Value Unhex(Value h) { return tuple(unhex(h)); }
  public static Value Hex(Value t) { return hexv(bytes(t)); }
  public static Value HexLen(Value h) { return IntValue.gen(str(h).length() / 2); }
  public static Value HexSub(Value h, Value a, Value b) {   // bytes a..b (1-based), as SubSeq
    String s = str(h); int i = ((IntValue) a).val, j = ((IntValue) b).val;
    if (i < 1) i = 1; if (j > s.length() / 2) j = s.length() / 2;
    return new StringValue(i > j ? "" : s.substring(2 * (i - 1), 2 * j));
  }
  public static Value HexAt(Value h, Value a) {
    int i = ((IntValue) a).val;
    return BYTE[Integer.parseInt(str(h).substring(2 * i - 2, 2 * i), 16)];
  }
  public static Value HexRev(Value h) {
    byte[] b = unhex(h); byte[] r = new byte[b.length];
    for (int i = 0; i < b.length; i++) r[i] = b[b.length - 1 - i];
    return hexv(r);
  }
  public static Value HexCat(Value seq) {
    TupleValue t = (TupleValue) seq.toTuple();
    StringBuilder sb = new StringBuilder();
    for (Value v : t.elems) sb.append(str(v));
    return new StringValue(sb.toString());
  }
  public static Value StrChars(Value s) {   // string -> sequence of one-character strings
    String x = str(s); Value[] e = new Value[x.length()];
    for (int i = 0; i < e.length; i++) e[i] = new StringValue(x.substring(i, i + 1));
    return new TupleValue(e);
  }
  public static Value HexRep(Value h, Value n) { return new StringValue(str(h).repeat(((IntValue) n).val)); }
  public static Value HexXor(Value a, Value b) {
    byte[] x = unhex(a), y = unhex(b);
    byte[] r = new byte[x.length];
    for (int i = 0; i < r.length; i++) r[i] = (byte) (x[i] ^ y[i]);
    return hexv(r);
  }

  // hash functions: same kind of value (hex or tuple) out as in
  private static Value h(Value v, byte[] d) { return v instanceof StringValue ? hexv(d) : tuple(d); }
  public static Value Sha256(Value v) { return h(v, dig("SHA-256", bytes(v))); }
  public static Value Hash256(Value v) { return h(v, dig("SHA-256", dig("SHA-256", bytes(v)))); }
  public static Value Sha1(Value v) { return h(v, dig("SHA-1", bytes(v))); }
  public static Value Ripemd160(Value v) { return h(v, Rmd.hash(bytes(v))); }
  public static Value Hash160(Value v) { return h(v, Rmd.hash(dig("SHA-256", bytes(v)))); }

  // arbitrary-size integers as decimal strings (TLC integers are 32 bit)
  public static Value BAdd(Value a, Value b) { return bigv(big(a).add(big(b))); }
  public static Value BSub(Value a, Value b) { return bigv(big(a).subtract(big(b))); }
  public static Value BMul(Value a, Value b) { return bigv(big(a).multiply(big(b))); }
  public static Value BDiv(Value a, Value b) {   // floor division
    BigInteger x = big(a), y = big(b); BigInteger[] q = x.divideAndRemainder(y);
    return bigv(q[1].signum() != 0 && (q[1].signum() != y.signum()) ? q[0].subtract(BigInteger.ONE) : q[0]);
  }
  public static Value BMod(Value a, Value b) { return bigv(big(a).mod(big(b))); }
  public static Value BPow(Value a, Value n) { return bigv(big(a).pow(((IntValue) n).val)); }
  public static Value BCmp(Value a, Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
  public static Value BLt(Value a, Value b) { return bool(big(a).compareTo(big(b)) < 0); }
  public static Value BLe(Value a, Value b) { return bool(big(a).compareTo(big(b)) <= 0); }
  public static Value BOf(Value n) { return bigv(big(n)); }
  public static Value BInt(Value s) { return IntValue.gen(big(s).intValueExact()); }
  public static Value BFitsInt(Value s) { return bool(big(s).bitLength() <= 30); }
  public static Value BAnd(Value a, Value b) { return bigv(big(a).and(big(b))); }
  public static Value BOr(Value a, Value b) { return bigv(big(a).or(big(b))); }
  public static Value BXor(Value a, Value b) { return bigv(big(a).xor(big(b))); }
  public static Value BBits(Value a) { return IntValue.gen(big(a).abs().bitLength()); }
  public static Value BLE(Value a, Value n) { return hexv(le(big(a), ((IntValue) n).val)); }
  public static Value BOfLE(Value h) { return bigv(unle(bytes(h))); }
  public static Value BIsNum(Value s) {
    return bool(s instanceof StringValue && str(s).matches("-?[0-9]+"));
  }
}
