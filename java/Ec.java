// Java overrides for specs/Ec.tla: secp256k1 and ECDSA as standards define
// them (SEC 1, SEC 2).  Nothing in here knows the code under verification.
import java.math.BigInteger;
import java.util.Map;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

public class Ec {
  static final BigInteger P = new BigInteger("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16);
  static final BigInteger N = new BigInteger("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16);
  static final BigInteger GX = new BigInteger("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", 16);
  static final BigInteger GY = new BigInteger("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 16);
  static final BigInteger SEVEN = BigInteger.valueOf(7), TWO = BigInteger.TWO, THREE = BigInteger.valueOf(3);
  static final Map<String, Boolean> CACHE = new ConcurrentHashMap<>();

  // Jacobian points {x, y, z}; z = 0: infinity
  static BigInteger[] dbl(BigInteger[] p) {
    if (p[2].signum() == 0 || p[1].signum() == 0) return new BigInteger[] {BigInteger.ONE, BigInteger.ONE, BigInteger.ZERO};
    BigInteger yy = p[1].multiply(p[1]).mod(P), s = p[0].multiply(yy).shiftLeft(2).mod(P);
    BigInteger m = p[0].multiply(p[0]).multiply(THREE).mod(P);
    BigInteger x = m.multiply(m).subtract(s.shiftLeft(1)).mod(P);
    BigInteger y = m.multiply(s.subtract(x)).subtract(yy.multiply(yy).shiftLeft(3)).mod(P);
    return new BigInteger[] {x, y, p[1].multiply(p[2]).shiftLeft(1).mod(P)};
  }
  static BigInteger[] add(BigInteger[] p, BigInteger[] q) {
    if (p[2].signum() == 0) return q;
    if (q[2].signum() == 0) return p;
    BigInteger z1 = p[2].multiply(p[2]).mod(P), z2 = q[2].multiply(q[2]).mod(P);
    BigInteger u1 = p[0].multiply(z2).mod(P), u2 = q[0].multiply(z1).mod(P);
    BigInteger s1 = p[1].multiply(z2).multiply(q[2]).mod(P), s2 = q[1].multiply(z1).multiply(p[2]).mod(P);
    if (u1.equals(u2)) return s1.equals(s2) ? dbl(p) : new BigInteger[] {BigInteger.ONE, BigInteger.ONE, BigInteger.ZERO};
    BigInteger h = u2.subtract(u1), r = s2.subtract(s1), h2 = h.multiply(h).mod(P), h3 = h2.multiply(h).mod(P), v = u1.multiply(h2).mod(P);
    BigInteger x = r.multiply(r).subtract(h3).subtract(v.shiftLeft(1)).mod(P);
    BigInteger y = r.multiply(v.subtract(x)).subtract(s1.multiply(h3)).mod(P);
    return new BigInteger[] {x, y, h.multiply(p[2]).multiply(q[2]).mod(P)};
  }
  static BigInteger[] mul(BigInteger k, BigInteger[] p) {
    BigInteger[] r = {BigInteger.ONE, BigInteger.ONE, BigInteger.ZERO};
    for (int i = k.bitLength() - 1; i >= 0; i--) { r = dbl(r); if (k.testBit(i)) r = add(r, p); }
    return r;
  }
  static BigInteger[] affine(BigInteger[] p) {   // null: infinity
    if (p[2].signum() == 0) return null;
    BigInteger i = p[2].modInverse(P), i2 = i.multiply(i).mod(P);
    return new BigInteger[] {p[0].multiply(i2).mod(P), p[1].multiply(i2).multiply(i).mod(P), BigInteger.ONE};
  }
  static BigInteger num(byte[] b, int from, int n) {
    byte[] r = new byte[n];
    System.arraycopy(b, from, r, 0, n);
    return new BigInteger(1, r);
  }
  static final BigInteger[] G = {GX, GY, BigInteger.ONE};
  // a point from its encoding: compressed, uncompressed or hybrid; null if it is none
  static BigInteger[] point(byte[] b) {
    if (b.length == 33 && (b[0] == 2 || b[0] == 3)) {
      BigInteger x = num(b, 1, 32);
      if (x.compareTo(P) >= 0) return null;
      BigInteger yy = x.modPow(THREE, P).add(SEVEN).mod(P), y = yy.modPow(P.add(BigInteger.ONE).shiftRight(2), P);
      if (!y.multiply(y).mod(P).equals(yy)) return null;
      if (y.testBit(0) != (b[0] == 3)) y = P.subtract(y);
      return new BigInteger[] {x, y, BigInteger.ONE};
    }
    if (b.length == 65 && (b[0] == 4 || b[0] == 6 || b[0] == 7)) {
      BigInteger x = num(b, 1, 32), y = num(b, 33, 32);
      if (x.compareTo(P) >= 0 || y.compareTo(P) >= 0) return null;
      if (!y.multiply(y).mod(P).equals(x.modPow(THREE, P).add(SEVEN).mod(P))) return null;
      if (b[0] != 4 && y.testBit(0) != (b[0] == 7)) return null;
      return new BigInteger[] {x, y, BigInteger.ONE};
    }
    return null;
  }
  static byte[] enc(BigInteger[] a, boolean compressed) {
    byte[] r = new byte[compressed ? 33 : 65];
    r[0] = (byte) (compressed ? (a[1].testBit(0) ? 3 : 2) : 4);
    for (int k = 0; k < (compressed ? 1 : 2); k++)
      for (int i = 0; i < 32; i++) r[32 * (k + 1) - i] = a[k].shiftRight(8 * i).byteValue();
    return r;
  }
  // strict DER: {r, s} or null
  static BigInteger[] sig(byte[] b) {
    if (b.length < 8 || b[0] != 0x30) return null;
    int i = 1, len = b[i++] & 255;
    if (len >= 128) return null;       // two numbers of 33 bytes fit in 70
    if (len != b.length - 2) return null;
    BigInteger[] r = new BigInteger[2];
    for (int k = 0; k < 2; k++) {
      if (i + 2 > b.length || b[i++] != 2) return null;
      int n = b[i++] & 255;
      if (n == 0 || n >= 128 || i + n > b.length) return null;
      if (n > 1 && b[i] == 0 && b[i + 1] >= 0) return null;
      byte[] v = new byte[n];
      System.arraycopy(b, i, v, 0, n);
      r[k] = new BigInteger(v);
      if (r[k].signum() < 0) return null;
      i += n;
    }
    return i == b.length ? r : null;
  }
  static boolean verify(byte[] pub, byte[] digest, byte[] der) {
    BigInteger[] q = point(pub), rs = sig(der);
    if (q == null || rs == null) return false;
    for (BigInteger v : rs) if (v.signum() <= 0 || v.compareTo(N) >= 0) return false;
    BigInteger z = num(digest, 0, digest.length);
    if (digest.length > 32) z = num(digest, 0, 32);
    BigInteger w = rs[1].modInverse(N);
    BigInteger[] a = affine(add(mul(z.multiply(w).mod(N), G), mul(rs[0].multiply(w).mod(N), q)));
    return a != null && a[0].mod(N).equals(rs[0]);
  }
  public static Value EcVerify(Value pub, Value digest, Value sig) {
    String k = Crypto.str(pub) + "/" + Crypto.str(digest) + "/" + Crypto.str(sig);
    return Crypto.bool(CACHE.computeIfAbsent(k, x -> verify(Crypto.unhex(pub), Crypto.unhex(digest), Crypto.unhex(sig))));
  }
  public static Value EcPoint(Value pub) { return Crypto.bool(point(Crypto.unhex(pub)) != null); }
  public static Value EcSame(Value a, Value b) {
    BigInteger[] x = point(Crypto.unhex(a)), y = point(Crypto.unhex(b));
    return Crypto.bool(x != null && y != null && x[0].equals(y[0]) && x[1].equals(y[1]));
  }
  public static Value EcPubOf(Value secret, Value compressed) {
    BigInteger k = new BigInteger(1, Crypto.unhex(secret)).mod(N);
    if (k.signum() == 0) return new StringValue("");
    return Crypto.hexv(enc(affine(mul(k, G)), ((BoolValue) compressed).val));
  }
  public static Value EcShared(Value secret, Value pub) {
    BigInteger k = new BigInteger(1, Crypto.unhex(secret)).mod(N);
    BigInteger[] q = point(Crypto.unhex(pub));
    if (k.signum() == 0 || q == null) return new StringValue("");
    byte[] e = enc(affine(mul(k, q)), true), r = new byte[32];
    System.arraycopy(e, 1, r, 0, 32);
    return Crypto.hexv(r);
  }
  public static Value EcOrder() { return Crypto.bigv(N); }
}
