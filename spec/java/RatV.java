import tlc2.value.impl.*;
import tlc2.value.*;
import tlc2.util.FP64;
import java.math.BigInteger;

/** A TLC value holding an arbitrary-precision rational in lowest terms. */
public final class RatV extends Value {
  final BigInteger n, d;
  static final BigInteger ONE = BigInteger.ONE;
  RatV(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new RuntimeException("division by zero in exact rational arithmetic");
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (!d.equals(ONE)) {
      // cheap common powers of two first (most trace numbers are dyadic)
      int z = d.getLowestSetBit();
      if (z > 0) {
        int y = n.signum() == 0 ? z : Math.min(z, n.getLowestSetBit());
        if (y > 0) { n = n.shiftRight(y); d = d.shiftRight(y); }
      }
      if (!d.equals(ONE) && d.bitLength() - 1 != d.getLowestSetBit()) {
        BigInteger g = n.gcd(d);
        if (!g.equals(ONE) && g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
      }
    }
    this.n = n; this.d = d;
  }
  RatV(long v) { n = BigInteger.valueOf(v); d = ONE; }
  RatV add(RatV y) { return d.equals(y.d) ? new RatV(n.add(y.n), d) : new RatV(n.multiply(y.d).add(y.n.multiply(d)), d.multiply(y.d)); }
  RatV sub(RatV y) { return d.equals(y.d) ? new RatV(n.subtract(y.n), d) : new RatV(n.multiply(y.d).subtract(y.n.multiply(d)), d.multiply(y.d)); }
  RatV mul(RatV y) { return new RatV(n.multiply(y.n), d.multiply(y.d)); }
  RatV div(RatV y) { return new RatV(n.multiply(y.d), d.multiply(y.n)); }
  RatV neg() { return new RatV(n.negate(), d); }
  RatV abs() { return n.signum() < 0 ? neg() : this; }
  int cmp(RatV b) { return n.multiply(b.d).compareTo(b.n.multiply(d)); }
  public byte getKind() { return USERVALUE; }
  public int compareTo(Object o) { return cmp(Rat.of((Value) o)); }
  public boolean equals(Object o) {
    if (!(o instanceof Value)) return false;
    RatV b = Rat.of((Value) o);
    return n.equals(b.n) && d.equals(b.d);
  }
  public boolean member(Value v) { throw new RuntimeException("member of rational"); }
  public boolean isFinite() { throw new RuntimeException("isFinite of rational"); }
  public Value takeExcept(ValueExcept e) {
    if (e.idx < e.path.length) throw new RuntimeException("EXCEPT of rational");
    return e.value;
  }
  public Value takeExcept(ValueExcept[] e) {
    return e.length == 0 ? this : takeExcept(e[e.length - 1]);
  }
  public int size() { throw new RuntimeException("size of rational"); }
  public boolean isNormalized() { return true; }
  public Value normalize() { return this; }
  public boolean isDefined() { return true; }
  public IValue deepCopy() { return this; }
  public boolean assignable(Value v) { return false; }
  public long fingerPrint(long fp) { return FP64.Extend(FP64.Extend(fp, new String(n.toByteArray(), java.nio.charset.StandardCharsets.ISO_8859_1)), new String(d.toByteArray(), java.nio.charset.StandardCharsets.ISO_8859_1)); }
  public IValue permute(IMVPerm p) { return this; }
  public StringBuffer toString(StringBuffer sb, int off, boolean sw) { return sb.append('"').append(str()).append('"'); }
  String str() { return d.equals(ONE) ? n.toString() : n + "/" + d; }
}
