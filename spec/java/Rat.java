import tlc2.value.impl.*;
import java.math.*;
import java.util.concurrent.ConcurrentHashMap;

/** TLC overrides of the operators of Rat.tla (found by module name on the class path). */
public class Rat {
  static final BigInteger ONE = BigInteger.ONE;
  static RatV of(Value v) {
    if (v instanceof RatV) return (RatV) v;
    if (v instanceof IntValue) return new RatV(((IntValue) v).val);
    if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
    Value t = v.toTuple();
    if (t != null && ((TupleValue) t).elems.length == 2) return of(((TupleValue) t).elems[0]).div(of(((TupleValue) t).elems[1]));
    throw new RuntimeException("not a rational: " + v);
  }
  static RatV parse(String s) {
    int i = s.indexOf('/');
    if (i >= 0) return new RatV(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
    double x = Double.parseDouble(s);
    if (Double.isNaN(x) || Double.isInfinite(x)) throw new RuntimeException("not finite: " + s);
    if (x == 0) return new RatV(0);
    long bits = Double.doubleToLongBits(x);
    long man = bits & ((1L << 52) - 1); int ex = (int) ((bits >> 52) & 0x7ff);
    if (ex == 0) ex++; else man |= 1L << 52;
    if (bits < 0) man = -man;
    int sh = ex - 1075;
    BigInteger m = BigInteger.valueOf(man);
    if (sh >= 0) return new RatV(m.shiftLeft(sh), ONE);
    return new RatV(m, ONE.shiftLeft(-sh));
  }
  static boolean fin(Value v) {
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      if (s.indexOf('/') >= 0) return true;
      try { double x = Double.parseDouble(s); return !(Double.isNaN(x) || Double.isInfinite(x)); }
      catch (NumberFormatException e) { return false; }
    }
    return true;
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] el(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  public static Value R(Value a) { return of(a); }
  public static Value RCanon(Value a) { return of(a); }
  public static Value RFin(Value a) { return b(fin(a)); }
  public static Value RAdd(Value a, Value c) { return of(a).add(of(c)); }
  public static Value RSub(Value a, Value c) { return of(a).sub(of(c)); }
  public static Value RMul(Value a, Value c) { return of(a).mul(of(c)); }
  public static Value RDiv(Value a, Value c) { return of(a).div(of(c)); }
  public static Value RLe(Value a, Value c) { return b(of(a).cmp(of(c)) <= 0); }
  public static Value RLt(Value a, Value c) { return b(of(a).cmp(of(c)) < 0); }
  public static Value REq(Value a, Value c) { return b(of(a).cmp(of(c)) == 0); }
  public static Value RNeg(Value a) { return of(a).neg(); }
  public static Value RAbs(Value a) { return of(a).abs(); }
  public static Value RMin(Value a, Value c) { RatV x = of(a), y = of(c); return x.cmp(y) <= 0 ? x : y; }
  public static Value RMax(Value a, Value c) { RatV x = of(a), y = of(c); return x.cmp(y) <= 0 ? y : x; }
  public static Value RSign(Value a) { return IntValue.gen(of(a).n.signum()); }
  static final BigInteger S30 = BigInteger.TEN.pow(40);
  static RatV sqrt(RatV x) {
    if (x.n.signum() < 0) throw new RuntimeException("sqrt of a negative number");
    if (x.n.signum() == 0) return x;
    // scale so that the integer root has at least 40 digits
    int sh = Math.max(0, 280 - (x.n.bitLength() - x.d.bitLength()));
    if ((sh & 1) == 1) sh++;
    BigInteger q = x.n.shiftLeft(sh).divide(x.d);
    return new RatV(q.sqrt(), ONE.shiftLeft(sh / 2));
  }
  public static Value RSqrt(Value a) { return sqrt(of(a)); }
  static final RatV EPS = new RatV(ONE, BigInteger.TEN.pow(45));
  /* rounds to a multiple of 10^-50: keeps intermediate sizes small */
  static RatV rnd(RatV x) {
    BigInteger s = BigInteger.TEN.pow(50);
    return new RatV(x.n.multiply(s).divide(x.d), s);
  }
  static RatV pi() { // Machin
    RatV a = atanInv(5), c = atanInv(239);
    return rnd(new RatV(16).mul(a).sub(new RatV(4).mul(c)));
  }
  static RatV atanInv(int k) {
    RatV s = new RatV(0), t = new RatV(ONE, BigInteger.valueOf(k)), k2 = new RatV((long) k * k);
    for (int i = 0; i < 80; i++) {
      RatV term = t.div(new RatV(2 * i + 1));
      s = (i % 2 == 0) ? s.add(term) : s.sub(term);
      t = t.div(k2);
    }
    return s;
  }
  static final RatV PI = pi();
  public static Value RPi() { return PI; }
  static RatV[] sc(RatV x) {
    // reduce to [-pi, pi], then halve 4 times, Taylor, double back
    RatV twopi = PI.mul(new RatV(2));
    RatV q = x.div(twopi);
    BigInteger k = q.n.add(q.d.shiftRight(1)).divide(q.d); // rounding is irrelevant, only the size matters
    x = rnd(x.sub(twopi.mul(new RatV(k, ONE))));
    x = x.div(new RatV(16));
    RatV s = new RatV(0), c = new RatV(0), t = new RatV(1);
    for (int i = 0; i < 40; i++) {
      if (i % 2 == 0) c = (i % 4 == 0) ? c.add(t) : c.sub(t);
      else s = (i % 4 == 1) ? s.add(t) : s.sub(t);
      t = rnd(t.mul(x).div(new RatV(i + 1)));
    }
    for (int i = 0; i < 4; i++) {
      RatV s2 = rnd(new RatV(2).mul(s).mul(c)), c2 = rnd(c.mul(c).sub(s.mul(s)));
      s = s2; c = c2;
    }
    return new RatV[] { s, c };
  }
  public static Value RSin(Value a) { return sc(of(a))[0]; }
  public static Value RCos(Value a) { return sc(of(a))[1]; }
  public static Value RSum(Value a) { RatV r = new RatV(0); for (Value v : el(a)) r = r.add(of(v)); return r; }
  public static Value RMaxAbs(Value a) { RatV r = new RatV(0); for (Value v : el(a)) { RatV x = of(v).abs(); if (r.cmp(x) < 0) r = x; } return r; }
  public static Value RDot(Value a, Value c) {
    Value[] x = el(a), y = el(c); RatV r = new RatV(0);
    for (int i = 0; i < x.length; i++) r = r.add(of(x[i]).mul(of(y[i])));
    return r;
  }
  static Value tup(Value[] v) { return new TupleValue(v); }
  public static Value VAdd(Value a, Value c) { Value[] x = el(a), y = el(c), r = new Value[x.length]; for (int i = 0; i < x.length; i++) r[i] = of(x[i]).add(of(y[i])); return tup(r); }
  public static Value VSub(Value a, Value c) { Value[] x = el(a), y = el(c), r = new Value[x.length]; for (int i = 0; i < x.length; i++) r[i] = of(x[i]).sub(of(y[i])); return tup(r); }
  public static Value VScale(Value s, Value a) { RatV t = of(s); Value[] x = el(a), r = new Value[x.length]; for (int i = 0; i < x.length; i++) r[i] = t.mul(of(x[i])); return tup(r); }
  public static Value VLerp(Value s, Value a, Value c) {
    RatV t = of(s); Value[] x = el(a), y = el(c), r = new Value[x.length];
    for (int i = 0; i < x.length; i++) { RatV p = of(x[i]); r[i] = p.add(t.mul(of(y[i]).sub(p))); }
    return tup(r);
  }
  public static Value VZero(Value n) { int k = ((IntValue) n).val; Value[] r = new Value[k]; for (int i = 0; i < k; i++) r[i] = new RatV(0); return tup(r); }
  public static Value VOf(Value a) { Value[] x = el(a), r = new Value[x.length]; for (int i = 0; i < x.length; i++) r[i] = of(x[i]); return tup(r); }
  public static Value MOf(Value a) { Value[] x = el(a), r = new Value[x.length]; for (int i = 0; i < x.length; i++) r[i] = VOf(x[i]); return tup(r); }
  static RatV apx(RatV x) {
    if (x.n.bitLength() < 320 && x.d.bitLength() < 320) return x;
    int sh = 260 - (x.n.bitLength() - x.d.bitLength());
    if (sh <= 0) return new RatV(x.n.divide(x.d), ONE);
    return new RatV(x.n.shiftLeft(sh).divide(x.d), ONE.shiftLeft(sh));
  }
  public static Value RApx(Value a) { return apx(of(a)); }
  public static Value VApx(Value a) { Value[] x = el(a), r = new Value[x.length]; for (int i = 0; i < x.length; i++) r[i] = apx(of(x[i])); return tup(r); }
  static boolean near(Value x, Value y, RatV t) { return fin(x) && of(x).sub(of(y)).abs().cmp(t) <= 0; }
  public static Value RNear(Value x, Value y, Value tol) { return b(near(x, y, of(tol))); }
  public static Value VNear(Value a, Value c, Value tol) {
    Value[] x = el(a), y = el(c); RatV t = of(tol);
    if (x.length != y.length) return b(false);
    for (int i = 0; i < x.length; i++) if (!near(x[i], y[i], t)) return b(false);
    return b(true);
  }
  public static Value VFin(Value a) { for (Value v : el(a)) if (!fin(v)) return b(false); return b(true); }
  public static Value VEq(Value a, Value c) {
    Value[] x = el(a), y = el(c);
    if (x.length != y.length) return b(false);
    for (int i = 0; i < x.length; i++) if (!fin(x[i]) || !fin(y[i]) || of(x[i]).cmp(of(y[i])) != 0) return b(false);
    return b(true);
  }
}
