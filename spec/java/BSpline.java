import tlc2.value.impl.*;

/** TLC overrides of two inner loops of BSpline.tla (same definitions; MC_Basis checks them against the
 *  basis-function definition, which is not overridden); numbers longer than 320 bits are rounded at 2^-250. */
public class BSpline {
  static RatV[][] rows(Value v) {
    Value[] r = Rat.el(v);
    RatV[][] o = new RatV[r.length][];
    for (int i = 0; i < r.length; i++) {
      Value[] x = Rat.el(r[i]);
      o[i] = new RatV[x.length];
      for (int j = 0; j < x.length; j++) o[i][j] = Rat.of(x[j]);
    }
    return o;
  }
  static RatV[] row(Value v) {
    Value[] x = Rat.el(v);
    RatV[] o = new RatV[x.length];
    for (int j = 0; j < x.length; j++) o[j] = Rat.of(x[j]);
    return o;
  }
  static Value tup(RatV[] r) { Value[] v = new Value[r.length]; System.arraycopy(r, 0, v, 0, r.length); return new TupleValue(v); }
  public static Value CornerCut(Value kl, Value p_, Value u_, Value r_, Value D_) {
    RatV[] k = row(kl);
    int p = ((IntValue) p_).val, r0 = ((IntValue) r_).val;
    RatV u = Rat.of(u_);
    RatV[][] D = rows(D_);
    int m = D[0].length;
    for (int r = r0; r <= p; r++)
      for (int j = 1; j <= p - r + 1; j++) {
        RatV lo = k[r + j - 2], hi = k[p + j - 1];
        RatV t = Rat.apx(u.sub(lo).div(hi.sub(lo)));
        RatV[] n = new RatV[m];
        for (int c = 0; c < m; c++) n[c] = Rat.apx(D[j - 1][c].add(t.mul(D[j][c].sub(D[j - 1][c]))));
        D[j - 1] = n;
      }
    return tup(D[0]);
  }
  public static Value LocalDeriv(Value kl, Value p_, Value D_) {
    RatV[] k = row(kl);
    int p = ((IntValue) p_).val;
    RatV[][] D = rows(D_);
    int m = D[0].length;
    Value[] out = new Value[p];
    for (int j = 1; j <= p; j++) {
      RatV f = new RatV(p).div(k[p + j - 1].sub(k[j - 1]));
      RatV[] n = new RatV[m];
      for (int c = 0; c < m; c++) n[c] = Rat.apx(f.mul(D[j][c].sub(D[j - 1][c])));
      out[j - 1] = tup(n);
    }
    return new TupleValue(out);
  }
}
