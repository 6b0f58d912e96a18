import tlc2.value.impl.*;
import tlc2.value.impl.Value;

/**
 * TLC's evaluation of the operators of RealMath.tla: IEEE-754 doubles, held in
 * TLA+ values as their decimal strings (TLC's own numbers are 32-bit integers).
 */
public class RealMath {
  private static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      switch (s) {
        case "inf": case "Infinity": return Double.POSITIVE_INFINITY;
        case "-inf": case "-Infinity": return Double.NEGATIVE_INFINITY;
        case "NaN": return Double.NaN;
        default: return Double.parseDouble(s);
      }
    }
    throw new RuntimeException("RealMath: not a number: " + v);
  }
  private static Value s(double x) { return new StringValue(Double.toString(x)); }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static Value[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("RealMath: not a sequence: " + v);
    return t.elems;
  }

  public static Value RAdd(Value a, Value c) { return s(d(a) + d(c)); }
  public static Value RSub(Value a, Value c) { return s(d(a) - d(c)); }
  public static Value RMul(Value a, Value c) { return s(d(a) * d(c)); }
  public static Value RDiv(Value a, Value c) { return s(d(a) / d(c)); }
  public static Value RNeg(Value a) { return s(-d(a)); }
  public static Value RAbs(Value a) { return s(Math.abs(d(a))); }
  public static Value RExp(Value a) { return s(Math.exp(d(a))); }
  public static Value RLn1p(Value a) { return s(Math.log1p(d(a))); }
  public static Value RExpm1(Value a) { return s(Math.expm1(d(a))); }
  public static Value RLn(Value a) { return s(Math.log(d(a))); }
  public static Value RSqrt(Value a) { return s(Math.sqrt(d(a))); }
  public static Value RPow(Value a, Value c) { return s(Math.pow(d(a), d(c))); }
  public static Value RMin(Value a, Value c) { return s(Math.min(d(a), d(c))); }
  public static Value RMax(Value a, Value c) { return s(Math.max(d(a), d(c))); }
  public static Value RFloor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
  public static Value RSum(Value q) {
    double t = 0, comp = 0;
    for (Value v : seq(q)) { double y = d(v) - comp, z = t + y; comp = (z - t) - y; t = z; }
    return s(t);
  }
  public static Value RDot(Value p, Value q) {
    Value[] a = seq(p), c = seq(q);
    if (a.length != c.length) throw new RuntimeException("RealMath: RDot of unequal lengths");
    double t = 0;
    for (int i = 0; i < a.length; i++) t += d(a[i]) * d(c[i]);
    return s(t);
  }
  public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value REq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value RFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value RClose(Value a, Value c, Value rel, Value abs) {
    double x = d(a), y = d(c);
    if (x == y) return BoolValue.ValTrue;
    if (Double.isNaN(x) && Double.isNaN(y)) return BoolValue.ValTrue;
    return b(Math.abs(x - y) <= d(abs) + d(rel) * Math.max(Math.abs(x), Math.abs(y)));
  }
  public static Value RNormPdf(Value a) {
    double x = d(a);
    return s(Math.exp(-0.5 * x * x) / Math.sqrt(2 * Math.PI));
  }
  public static Value RNormCdf(Value a) { return s(ncdf(d(a))); }
  public static Value RNormInv(Value p) { return s(ninv(d(p))); }

  public static Value RLnGamma(Value a) { return s(lnGamma(d(a))); }
  public static Value RCos(Value a) { return s(Math.cos(d(a))); }
  public static Value RSin(Value a) { return s(Math.sin(d(a))); }
  public static Value RTanh(Value a) { return s(Math.tanh(d(a))); }
  public static Value RAtan2(Value a, Value c) { return s(Math.atan2(d(a), d(c))); }

  // Complex numbers: pairs <<re, im>>; a real may be given for one
  private static double[] z(Value v) {
    if (v instanceof TupleValue || v instanceof FcnRcdValue) {
      Value[] e = seq(v);
      if (e.length != 2) throw new RuntimeException("RealMath: not a complex number: " + v);
      return new double[] {d(e[0]), d(e[1])};
    }
    return new double[] {d(v), 0};
  }
  private static Value zs(double re, double im) { return new TupleValue(new Value[] {s(re), s(im)}); }
  public static Value CAdd(Value a, Value c) { double[] x = z(a), y = z(c); return zs(x[0] + y[0], x[1] + y[1]); }
  public static Value CSub(Value a, Value c) { double[] x = z(a), y = z(c); return zs(x[0] - y[0], x[1] - y[1]); }
  public static Value CMul(Value a, Value c) {
    double[] x = z(a), y = z(c);
    return zs(x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0]);
  }
  public static Value CDiv(Value a, Value c) {
    double[] x = z(a), y = z(c);
    double m = Math.max(Math.abs(y[0]), Math.abs(y[1]));
    if (m == 0) return zs(x[0] / 0.0, x[1] / 0.0);
    double p = y[0] / m, q = y[1] / m, n = m * (p * p + q * q);
    return zs((x[0] * p + x[1] * q) / n, (x[1] * p - x[0] * q) / n);
  }
  public static Value CExp(Value a) {
    double[] x = z(a);
    double r = Math.exp(x[0]);
    return zs(r * Math.cos(x[1]), r * Math.sin(x[1]));
  }
  public static Value CLn(Value a) {
    double[] x = z(a);
    return zs(Math.log(Math.hypot(x[0], x[1])), Math.atan2(x[1], x[0]));
  }
  public static Value CSqrt(Value a) {     // the principal root
    double[] x = z(a);
    double r = Math.hypot(x[0], x[1]);
    if (r == 0) return zs(0, 0);
    double u = Math.sqrt((r + Math.abs(x[0])) / 2), w = Math.abs(x[1]) / (2 * u);
    return x[0] >= 0 ? zs(u, x[1] < 0 ? -w : w) : zs(w, x[1] < 0 ? -u : u);
  }
  public static Value CRe(Value a) { return s(z(a)[0]); }
  public static Value CIm(Value a) { return s(z(a)[1]); }
  public static Value CAbs(Value a) { double[] x = z(a); return s(Math.hypot(x[0], x[1])); }
  // |a - b| <= abs + rel * max(|a|, |b|)
  public static Value CClose(Value a, Value c, Value rel, Value abs) {
    double[] x = z(a), y = z(c);
    return b(Math.hypot(x[0] - y[0], x[1] - y[1])
        <= d(abs) + d(rel) * Math.max(Math.hypot(x[0], x[1]), Math.hypot(y[0], y[1])));
  }

  private static double lnGamma(double x) {
    double shift = 0;
    while (x < 20) { shift += Math.log(x); x += 1; }
    double i = 1 / x, i2 = i * i;
    double t = i * (1 / 12.0 - i2 * (1 / 360.0 - i2 * (1 / 1260.0 - i2 * (1 / 1680.0 - i2 / 1188.0))));
    return (x - 0.5) * Math.log(x) - x + 0.5 * Math.log(2 * Math.PI) + t - shift;
  }

  /** Hart's algorithm as given by G. West: close to double precision. */
  private static double ncdf(double x) {
    double xa = Math.abs(x), c;
    if (xa > 37) c = 0;
    else {
      double e = Math.exp(-xa * xa / 2), b;
      if (xa < 7.07106781186547) {
        b = 3.52624965998911E-02 * xa + 0.700383064443688;
        b = b * xa + 6.37396220353165;
        b = b * xa + 33.912866078383;
        b = b * xa + 112.079291497871;
        b = b * xa + 221.213596169931;
        b = b * xa + 220.206867912376;
        c = e * b;
        b = 8.83883476483184E-02 * xa + 1.75566716318264;
        b = b * xa + 16.064177579207;
        b = b * xa + 86.7807322029461;
        b = b * xa + 296.564248779674;
        b = b * xa + 637.333633378831;
        b = b * xa + 793.826512519948;
        b = b * xa + 440.413735824752;
        c = c / b;
      } else {
        b = xa + 0.65;
        b = xa + 4 / b;
        b = xa + 3 / b;
        b = xa + 2 / b;
        b = xa + 1 / b;
        c = e / b / 2.506628274631;
      }
    }
    return x > 0 ? 1 - c : c;
  }
  private static double ninv(double p) {
    double lo = -40, hi = 40;
    for (int i = 0; i < 200; i++) {
      double m = 0.5 * (lo + hi);
      if (ncdf(m) < p) lo = m; else hi = m;
    }
    return 0.5 * (lo + hi);
  }
}
