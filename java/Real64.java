// Java evaluation of the operators declared in spec/Real64.tla.
import tlc2.value.impl.*;
import util.UniqueString;

public class Real64
{
  private static double d(final Value v)
  {
    if (v instanceof StringValue)
      {
        final String s = ((StringValue) v).val.toString();
        return parse(s);
      }
    if (v instanceof IntValue)
      return ((IntValue) v).val;
    throw new RuntimeException("Real64: not a real: " + v);
  }

  private static double parse(final String s)
  {
    switch (s)
      {
        case "nan": case "-nan": case "NaN": return Double.NaN;
        case "inf": case "Infinity": case "+inf": return Double.POSITIVE_INFINITY;
        case "-inf": case "-Infinity": return Double.NEGATIVE_INFINITY;
      }
    return Double.parseDouble(s);
  }

  private static Value r(final double x)
  {
    return new StringValue(UniqueString.uniqueStringOf(Double.toString(x)));
  }

  private static Value b(final boolean x)
  {
    return x ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  private static Value[] seq(final Value v)
  {
    final TupleValue t = (TupleValue) v.toTuple();
    if (t == null)
      throw new RuntimeException("Real64: not a sequence: " + v);
    return t.elems;
  }

  private static boolean close(final double x, final double y,
                               final double rtol, final double atol)
  {
    if (Double.isNaN(x) || Double.isNaN(y))
      return Double.isNaN(x) && Double.isNaN(y);
    if (x == y)
      return true;
    if (Double.isInfinite(x) || Double.isInfinite(y))
      return false;
    return Math.abs(x - y) <= atol + rtol * Math.max(Math.abs(x), Math.abs(y));
  }

  public static Value RAdd(Value a, Value c) { return r(d(a) + d(c)); }
  public static Value RSub(Value a, Value c) { return r(d(a) - d(c)); }
  public static Value RMul(Value a, Value c) { return r(d(a) * d(c)); }
  public static Value RDiv(Value a, Value c) { return r(d(a) / d(c)); }
  public static Value RPow(Value a, Value c) { return r(Math.pow(d(a), d(c))); }
  public static Value RMax(Value a, Value c) { return r(Math.max(d(a), d(c))); }
  public static Value RMin(Value a, Value c) { return r(Math.min(d(a), d(c))); }
  public static Value RNeg(Value a) { return r(-d(a)); }
  public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
  public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
  public static Value RExp(Value a) { return r(Math.exp(d(a))); }
  public static Value RLog(Value a) { return r(Math.log(d(a))); }
  public static Value RSin(Value a) { return r(Math.sin(d(a))); }
  public static Value RCos(Value a) { return r(Math.cos(d(a))); }
  public static Value RTan(Value a) { return r(Math.tan(d(a))); }
  public static Value RAtan(Value a) { return r(Math.atan(d(a))); }
  public static Value RTanh(Value a) { return r(Math.tanh(d(a))); }
  public static Value RCosh(Value a) { return r(Math.cosh(d(a))); }
  public static Value RSgn(Value a) { final double x = d(a); return r(x > 0 ? 1. : x < 0 ? -1. : 0.); }
  public static Value RIsNumber(Value a)
  {
    return b(((StringValue) a).val.toString().matches("[-+]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][-+]?[0-9]+)?"));
  }
  public static Value RIsInteger(Value a)
  {
    return b(((StringValue) a).val.toString().matches("[-+]?[0-9]+"));
  }
  // does the string a end with the string c
  public static Value REndsWith(Value a, Value c)
  {
    return b(((StringValue) a).val.toString().endsWith(((StringValue) c).val.toString()));
  }
  public static Value ROfInt(Value a) { return r(d(a)); }
  public static Value RRound(Value a) { return IntValue.gen((int) Math.rint(d(a))); }

  // erf by its Maclaurin series (|x| < 3) and the continued fraction of erfc
  public static Value RErf(Value a)
  {
    final double x = d(a), z = Math.abs(x);
    double e;
    if (z < 3.)
      {
        double term = z, sum = z;
        for (int n = 1; n < 200; ++n)
          {
            term *= -z * z / n;
            final double t = term / (2 * n + 1);
            sum += t;
            if (Math.abs(t) < 1e-18 * Math.abs(sum))
              break;
          }
        e = 2. / Math.sqrt(Math.PI) * sum;
      }
    else
      {
        double f = 0.;
        for (int k = 60; k >= 1; --k)
          f = k / 2. / (z + f);
        e = 1. - Math.exp(-z * z) / Math.sqrt(Math.PI) / (z + f);
      }
    return r(x < 0 ? -e : e);
  }

  public static Value RSum(Value s)
  {
    double x = 0.;
    for (final Value v : seq(s))
      x += d(v);
    return r(x);
  }

  public static Value RDot(Value s, Value t)
  {
    final Value[] p = seq(s), q = seq(t);
    if (p.length != q.length)
      throw new RuntimeException("RDot: lengths differ: " + p.length + ", " + q.length);
    double x = 0.;
    for (int i = 0; i < p.length; ++i)
      x += d(p[i]) * d(q[i]);
    return r(x);
  }

  public static Value RAxpy(Value s, Value a, Value t)
  {
    final Value[] p = seq(s), q = seq(t);
    if (p.length != q.length)
      throw new RuntimeException("RAxpy: lengths differ: " + p.length + ", " + q.length);
    final double  x = d(a);
    final Value[] z = new Value[p.length];
    for (int i = 0; i < p.length; ++i)
      z[i] = r(d(p[i]) + x * d(q[i]));
    return new TupleValue(z);
  }

  public static Value RMaxAbs(Value s)
  {
    double x = 0.;
    for (final Value v : seq(s))
      {
        final double y = Math.abs(d(v));
        x = Double.isNaN(y) ? y : Math.max(x, y);
      }
    return r(x);
  }

  public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value REq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value RIsFinite(Value a) { final double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }

  public static Value RClose(Value a, Value c, Value rt, Value at)
  {
    return b(close(d(a), d(c), d(rt), d(at)));
  }

  public static Value RCloseSeq(Value s, Value t, Value rt, Value at)
  {
    final Value[] p = seq(s), q = seq(t);
    if (p.length != q.length)
      return b(false);
    final double rr = d(rt), aa = d(at);
    for (int i = 0; i < p.length; ++i)
      if (!close(d(p[i]), d(q[i]), rr, aa))
        return b(false);
    return b(true);
  }

  // evaluates a (nested) function over 1..n once and for all
  public static Value RForce(final Value v)
  {
    if (v instanceof StringValue || v instanceof IntValue || v instanceof BoolValue)
      return v;
    final Value t = v.toTuple();
    if (t == null)
      {
        final Value f = v.toFcnRcd();        // a function that is no sequence
        if (f != null)
          {
            f.deepNormalize();
            return f;
          }
        return v;
      }
    final Value[] e = ((TupleValue) t).elems;
    final Value[] f = new Value[e.length];
    for (int i = 0; i < e.length; ++i)
      f[i] = RForce(e[i]);
    return new TupleValue(f);
  }

  // least index of a record of the sequence with the given value of a field
  public static Value RFind(final Value records, final Value field, final Value value)
  {
    final Value[] e = seq(records);
    final UniqueString f = ((StringValue) field).val;
    for (int i = 0; i < e.length; ++i)
      {
        final Value v = ((RecordValue) e[i].toRcd()).select(new StringValue(f));
        if (v.equals(value))
          return IntValue.gen(i + 1);
      }
    return IntValue.gen(0);
  }
}
