// Java module override for spec/Flt.tla: real numbers as double-doubles.
//
// A number is a TLA+ tuple of two 32 bit integers (a double: high and low half of
// its IEEE 754 representation, which is how traces log the implementation's numbers,
// exactly), or of four (a double-double, i.e. an unevaluated sum of two doubles:
// about 31 significant digits), which is what the operators return.
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Flt {
    // --- encoding -----------------------------------------------------------
    private static double dbl(Value a, Value b) {
        long hi = ((IntValue) a).val, lo = ((IntValue) b).val & 0xffffffffL;
        return Double.longBitsToDouble((hi << 32) | lo);
    }

    static double[] dec(Value v) {
        if (v instanceof IntValue) return new double[] {((IntValue) v).val, 0};
        TupleValue t = (TupleValue) v.toTuple();
        Value[] e = t.elems;
        if (e.length == 2) return new double[] {dbl(e[0], e[1]), 0};
        return new double[] {dbl(e[0], e[1]), dbl(e[2], e[3])};
    }

    static Value enc(double[] x) {
        long a = Double.doubleToLongBits(x[0]), b = Double.doubleToLongBits(x[1]);
        return new TupleValue(new Value[] {
            IntValue.gen((int) (a >> 32)), IntValue.gen((int) a),
            IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
    }

    // --- double-double arithmetic ---------------------------------------------
    static double[] norm(double s, double e) {
        double r = s + e;
        if (Double.isNaN(r) || Double.isInfinite(r)) return new double[] {r, 0};
        return new double[] {r, e - (r - s)};
    }

    static double[] add(double[] a, double[] b) {
        double s = a[0] + b[0], v = s - a[0];
        double e = (a[0] - (s - v)) + (b[0] - v);
        double t = a[1] + b[1], w = t - a[1];
        double f = (a[1] - (t - w)) + (b[1] - w);
        double[] r = norm(s, e + t);
        return norm(r[0], r[1] + f);
    }

    static double[] neg(double[] a) {
        return new double[] {-a[0], -a[1]};
    }

    static double[] sub(double[] a, double[] b) {
        return add(a, neg(b));
    }

    static double[] mul(double[] a, double[] b) {
        double p = a[0] * b[0];
        double e = Math.fma(a[0], b[0], -p);
        e += a[0] * b[1] + a[1] * b[0];
        return norm(p, e);
    }

    static double[] div(double[] a, double[] b) {
        double q1 = a[0] / b[0];
        if (Double.isNaN(q1) || Double.isInfinite(q1)) return new double[] {q1, 0};
        double[] r = sub(a, mul(b, new double[] {q1, 0}));
        double q2 = r[0] / b[0];
        r = sub(r, mul(b, new double[] {q2, 0}));
        double q3 = r[0] / b[0];
        return add(norm(q1, q2), new double[] {q3, 0});
    }

    static double[] sqrt(double[] a) {
        if (a[0] <= 0) return new double[] {a[0] == 0 ? 0 : Double.NaN, 0};
        double x = Math.sqrt(a[0]);
        double[] r = div(a, new double[] {x, 0});
        r = add(r, new double[] {x, 0});
        r = new double[] {r[0] / 2, r[1] / 2};
        double[] q = add(div(a, r), r);
        return new double[] {q[0] / 2, q[1] / 2};
    }

    // exp(x) for moderate x: halve 8 times, Taylor series, square 8 times
    static double[] exp(double[] x) {
        double[] r = new double[] {x[0] / 256, x[1] / 256};
        double[] s = new double[] {0, 0}, t = new double[] {1, 0};
        for (int i = 1; i < 26; i++) {
            t = div(mul(t, r), new double[] {i, 0});
            s = add(s, t);
        }
        // (1+s)^2 - 1 = 2 s + s^2
        for (int i = 0; i < 8; i++) s = add(add(s, s), mul(s, s));
        return add(s, new double[] {1, 0});
    }

    static double[] log(double[] x) {
        if (!(x[0] > 0) || Double.isInfinite(x[0])) return new double[] {Math.log(x[0]), 0};
        int k = Math.getExponent(x[0]);
        double f = Math.scalb(1.0, -k);
        double[] m = new double[] {x[0] * f, x[1] * f};
        double y0 = Math.log(m[0]);
        double[] y = new double[] {y0, 0};
        for (int i = 0; i < 2; i++) {
            double[] e = mul(m, exp(neg(y)));
            y = add(y, sub(e, new double[] {1, 0}));
        }
        return add(y, mul(LN2, new double[] {k, 0}));
    }

    static final double[] PI = {3.141592653589793, 1.2246467991473532e-16};
    static final double[] LN2 = {0.6931471805599453, 2.3190468138462996e-17};

    static double[][] sincos(double[] x) {
        double n = Math.rint(x[0] / (Math.PI / 2));
        double[] hp = new double[] {PI[0] / 2, PI[1] / 2};
        double[] r = sub(x, mul(hp, new double[] {n, 0}));
        r = new double[] {r[0] / 16, r[1] / 16};
        double[] s = new double[] {0, 0}, c = new double[] {0, 0}, t = r, r2 = mul(r, r);
        for (int i = 1; i < 24; i += 2) {
            s = add(s, t);
            t = neg(div(mul(t, r2), new double[] {(i + 1) * (i + 2), 0}));
        }
        // v = 1 - cos
        t = div(r2, new double[] {2, 0});
        for (int i = 2; i < 24; i += 2) {
            c = add(c, t);
            t = neg(div(mul(t, r2), new double[] {(i + 1) * (i + 2), 0}));
        }
        double[] one = {1, 0};
        for (int i = 0; i < 4; i++) {
            double[] cc = sub(one, c);
            double[] s2 = mul(s, cc);
            c = mul(s, s);
            c = add(c, c);
            s = add(s2, s2);
        }
        double[] co = sub(one, c);
        int q = (int) (((long) n % 4 + 4) % 4);
        switch (q) {
            case 0: return new double[][] {s, co};
            case 1: return new double[][] {co, neg(s)};
            case 2: return new double[][] {neg(s), neg(co)};
            default: return new double[][] {neg(co), s};
        }
    }

    static double[] atan2(double[] y, double[] x) {
        double a = Math.atan2(y[0], x[0]);
        if (Double.isNaN(a)) return new double[] {a, 0};
        if (y[0] == 0 && x[0] == 0) return new double[] {0, 0};
        double[] r = sqrt(add(mul(x, x), mul(y, y)));
        double[] c = div(x, r), s = div(y, r);
        double[] t = new double[] {a, 0};
        double[][] sc = sincos(t);
        // sin(true - t)
        double[] d = sub(mul(s, sc[1]), mul(c, sc[0]));
        return add(t, d);
    }

    static int cmp(double[] a, double[] b) {
        if (a[0] != b[0]) return a[0] < b[0] ? -1 : 1;
        return Double.compare(a[1] + 0.0, b[1] + 0.0);
    }

    static boolean nan(double[] a) {
        return Double.isNaN(a[0]);
    }

    // --- operators of Flt.tla --------------------------------------------------
    public static Value RAdd(Value a, Value b) { return enc(add(dec(a), dec(b))); }
    public static Value RSub(Value a, Value b) { return enc(sub(dec(a), dec(b))); }
    public static Value RMul(Value a, Value b) { return enc(mul(dec(a), dec(b))); }
    public static Value RDiv(Value a, Value b) { return enc(div(dec(a), dec(b))); }
    public static Value RNeg(Value a) { return enc(neg(dec(a))); }
    public static Value RAbs(Value a) { double[] x = dec(a); return enc(x[0] < 0 || (x[0] == 0 && x[1] < 0) ? neg(x) : x); }
    public static Value RSqrt(Value a) { return enc(sqrt(dec(a))); }
    public static Value RLog(Value a) { return enc(log(dec(a))); }
    public static Value RExp(Value a) { return enc(exp(dec(a))); }
    public static Value RSin(Value a) { return enc(sincos(dec(a))[0]); }
    public static Value RCos(Value a) { return enc(sincos(dec(a))[1]); }
    public static Value RAtan2(Value a, Value b) { return enc(atan2(dec(a), dec(b))); }
    public static Value RFloor(Value a) {
        double[] x = dec(a);
        double f = Math.floor(x[0]);
        if (f == x[0]) return enc(norm(f, Math.floor(x[1])));
        return enc(new double[] {f, 0});
    }
    public static Value RLit(StringValue s) {
        java.math.BigDecimal d = new java.math.BigDecimal(s.val.toString());
        double h = d.doubleValue();
        double l = d.subtract(new java.math.BigDecimal(h)).doubleValue();
        return enc(norm(h, l));
    }
    // the double that a decimal string denotes
    public static Value RDouble(StringValue s) {
        return enc(new double[] {Double.parseDouble(s.val.toString()), 0});
    }
    public static Value RInt(IntValue i) { return enc(new double[] {i.val, 0}); }
    public static Value RLt(Value a, Value b) {
        double[] x = dec(a), y = dec(b);
        return !nan(x) && !nan(y) && cmp(x, y) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value RLe(Value a, Value b) {
        double[] x = dec(a), y = dec(b);
        return !nan(x) && !nan(y) && cmp(x, y) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value REq(Value a, Value b) {
        double[] x = dec(a), y = dec(b);
        return !nan(x) && !nan(y) && cmp(x, y) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value RFinite(Value a) {
        double x = dec(a)[0];
        return !Double.isNaN(x) && !Double.isInfinite(x) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value RPi() { return enc(PI); }
    // for messages only
    public static Value RShow(Value a) {
        double[] x = dec(a);
        return new StringValue(String.format(java.util.Locale.ROOT, "%.6g", x[0] + x[1]));
    }
    // total comparisons, sorting etc. stay in TLA+
}
