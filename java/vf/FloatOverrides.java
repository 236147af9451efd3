package vf;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** IEEE-754 binary64 primitives for the TLA+ module Float.
 *  A float is the pair <<hi,lo>> of the two signed 32-bit halves of its bit pattern. */
public class FloatOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override public Class[] get() { return new Class[] { FloatOverrides.class }; }

    static double d(Value v) {
        Value[] e = (v instanceof TupleValue) ? ((TupleValue) v).elems : ((TupleValue) v.toTuple()).elems;
        long hi = ((IntValue) e[0]).val, lo = ((IntValue) e[1]).val;
        return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
    }
    static Value f(double x) {
        long b = Double.doubleToRawLongBits(x);
        return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
    }
    static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }

    @TLAPlusOperator(identifier = "FAdd", module = "Float", warn = false)
    public static Value FAdd(Value x, Value y) { return f(d(x) + d(y)); }
    @TLAPlusOperator(identifier = "FSub", module = "Float", warn = false)
    public static Value FSub(Value x, Value y) { return f(d(x) - d(y)); }
    @TLAPlusOperator(identifier = "FMul", module = "Float", warn = false)
    public static Value FMul(Value x, Value y) { return f(d(x) * d(y)); }
    @TLAPlusOperator(identifier = "FDiv", module = "Float", warn = false)
    public static Value FDiv(Value x, Value y) { return f(d(x) / d(y)); }
    @TLAPlusOperator(identifier = "FNeg", module = "Float", warn = false)
    public static Value FNeg(Value x) { return f(-d(x)); }
    @TLAPlusOperator(identifier = "FAbs", module = "Float", warn = false)
    public static Value FAbs(Value x) { return f(Math.abs(d(x))); }
    @TLAPlusOperator(identifier = "FMax", module = "Float", warn = false)
    public static Value FMax(Value x, Value y) { return f(Math.max(d(x), d(y))); }
    @TLAPlusOperator(identifier = "FMin", module = "Float", warn = false)
    public static Value FMin(Value x, Value y) { return f(Math.min(d(x), d(y))); }
    @TLAPlusOperator(identifier = "FSqrt", module = "Float", warn = false)
    public static Value FSqrt(Value x) { return f(Math.sqrt(d(x))); }
    @TLAPlusOperator(identifier = "FExp", module = "Float", warn = false)
    public static Value FExp(Value x) { return f(Math.exp(d(x))); }
    @TLAPlusOperator(identifier = "FLog", module = "Float", warn = false)
    public static Value FLog(Value x) { return f(Math.log(d(x))); }
    @TLAPlusOperator(identifier = "FLog1p", module = "Float", warn = false)
    public static Value FLog1p(Value x) { return f(Math.log1p(d(x))); }
    @TLAPlusOperator(identifier = "FExpm1", module = "Float", warn = false)
    public static Value FExpm1(Value x) { return f(Math.expm1(d(x))); }
    @TLAPlusOperator(identifier = "FCos", module = "Float", warn = false)
    public static Value FCos(Value x) { return f(Math.cos(d(x))); }
    @TLAPlusOperator(identifier = "FPow", module = "Float", warn = false)
    public static Value FPow(Value x, Value y) { return f(Math.pow(d(x), d(y))); }
    @TLAPlusOperator(identifier = "FLt", module = "Float", warn = false)
    public static Value FLt(Value x, Value y) { return b(d(x) < d(y)); }
    @TLAPlusOperator(identifier = "FLe", module = "Float", warn = false)
    public static Value FLe(Value x, Value y) { return b(d(x) <= d(y)); }
    @TLAPlusOperator(identifier = "FEq", module = "Float", warn = false)
    public static Value FEq(Value x, Value y) { return b(d(x) == d(y)); }
    @TLAPlusOperator(identifier = "FIsNaN", module = "Float", warn = false)
    public static Value FIsNaN(Value x) { return b(Double.isNaN(d(x))); }
    @TLAPlusOperator(identifier = "FIsInf", module = "Float", warn = false)
    public static Value FIsInf(Value x) { return b(Double.isInfinite(d(x))); }
    @TLAPlusOperator(identifier = "FIsFinite", module = "Float", warn = false)
    public static Value FIsFinite(Value x) { double v = d(x); return b(!Double.isNaN(v) && !Double.isInfinite(v)); }
    @TLAPlusOperator(identifier = "FI", module = "Float", warn = false)
    public static Value FI(Value x) { return f((double) ((IntValue) x).val); }
    @TLAPlusOperator(identifier = "FFloor", module = "Float", warn = false)
    public static Value FFloor(Value x) { return IntValue.gen((int) Math.floor(d(x))); }
    @TLAPlusOperator(identifier = "FDec", module = "Float", warn = false)
    public static Value FDec(Value s) { return f(Double.parseDouble(((StringValue) s).val.toString())); }
    @TLAPlusOperator(identifier = "FStr", module = "Float", warn = false)
    public static Value FStr(Value x) { return new StringValue(Double.toString(d(x))); }
    /** |x-y| <= atol + rtol*max(|x|,|y|); equal infinities are close, NaN is close to nothing. */
    @TLAPlusOperator(identifier = "FClose", module = "Float", warn = false)
    public static Value FClose(Value x, Value y, Value rtol, Value atol) {
        double p = d(x), q = d(y);
        if (Double.isNaN(p) || Double.isNaN(q)) return b(false);
        if (Double.isInfinite(p) || Double.isInfinite(q)) return b(p == q);
        return b(Math.abs(p - q) <= d(atol) + d(rtol) * Math.max(Math.abs(p), Math.abs(q)));
    }
    @TLAPlusOperator(identifier = "FSum", module = "Float", warn = false)
    public static Value FSum(Value s) { double r = 0; for (Value v : seq(s)) r += d(v); return f(r); }
    @TLAPlusOperator(identifier = "FProd", module = "Float", warn = false)
    public static Value FProd(Value s) { double r = 1; for (Value v : seq(s)) r *= d(v); return f(r); }
    @TLAPlusOperator(identifier = "FDot", module = "Float", warn = false)
    public static Value FDot(Value s, Value t) {
        Value[] p = seq(s), q = seq(t);
        if (p.length != q.length) throw new RuntimeException("FDot: lengths " + p.length + " and " + q.length);
        double r = 0; for (int i = 0; i < p.length; ++i) r += d(p[i]) * d(q[i]); return f(r);
    }

    static Value force(Value v) {
        if (v instanceof TupleValue) {
            Value[] e = ((TupleValue) v).elems, r = new Value[e.length];
            for (int i = 0; i < e.length; ++i) r[i] = force(e[i]);
            return new TupleValue(r);
        }
        if (v instanceof FcnLambdaValue || v instanceof FcnRcdValue) {
            Value t = (Value) v.toTuple();
            return t == null ? v : force(t);
        }
        return v;
    }
    /** The same sequence, every element evaluated now. */
    @TLAPlusOperator(identifier = "Vec", module = "Float", warn = false)
    public static Value Vec(Value s) { return force(s); }
    @TLAPlusOperator(identifier = "FSin", module = "Float", warn = false)
    public static Value FSin(Value x) { return f(Math.sin(d(x))); }
    @TLAPlusOperator(identifier = "FErf", module = "Float", warn = false)
    public static Value FErf(Value v) {           // series / continued fraction, ~1e-15
        double x = d(v), a = Math.abs(x), r;
        if (Double.isNaN(x)) return f(x);
        if (a < 3) {
            double t = a, s = a;
            for (int n = 1; n < 200 && Math.abs(t) > 1e-18 * Math.abs(s); ++n) { t *= 2 * a * a / (2 * n + 1); s += t; }
            r = 2 / Math.sqrt(Math.PI) * Math.exp(-a * a) * s;
        } else {
            double c = 0;
            for (int n = 80; n >= 1; --n) c = (n / 2.0) / (a + c);
            r = 1 - Math.exp(-a * a) / Math.sqrt(Math.PI) / (a + c);
        }
        return f(x < 0 ? -r : r);
    }
    /** max |s[i]|, 0 for the empty sequence. */
    @TLAPlusOperator(identifier = "FMaxAbs", module = "Float", warn = false)
    public static Value FMaxAbs(Value s) { double r = 0; for (Value v : seq(s)) { double a = Math.abs(d(v)); if (a > r || a != a) r = a; } return f(r); }
}
