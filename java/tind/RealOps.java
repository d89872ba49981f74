package tind;

import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.atomic.LongAdder;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Java evaluation of the operators declared in spec/Real.tla. */
public final class RealOps {
    static final double NOISE = 0x1p-50;   // relative perturbation of one rounded operation
    static final double SAFETY = 64;       // spread -> tolerance
    static final double RTOL = 1e-9, ATOL = 1e-11;

    public static final LongAdder judged = new LongAdder(), open = new LongAdder();

    static RealValue r(Value v) {
        if (v instanceof RealValue) { return (RealValue) v; }
        if (v instanceof IntValue) { return new RealValue(((IntValue) v).val); }
        throw new RuntimeException("a real was expected, not " + v);
    }

    static double pert(double x, double y, int k) {
        long h = Double.doubleToRawLongBits(x) * 0x9E3779B97F4A7C15L + Double.doubleToRawLongBits(y) * 0xC2B2AE3D27D4EB4FL + k * 0x165667B19E3779F9L;
        h ^= h >>> 29; h *= 0xBF58476D1CE4E5B9L; h ^= h >>> 32; h *= 0x94D049BB133111EBL; h ^= h >>> 31;
        return ((h >> 11) * 0x1p-52) * NOISE;   // in [-NOISE, NOISE)
    }
    static double jig(double x, double y, double res, int k) {
        if (Double.isNaN(res) || Double.isInfinite(res)) { return res; }
        return res + res * pert(x, y, k);
    }
    static RealValue mk(RealValue x, RealValue y, double a, double b, double c, double d, int op) {
        return new RealValue(a, jig(x.b, y.b, b, op), jig(x.c, y.c, c, op + 1), jig(x.d, y.d, d, op + 2), false);
    }
    static RealValue fn(RealValue x, java.util.function.DoubleUnaryOperator f, int op, boolean exactResult) {
        if (x.unk) { return RealValue.UNK; }
        if (exactResult && x.exact()) { return new RealValue(f.applyAsDouble(x.a)); }
        return mk(x, x, f.applyAsDouble(x.a), f.applyAsDouble(x.b), f.applyAsDouble(x.c), f.applyAsDouble(x.d), op);
    }
    static boolean nearZero(RealValue x) {   // inside its own rounding noise around zero
        return !x.exact() && Math.abs(x.a) <= SAFETY * x.spread();
    }

    @TLAPlusOperator(identifier = "R", module = "Real", warn = false)
    public static Value lit(StringValue s) { return LIT.computeIfAbsent(s.val.toString(), t -> new RealValue(Double.parseDouble(t))); }
    private static final ConcurrentHashMap<String, RealValue> LIT = new ConcurrentHashMap<>();

    @TLAPlusOperator(identifier = "Unk", module = "Real", warn = false)
    public static Value unk() { return RealValue.UNK; }
    @TLAPlusOperator(identifier = "Pi", module = "Real", warn = false)
    public static Value pi() { return new RealValue(Math.PI); }

    @TLAPlusOperator(identifier = "NaN", module = "Real", warn = false)
    public static Value nan() { return new RealValue(Double.NaN); }
    @TLAPlusOperator(identifier = "OpenInt", module = "Real", warn = false)
    public static Value openInt() { return IntValue.gen(Integer.MIN_VALUE); }
    @TLAPlusOperator(identifier = "Fuzz", module = "Real", warn = false)
    public static Value fuzz(Value v, Value w) {
        RealValue x = r(v);
        double n = Math.abs(r(w).a);
        return x.unk ? x : new RealValue(x.a, x.b + n, x.c - n, x.d + n / 2, false);
    }

    static RealValue add(RealValue x, RealValue y) {
        if (x.unk || y.unk) { return RealValue.UNK; }
        double s = x.a + y.a;
        if (x.exact() && y.exact()) {
            double bb = s - x.a, err = (x.a - (s - bb)) + (y.a - bb);
            if (err == 0) { return new RealValue(s); }
        }
        return mk(x, y, s, x.b + y.b, x.c + y.c, x.d + y.d, 11);
    }
    static RealValue neg(RealValue x) { return new RealValue(-x.a, -x.b, -x.c, -x.d, x.unk); }
    static RealValue mul(RealValue x, RealValue y) {
        if (x.unk || y.unk) {
            if (!x.unk && x.exact() && x.a == 0 || !y.unk && y.exact() && y.a == 0) { return new RealValue(0); }
            return RealValue.UNK;
        }
        double p = x.a * y.a;
        if (x.exact() && y.exact() && (Math.fma(x.a, y.a, -p) == 0 && (p != 0 || x.a == 0 || y.a == 0))) { return new RealValue(p); }
        return mk(x, y, p, x.b * y.b, x.c * y.c, x.d * y.d, 21);
    }
    static RealValue div(RealValue x, RealValue y) {
        if (x.unk || y.unk || nearZero(y)) { return RealValue.UNK; }
        double q = x.a / y.a;
        if (x.exact() && y.exact() && (x.a == 0 && y.a != 0 || Math.abs(y.a) == 1 || (Double.doubleToRawLongBits(y.a) & 0xfffffffffffffL) == 0 && y.a != 0 && Math.abs(q) > 1e-290)) {
            return new RealValue(q);
        }
        return mk(x, y, q, x.b / y.b, x.c / y.c, x.d / y.d, 31);
    }

    @TLAPlusOperator(identifier = "++", module = "Real", warn = false)
    public static Value opAdd(Value x, Value y) { return add(r(x), r(y)); }
    @TLAPlusOperator(identifier = "--", module = "Real", warn = false)
    public static Value opSub(Value x, Value y) { return add(r(x), neg(r(y))); }
    @TLAPlusOperator(identifier = "**", module = "Real", warn = false)
    public static Value opMul(Value x, Value y) { return mul(r(x), r(y)); }
    @TLAPlusOperator(identifier = "//", module = "Real", warn = false)
    public static Value opDiv(Value x, Value y) { return div(r(x), r(y)); }
    @TLAPlusOperator(identifier = "Neg", module = "Real", warn = false)
    public static Value opNeg(Value x) { return neg(r(x)); }
    @TLAPlusOperator(identifier = "Abs", module = "Real", warn = false)
    public static Value abs(Value v) {
        RealValue x = r(v);
        return new RealValue(Math.abs(x.a), Math.abs(x.b), Math.abs(x.c), Math.abs(x.d), x.unk);
    }
    @TLAPlusOperator(identifier = "Sqrt", module = "Real", warn = false)
    public static Value sqrt(Value v) {
        RealValue x = r(v);
        if (x.unk) { return RealValue.UNK; }
        if (x.exact()) {
            double s = Math.sqrt(x.a);
            if (x.a >= 0 && Math.fma(s, s, -x.a) == 0) { return new RealValue(s); }
        } else if (nearZero(x)) {
            // zero but for rounding: the root is zero but for the root of the noise
            double n = Math.sqrt(SAFETY * x.spread());
            return new RealValue(0, n, n / 2, n / 4, false);
        }
        return fn(x, Math::sqrt, 41, false);
    }
    @TLAPlusOperator(identifier = "Sin", module = "Real", warn = false)
    public static Value sin(Value v) { return fn(r(v), Math::sin, 51, false); }
    @TLAPlusOperator(identifier = "Cos", module = "Real", warn = false)
    public static Value cos(Value v) { return fn(r(v), Math::cos, 52, false); }
    @TLAPlusOperator(identifier = "Tan", module = "Real", warn = false)
    public static Value tan(Value v) { return fn(r(v), Math::tan, 53, false); }
    @TLAPlusOperator(identifier = "Asin", module = "Real", warn = false)
    public static Value asin(Value v) { return fn(r(v), Math::asin, 54, false); }
    @TLAPlusOperator(identifier = "Acos", module = "Real", warn = false)
    public static Value acos(Value v) { return fn(r(v), Math::acos, 55, false); }
    @TLAPlusOperator(identifier = "Atan", module = "Real", warn = false)
    public static Value atan(Value v) { return fn(r(v), Math::atan, 56, false); }
    @TLAPlusOperator(identifier = "Sinh", module = "Real", warn = false)
    public static Value sinh(Value v) { return fn(r(v), Math::sinh, 57, false); }
    @TLAPlusOperator(identifier = "Cosh", module = "Real", warn = false)
    public static Value cosh(Value v) { return fn(r(v), Math::cosh, 58, false); }
    @TLAPlusOperator(identifier = "Tanh", module = "Real", warn = false)
    public static Value tanh(Value v) { return fn(r(v), Math::tanh, 59, false); }
    @TLAPlusOperator(identifier = "Exp", module = "Real", warn = false)
    public static Value exp(Value v) { return fn(r(v), Math::exp, 60, false); }
    @TLAPlusOperator(identifier = "Ln", module = "Real", warn = false)
    public static Value ln(Value v) { return fn(r(v), Math::log, 61, false); }
    @TLAPlusOperator(identifier = "Log10", module = "Real", warn = false)
    public static Value log10(Value v) { return fn(r(v), Math::log10, 62, false); }
    @TLAPlusOperator(identifier = "Pow", module = "Real", warn = false)
    public static Value pow(Value v, Value w) {
        RealValue x = r(v), y = r(w);
        if (x.unk || y.unk) { return RealValue.UNK; }
        return mk(x, y, Math.pow(x.a, y.a), Math.pow(x.b, y.b), Math.pow(x.c, y.c), Math.pow(x.d, y.d), 71);
    }

    // Rounding to an integer is a decision: open when the copies disagree about it.
    static Value stepFn(Value v, java.util.function.DoubleUnaryOperator f) {
        RealValue x = r(v);
        if (x.unk) { return x; }
        if (x.exact()) { return new RealValue(f.applyAsDouble(x.a)); }
        double m = SAFETY * x.spread(), lo = f.applyAsDouble(x.a - m), hi = f.applyAsDouble(x.a + m);
        return lo == hi ? new RealValue(lo) : RealValue.UNK;
    }
    @TLAPlusOperator(identifier = "Floor", module = "Real", warn = false)
    public static Value floor(Value v) { return stepFn(v, Math::floor); }
    @TLAPlusOperator(identifier = "Ceil", module = "Real", warn = false)
    public static Value ceil(Value v) { return stepFn(v, Math::ceil); }
    @TLAPlusOperator(identifier = "Trunc", module = "Real", warn = false)
    public static Value trunc(Value v) { return stepFn(v, t -> t < 0 ? Math.ceil(t) : Math.floor(t)); }
    @TLAPlusOperator(identifier = "RoundHalfAway", module = "Real", warn = false)
    public static Value round(Value v) { return stepFn(v, t -> Math.copySign(Math.floor(Math.abs(t) + 0.5), t)); }

    // An integer of the specification from a real (C conversion); -2147483648 stands for "open".
    @TLAPlusOperator(identifier = "ToInt", module = "Real", warn = false)
    public static Value toInt(Value v) {
        RealValue x = (RealValue) trunc(v);
        if (x.unk || Double.isNaN(x.a) || Math.abs(x.a) > 2e9) { return IntValue.gen(Integer.MIN_VALUE); }
        return IntValue.gen((int) x.a);
    }

    /** -1, 0, 1, or 2 when the difference is rounding noise. */
    static int cmp(RealValue x, RealValue y) {
        if (x.unk || y.unk) { return 2; }
        if (x.exact() && y.exact()) { return Double.isNaN(x.a) || Double.isNaN(y.a) ? 2 : x.a < y.a ? -1 : x.a > y.a ? 1 : 0; }
        double da = x.a - y.a;
        double s = Math.max(Math.abs(x.b - y.b - da), Math.max(Math.abs(x.c - y.c - da), Math.abs(x.d - y.d - da)));
        s = Math.max(s, NOISE * Math.max(Math.abs(x.a), Math.abs(y.a)));
        if (!(Math.abs(da) > SAFETY * s)) { return 2; }
        return da < 0 ? -1 : 1;
    }
    static int cmpNominal(RealValue x, RealValue y) { return x.a < y.a ? -1 : x.a > y.a ? 1 : 0; }

    @TLAPlusOperator(identifier = "\\prec", module = "Real", warn = false)
    public static Value lt(Value x, Value y) { return r(x).a < r(y).a ? BoolValue.ValTrue : BoolValue.ValFalse; }
    @TLAPlusOperator(identifier = "\\preceq", module = "Real", warn = false)
    public static Value le(Value x, Value y) { return r(x).a <= r(y).a ? BoolValue.ValTrue : BoolValue.ValFalse; }
    @TLAPlusOperator(identifier = "\\succ", module = "Real", warn = false)
    public static Value gt(Value x, Value y) { return r(x).a > r(y).a ? BoolValue.ValTrue : BoolValue.ValFalse; }
    @TLAPlusOperator(identifier = "\\succeq", module = "Real", warn = false)
    public static Value ge(Value x, Value y) { return r(x).a >= r(y).a ? BoolValue.ValTrue : BoolValue.ValFalse; }
    @TLAPlusOperator(identifier = "\\doteq", module = "Real", warn = false)
    public static Value eq(Value x, Value y) { return r(x).a == r(y).a ? BoolValue.ValTrue : BoolValue.ValFalse; }
    @TLAPlusOperator(identifier = "Clear", module = "Real", warn = false)
    public static Value clear(Value x, Value y) { return cmp(r(x), r(y)) != 2 ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static RealValue hull(RealValue x, RealValue y) {
        if (x.unk || y.unk) { return RealValue.UNK; }
        if (Math.abs(x.a - y.a) <= SAFETY * (x.spread() + y.spread()) + 1e-13 * (Math.abs(x.a) + Math.abs(y.a))) { return x.spread() >= y.spread() ? x : y; }
        return RealValue.UNK;
    }
    @TLAPlusOperator(identifier = "IfLt", module = "Real", warn = false)
    public static Value ifLt(Value x, Value y, Value t, Value f) {
        int c = cmp(r(x), r(y));
        return c == 2 ? hull(r(t), r(f)) : c < 0 ? r(t) : r(f);
    }
    @TLAPlusOperator(identifier = "IfLe", module = "Real", warn = false)
    public static Value ifLe(Value x, Value y, Value t, Value f) {
        int c = cmp(r(x), r(y));
        return c == 2 ? hull(r(t), r(f)) : c <= 0 ? r(t) : r(f);
    }
    @TLAPlusOperator(identifier = "IfEq", module = "Real", warn = false)
    public static Value ifEq(Value x, Value y, Value t, Value f) {
        int c = cmp(r(x), r(y));
        return c == 2 ? hull(r(t), r(f)) : c == 0 ? r(t) : r(f);
    }
    /** The larger (smaller) one; within the noise it keeps the noise of the noisier. */
    static RealValue pick(RealValue x, RealValue y, boolean max) {
        if (x.unk || y.unk) { return RealValue.UNK; }
        int c = cmp(x, y);
        boolean first = max ? x.a >= y.a : x.a <= y.a;
        if (c != 2 || Double.isNaN(x.a) || Double.isNaN(y.a)) { return first ? x : y; }
        RealValue v = first ? x : y, n = x.spread() > y.spread() ? x : y;
        if (v == n) { return v; }
        // the noise must not cancel in a later difference of maximum and minimum
        return max ? new RealValue(v.a, v.a + (n.b - n.a), v.a + (n.c - n.a), v.a + (n.d - n.a), false)
                   : new RealValue(v.a, v.a - (n.c - n.a), v.a - (n.d - n.a), v.a - (n.b - n.a), false);
    }
    @TLAPlusOperator(identifier = "RMax", module = "Real", warn = false)
    public static Value rmax(Value v, Value w) { return pick(r(v), r(w), true); }
    @TLAPlusOperator(identifier = "RMin", module = "Real", warn = false)
    public static Value rmin(Value v, Value w) { return pick(r(v), r(w), false); }

    static Value[] elems(Value s) { return ((TupleValue) s.toTuple()).elems; }

    @TLAPlusOperator(identifier = "SumSeq", module = "Real", warn = false)
    public static Value sumSeq(Value s) {
        RealValue acc = new RealValue(0);
        for (Value v : elems(s)) { acc = add(acc, r(v)); }
        return acc;
    }
    @TLAPlusOperator(identifier = "Dot", module = "Real", warn = false)
    public static Value dot(Value s, Value t) {
        Value[] a = elems(s), b = elems(t);
        if (a.length != b.length) { throw new RuntimeException("Dot: lengths differ"); }
        RealValue acc = new RealValue(0);
        for (int i = 0; i < a.length; ++i) { acc = add(acc, mul(r(a[i]), r(b[i]))); }
        return acc;
    }
    @TLAPlusOperator(identifier = "MaxSeq", module = "Real", warn = false)
    public static Value maxSeq(Value s) {
        Value acc = null;
        for (Value v : elems(s)) { acc = acc == null ? r(v) : rmax(acc, v); }
        return acc;
    }
    @TLAPlusOperator(identifier = "MinSeq", module = "Real", warn = false)
    public static Value minSeq(Value s) {
        Value acc = null;
        for (Value v : elems(s)) { acc = acc == null ? r(v) : rmin(acc, v); }
        return acc;
    }
    /** the elements in ascending order of their nominal values */
    @TLAPlusOperator(identifier = "SortSeqR", module = "Real", warn = false)
    public static Value sortSeq(Value s) {
        Value[] a = elems(s).clone();
        for (int i = 0; i < a.length; ++i) { a[i] = r(a[i]); }
        java.util.Arrays.sort(a, (p, q) -> Double.compare(((RealValue) p).a, ((RealValue) q).a));
        return new TupleValue(a);
    }

    static int agree(RealValue spec, RealValue got, double scale) {
        if (spec.unk) { return 2; }
        if (Double.isNaN(spec.a) || Double.isInfinite(spec.a)) {
            return !spec.exact() ? 2 : Double.doubleToLongBits(spec.a) == Double.doubleToLongBits(got.a) ? 1 : 0;
        }
        double tol = Math.max(SAFETY * spec.spread(), Math.max(RTOL * Math.abs(spec.a), ATOL * scale));
        if (Double.isNaN(tol) || Double.isInfinite(tol)) { return 2; }
        if (Double.isNaN(got.a) || Double.isInfinite(got.a)) { return 0; }
        return Math.abs(spec.a - got.a) <= tol ? 1 : 0;
    }
    @TLAPlusOperator(identifier = "Agrees", module = "Real", warn = false)
    public static Value agrees(Value spec, Value got, Value scale) {
        int x = agree(r(spec), r(got), r(scale).a);
        if (x == 2) { open.increment(); } else { judged.increment(); }
        return x == 0 ? BoolValue.ValFalse : BoolValue.ValTrue;
    }
    /** two implementations of the same value differ by no more than their tolerances */
    @TLAPlusOperator(identifier = "Pair", module = "Real", warn = false)
    public static Value pair(Value spec, Value v, Value w, Value scale) {
        RealValue s = r(spec), x = r(v), y = r(w);
        if (Double.doubleToLongBits(x.a) == Double.doubleToLongBits(y.a)) { paired.increment(); return BoolValue.ValTrue; }
        boolean nonfinite = Double.isNaN(s.a) || Double.isInfinite(s.a);
        if (s.unk || nonfinite && !s.exact()) { unpaired.increment(); return BoolValue.ValTrue; }
        paired.increment();
        if (nonfinite) { return BoolValue.ValFalse; }
        double tol = 2 * Math.max(SAFETY * s.spread(), Math.max(RTOL * Math.abs(s.a), ATOL * r(scale).a));
        if (Double.isNaN(tol) || Double.isInfinite(tol)) { return BoolValue.ValTrue; }
        if (Double.isNaN(x.a) || Double.isInfinite(x.a) || Double.isNaN(y.a) || Double.isInfinite(y.a)) { return BoolValue.ValFalse; }
        return Math.abs(x.a - y.a) <= tol ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static final LongAdder paired = new LongAdder(), unpaired = new LongAdder();
    @TLAPlusOperator(identifier = "IsOpen", module = "Real", warn = false)
    public static Value isOpen(Value v) {
        RealValue x = r(v);
        return x.unk || Double.isNaN(x.a) || Double.isInfinite(x.a) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    @TLAPlusOperator(identifier = "IsFiniteR", module = "Real", warn = false)
    public static Value isFin(Value v) {
        RealValue x = r(v);
        return Double.isNaN(x.a) || Double.isInfinite(x.a) ? BoolValue.ValFalse : BoolValue.ValTrue;
    }
    /** same bits (NaNs of any payload are the same) */
    @TLAPlusOperator(identifier = "SameBits", module = "Real", warn = false)
    public static Value same(Value x, Value y) {
        return Double.doubleToLongBits(r(x).a) == Double.doubleToLongBits(r(y).a) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    /** tolerance granted to an implementation of `spec` */
    @TLAPlusOperator(identifier = "Tol", module = "Real", warn = false)
    public static Value tol(Value spec, Value scale) {
        RealValue x = r(spec);
        if (x.unk || Double.isNaN(x.a) || Double.isInfinite(x.a)) { return RealValue.UNK; }
        return new RealValue(Math.max(SAFETY * x.spread(), Math.max(RTOL * Math.abs(x.a), ATOL * r(scale).a)));
    }
}
