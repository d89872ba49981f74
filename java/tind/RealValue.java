package tind;

import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.*;

/**
 * A real number of the specification, as TLC evaluates it.
 *
 * s[0] is the nominal value, computed in IEEE double precision; s[1..K-1] are copies computed with
 * every inexact operation perturbed by up to 2^-50 relative (discrete stochastic arithmetic).  The spread of
 * the copies estimates how much of the value is rounding noise, i.e. how far two correct programs may differ.
 * Values computed without any rounding have identical copies ("exact").  unk marks a value the
 * specification leaves open because a decision fell inside the rounding noise.
 */
public final class RealValue extends Value {
    public static final int K = 4;
    public final double a, b, c, d;
    public final boolean unk;

    public RealValue(double v) { a = b = c = d = v; unk = false; }
    public RealValue(double a, double b, double c, double d, boolean unk) {
        this.a = a; this.b = b; this.c = c; this.d = d; this.unk = unk;
    }
    public static final RealValue UNK = new RealValue(0, 0, 0, 0, true);

    public boolean exact() {
        long x = Double.doubleToLongBits(a);
        return !unk && x == Double.doubleToLongBits(b) && x == Double.doubleToLongBits(c) && x == Double.doubleToLongBits(d);
    }
    public double spread() {
        if (unk) { return Double.POSITIVE_INFINITY; }
        double m = Math.max(Math.abs(b - a), Math.max(Math.abs(c - a), Math.abs(d - a)));
        return m;
    }

    @Override public byte getKind() { return REALVALUE; }
    @Override public int compareTo(Object o) {
        if (o instanceof RealValue) {
            RealValue r = (RealValue) o;
            int x = Double.compare(a, r.a);
            if (x == 0) { x = Double.compare(b, r.b); }
            if (x == 0) { x = Double.compare(c, r.c); }
            if (x == 0) { x = Double.compare(d, r.d); }
            if (x == 0) { x = Boolean.compare(unk, r.unk); }
            return x;
        }
        if (o instanceof IntValue) { return 1; }
        if (o instanceof ModelValue) { return ((ModelValue) o).modelValueCompareTo(this); }
        throw new RuntimeException("cannot compare real " + this + " with " + o);
    }
    @Override public boolean equals(Object o) {
        if (o instanceof RealValue) { return compareTo(o) == 0; }
        if (o instanceof ModelValue) { return ((ModelValue) o).modelValueEquals(this); }
        return false;
    }
    @Override public boolean member(Value v) { throw new RuntimeException("a real is not a set"); }
    @Override public boolean isFinite() { return false; }
    @Override public Value takeExcept(ValueExcept e) { return e.idx < e.path.length ? err() : e.value; }
    @Override public Value takeExcept(ValueExcept[] e) { return err(); }
    private static Value err() { throw new RuntimeException("EXCEPT inside a real"); }
    @Override public int size() { return 1; }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public boolean mutates() { return false; }
    @Override public void write(IValueOutputStream vos) throws java.io.IOException {
        vos.writeByte(REALVALUE);
        throw new java.io.IOException("state spilled to disk: not supported for reals");
    }
    @Override public long fingerPrint(long fp) {
        fp = FP64.Extend(fp, REALVALUE);
        fp = FP64.Extend(fp, Double.doubleToLongBits(a));
        fp = FP64.Extend(fp, Double.doubleToLongBits(b));
        return FP64.Extend(fp, unk ? 1 : 0);
    }
    @Override public IValue permute(IMVPerm perm) { return this; }
    @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
        if (unk) { return sb.append("\"unknown\""); }
        sb.append(a);
        if (!exact()) { sb.append("~").append((float) spread()); }
        return sb;
    }
}
