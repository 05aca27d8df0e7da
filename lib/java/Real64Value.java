import tlc2.value.impl.*;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.tool.EvalException;
import tlc2.util.FP64;
import util.Assert;

/** A real number in a TLC state or expression: an IEEE double behind the operators of Real64.tla. */
public final class Real64Value extends Value {
    public final double val;
    public Real64Value(double v) { this.val = v; }

    /** A real from a Real64 value, an integer, or its decimal text (JSON has the reals as strings). */
    public static double of(Value v) {
        if (v instanceof Real64Value) return ((Real64Value) v).val;
        if (v instanceof IntValue) return ((IntValue) v).val;
        if (v instanceof StringValue) {
            String s = ((StringValue) v).val.toString();
            switch (s) {
                case "nan": return Double.NaN;
                case "inf": return Double.POSITIVE_INFINITY;
                case "-inf": return Double.NEGATIVE_INFINITY;
                default: return Double.parseDouble(s);
            }
        }
        throw new RuntimeException("not a real: " + v);
    }

    public byte getKind() { return STRINGVALUE; }
    public String getKindString() { return "a real"; }
    public int compareTo(Object o) { return Double.compare(val, of((Value) o)); }
    public boolean equals(Object o) {
        return o instanceof Value && (o instanceof Real64Value || o instanceof IntValue || o instanceof StringValue)
            && of((Value) o) == val;
    }
    public boolean member(Value v) { throw new RuntimeException("a real is not a set"); }
    public boolean isFinite() { throw new RuntimeException("a real is not a set"); }
    public Value takeExcept(ValueExcept ex) { if (ex.idx < ex.path.length) throw new RuntimeException("real EXCEPT"); return ex.value; }
    public Value takeExcept(ValueExcept[] exs) { if (exs != null && exs.length != 0) throw new RuntimeException("real EXCEPT"); return this; }
    public int size() { throw new RuntimeException("a real is not a set"); }
    public boolean mutates() { return false; }
    public boolean isNormalized() { return true; }
    public Value normalize() { return this; }
    public boolean isDefined() { return true; }
    public IValue deepCopy() { return this; }
    public boolean assignable(Value v) { return v instanceof Real64Value && v.equals(this); }
    public long fingerPrint(long fp) { return FP64.Extend(fp, Double.toString(val)); }
    public IValue permute(IMVPerm perm) { return this; }
    public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) { return sb.append('"').append(text(val)).append('"'); }
    public static String text(double d) {
        if (Double.isNaN(d)) return "nan";
        if (Double.isInfinite(d)) return d > 0 ? "inf" : "-inf";
        return Double.toString(d);
    }
}
