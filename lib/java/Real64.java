import tlc2.value.impl.*;

/** TLC's implementation of the operators of Real64.tla (TLC finds it by the module's name). */
public class Real64 {
    private static double d(Value v) { return Real64Value.of(v); }
    private static Value r(double x) { return new Real64Value(x); }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value R(Value a) { return r(d(a)); }
    public static Value RAdd(Value a, Value c) { return r(d(a) + d(c)); }
    public static Value RSub(Value a, Value c) { return r(d(a) - d(c)); }
    public static Value RMul(Value a, Value c) { return r(d(a) * d(c)); }
    public static Value RDiv(Value a, Value c) { return r(d(a) / d(c)); }
    public static Value RNeg(Value a) { return r(-d(a)); }
    public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
    public static Value RMin(Value a, Value c) { return r(Math.min(d(a), d(c))); }
    public static Value RMax(Value a, Value c) { return r(Math.max(d(a), d(c))); }
    public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
    public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
    public static Value REq(Value a, Value c) {
        double x = d(a), y = d(c);
        return b(x == y || (Double.isNaN(x) && Double.isNaN(y)));
    }
    public static Value RNear(Value a, Value c, Value t) {
        double x = d(a), y = d(c);
        return b((Double.isNaN(x) && Double.isNaN(y)) || x == y || Math.abs(x - y) <= d(t));
    }
    public static Value RIsNaN(Value a) { return b(Double.isNaN(d(a))); }
    public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
    public static Value RSin(Value a) { return r(Math.sin(d(a))); }
    public static Value RCos(Value a) { return r(Math.cos(d(a))); }
    public static Value RTan(Value a) { return r(Math.tan(d(a))); }
    public static Value RAtan(Value a) { return r(Math.atan(d(a))); }
    public static Value RAtan2(Value a, Value c) { return r(Math.atan2(d(a), d(c))); }
    public static Value RAsin(Value a) { return r(Math.asin(d(a))); }
    public static Value RAcos(Value a) { return r(Math.acos(d(a))); }
    public static Value RExp(Value a) { return r(Math.exp(d(a))); }
    public static Value RLog(Value a) { return r(Math.log(d(a))); }
    public static Value RPow(Value a, Value c) { return r(Math.pow(d(a), d(c))); }
    public static Value RRint(Value a) { return r(Math.rint(d(a))); }
    public static Value RFloorInt(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
    public static Value RRoundInt(Value a) { return IntValue.gen((int) Math.rint(d(a))); }
    public static Value RText(Value a) { return new StringValue(Real64Value.text(d(a))); }
}
