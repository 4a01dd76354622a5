import java.math.BigInteger;
import tlc2.value.IValue;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Optional accelerator: TLC uses these methods instead of evaluating the
 * definitions of the same name in spec/Big.tla.  MCFix checks the laws of the
 * arithmetic with the TLA+ definitions and again with these methods.
 */
public class Big {
    private static final int BASE = 10000;
    private static final BigInteger BB = BigInteger.valueOf(BASE);
    // two limbs of base 10^4 at a time
    private static final BigInteger[] POW = new BigInteger[400];
    static {
        POW[0] = BigInteger.ONE;
        for (int i = 1; i < POW.length; i++) POW[i] = POW[i - 1].multiply(BB);
    }

    private static Value[] limbs(final IValue v) {
        final TupleValue t = (TupleValue) ((Value) v).toTuple();
        return t.elems;
    }

    private static BigInteger get(final IValue v) {
        final Value[] e = limbs(v);
        BigInteger r = BigInteger.ZERO;
        int i = e.length;
        // chunks of four limbs fit a long
        while (i > 0) {
            int m = ((i - 1) % 4) + 1;
            long x = 0;
            for (int k = 0; k < m; k++) x = x * BASE + ((IntValue) e[--i]).val;
            r = r.multiply(POW[m]).add(BigInteger.valueOf(x));
        }
        return r;
    }

    private static final BigInteger CH = BigInteger.valueOf(10000L * 10000L * 10000L * 10000L);

    private static Value put(final BigInteger x) {
        final int sgn = x.signum();
        BigInteger a = x.abs();
        final int[] out = new int[a.bitLength() / 13 + 8];
        int n = 0;
        while (a.signum() != 0) {
            long c;
            if (a.bitLength() <= 62) {
                c = a.longValue();
                a = BigInteger.ZERO;
                while (c != 0) { out[n++] = (int) (c % BASE) * sgn; c /= BASE; }
            } else {
                final BigInteger[] qr = a.divideAndRemainder(CH);
                c = qr[1].longValue();
                a = qr[0];
                for (int k = 0; k < 4; k++) { out[n++] = (int) (c % BASE) * sgn; c /= BASE; }
            }
        }
        while (n > 0 && out[n - 1] == 0) n--;
        final Value[] e = new Value[n];
        for (int i = 0; i < n; i++) e[i] = IntValue.gen(out[i]);
        return new TupleValue(e);
    }

    private static Value bool(final boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value BNorm(final Value a) { return put(get(a)); }
    public static Value BNeg(final Value a) {
        final Value[] e = limbs(a);
        final Value[] r = new Value[e.length];
        for (int i = 0; i < e.length; i++) r[i] = IntValue.gen(-((IntValue) e[i]).val);
        return new TupleValue(r);
    }
    public static Value BAbs(final Value a) {
        final Value[] e = limbs(a);
        return e.length > 0 && ((IntValue) e[e.length - 1]).val < 0 ? BNeg(a) : a;
    }
    public static Value BAdd(final Value a, final Value b) { return put(get(a).add(get(b))); }
    public static Value BSub(final Value a, final Value b) { return put(get(a).subtract(get(b))); }
    public static Value BMul(final Value a, final Value b) { return put(get(a).multiply(get(b))); }
    public static Value BLe(final Value a, final Value b) { return bool(get(a).compareTo(get(b)) <= 0); }
    public static Value BLt(final Value a, final Value b) { return bool(get(a).compareTo(get(b)) < 0); }
    public static Value BMulInt(final Value a, final IntValue k) { return put(get(a).multiply(BigInteger.valueOf(k.val))); }
    public static Value BDivInt(final Value a, final IntValue k) { return put(get(a).divide(BigInteger.valueOf(k.val))); }
    public static Value BScaleDown(final Value a, final IntValue k) { return put(get(a).divide(POW[k.val])); }
    public static Value BDiv(final Value a, final Value b) { return put(get(a).divide(get(b))); }
    public static Value BSqrt(final Value a) { return put(get(a).sqrt()); }
    public static Value BSgn(final Value a) {
        final Value[] e = limbs(a);
        return IntValue.gen(e.length == 0 ? 0 : ((IntValue) e[e.length - 1]).val > 0 ? 1 : -1);
    }
}
