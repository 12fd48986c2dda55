import java.math.BigInteger;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * TLC module override for Big.tla: the same operators on the same representation
 * (&lt;&lt;sign, limbs of base 2^13, least significant first&gt;&gt;), computed with
 * java.math.BigInteger.  The definitions in Big.tla remain the reference; BigLaws.tla is
 * checked against both.
 */
public class Big {
    private static final int BITS = 13, MASK = (1 << BITS) - 1;
    private static final IntValue[] LIMB = new IntValue[MASK + 1];
    private static final IntValue MINUS = IntValue.gen(-1);
    private static final TupleValue ZERO;

    static {
        for (int i = 0; i <= MASK; i++) {
            LIMB[i] = IntValue.gen(i);
        }
        ZERO = new TupleValue(LIMB[0]);
    }

    private static TupleValue tuple(Value v) {
        return (TupleValue) v.toTuple();
    }

    private static BigInteger get(Value v) {
        Value[] e = tuple(v).elems;
        int s = ((IntValue) e[0]).val;
        if (s == 0) {
            return BigInteger.ZERO;
        }
        int n = e.length - 1;
        byte[] mag = new byte[(n * BITS + 7) / 8 + 1];
        for (int i = 0; i < n; i++) {
            int limb = ((IntValue) e[i + 1]).val, bit = i * BITS;
            // spread over up to three bytes, little endian positions from the end
            long x = ((long) limb) << (bit & 7);
            int at = mag.length - 1 - (bit >> 3);
            while (x != 0) {
                mag[at] |= (byte) (x & 255);
                x >>>= 8;
                at--;
            }
        }
        return new BigInteger(s, mag);
    }

    private static Value put(BigInteger b) {
        int s = b.signum();
        if (s == 0) {
            return ZERO;
        }
        if (s < 0) {
            b = b.negate();
        }
        int n = (b.bitLength() + BITS - 1) / BITS;
        Value[] e = new Value[n + 1];
        e[0] = s > 0 ? LIMB[1] : MINUS;
        byte[] mag = b.toByteArray();
        for (int i = 0; i < n; i++) {
            int bit = i * BITS, at = mag.length - 1 - (bit >> 3);
            int x = 0;
            for (int j = 0; j < 3; j++) {
                if (at - j >= 0) {
                    x |= (mag[at - j] & 255) << (8 * j);
                }
            }
            e[i + 1] = LIMB[(x >>> (bit & 7)) & MASK];
        }
        return new TupleValue(e);
    }

    private static Value bool(boolean b) {
        return b ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    private static int sign(Value v) {
        return ((IntValue) tuple(v).elems[0]).val;
    }

    public static Value BigNeg(Value a) {
        return put(get(a).negate());
    }

    public static Value BigAbs(Value a) {
        return sign(a) < 0 ? put(get(a).negate()) : a;
    }

    public static Value BigAdd(Value a, Value b) {
        return sign(a) == 0 ? b : sign(b) == 0 ? a : put(get(a).add(get(b)));
    }

    public static Value BigSub(Value a, Value b) {
        return sign(b) == 0 ? a : put(get(a).subtract(get(b)));
    }

    public static Value BigMul(Value a, Value b) {
        return put(get(a).multiply(get(b)));
    }

    public static Value BigCmp(Value a, Value b) {
        return IntValue.gen(get(a).compareTo(get(b)));
    }

    public static Value BigLe(Value a, Value b) {
        return bool(get(a).compareTo(get(b)) <= 0);
    }

    public static Value BigLt(Value a, Value b) {
        return bool(get(a).compareTo(get(b)) < 0);
    }

    public static Value BigOfInt(Value n) {
        return put(BigInteger.valueOf(((IntValue) n).val));
    }

    public static Value BigToInt(Value a) {
        return IntValue.gen(get(a).intValueExact());
    }

    public static Value BigShl(Value a, Value k) {
        return put(get(a).shiftLeft(BITS * ((IntValue) k).val));
    }

    public static Value BigShr(Value a, Value k) {
        BigInteger x = get(a);
        BigInteger m = x.abs().shiftRight(BITS * ((IntValue) k).val);
        return put(x.signum() < 0 ? m.negate() : m);
    }

    public static Value BigDivisible(Value a, Value k) {
        BigInteger x = get(a);
        return bool(x.signum() == 0 || x.getLowestSetBit() >= BITS * ((IntValue) k).val);
    }

    public static Value BigBits(Value a) {
        return IntValue.gen(get(a).abs().bitLength());
    }

    public static Value BigTwos(Value a) {
        BigInteger x = get(a);
        return IntValue.gen(x.signum() == 0 ? 0 : x.getLowestSetBit());
    }

    public static Value BigPow2(Value n) {
        return put(BigInteger.ONE.shiftLeft(((IntValue) n).val));
    }
}
