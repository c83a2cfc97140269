import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Evaluates the operators of spec/BigNat.tla with java.math.BigInteger. */
public class BigNatOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override public Class[] get() { return new Class[] { BigNatOverrides.class }; }

    static BigInteger big(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        int n = t.elems.length;
        byte[] mag = new byte[(n * 15 + 7) / 8 + 1];           // big endian
        int bits = 0, acc = 0, pos = mag.length - 1;
        for (int i = 0; i < n; i++) {
            acc |= ((IntValue) t.elems[i]).val << bits;
            bits += 15;
            while (bits >= 8) { mag[pos--] = (byte) acc; acc >>>= 8; bits -= 8; }
        }
        if (bits > 0) mag[pos] = (byte) acc;
        return new BigInteger(1, mag);
    }

    static TupleValue val(BigInteger b) {
        int n = (b.bitLength() + 14) / 15;
        Value[] e = new Value[n];
        byte[] mag = b.toByteArray();
        int acc = 0, bits = 0, pos = mag.length - 1;
        for (int i = 0; i < n; i++) {
            while (bits < 15) { acc |= (pos >= 0 ? mag[pos--] & 0xff : 0) << bits; bits += 8; }
            e[i] = IntValue.gen(acc & 0x7fff);
            acc >>>= 15; bits -= 15;
        }
        return new TupleValue(e);
    }

    static int nat(Value v) { return ((IntValue) v).val; }

    static TupleValue nonneg(BigInteger b) {
        if (b.signum() < 0) throw new RuntimeException("BigNat: negative result");
        return val(b);
    }

    @TLAPlusOperator(identifier = "FromNat", module = "BigNat", warn = false)
    public static Value FromNat(Value k) { return nonneg(BigInteger.valueOf(nat(k))); }
    @TLAPlusOperator(identifier = "Norm", module = "BigNat", warn = false)
    public static Value Norm(Value a) { return val(big(a)); }
    @TLAPlusOperator(identifier = "Add", module = "BigNat", warn = false)
    public static Value Add(Value a, Value b) { return val(big(a).add(big(b))); }
    @TLAPlusOperator(identifier = "Sub", module = "BigNat", warn = false)
    public static Value Sub(Value a, Value b) { return nonneg(big(a).subtract(big(b))); }
    @TLAPlusOperator(identifier = "Cmp", module = "BigNat", warn = false)
    public static Value Cmp(Value a, Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
    @TLAPlusOperator(identifier = "Mul", module = "BigNat", warn = false)
    public static Value Mul(Value a, Value b) { return val(big(a).multiply(big(b))); }
    @TLAPlusOperator(identifier = "Pow", module = "BigNat", warn = false)
    public static Value Pow(Value a, Value k) { return val(big(a).pow(nat(k))); }
    @TLAPlusOperator(identifier = "Shl", module = "BigNat", warn = false)
    public static Value Shl(Value a, Value k) { return val(big(a).shiftLeft(nat(k))); }
    @TLAPlusOperator(identifier = "Shr", module = "BigNat", warn = false)
    public static Value Shr(Value a, Value k) { return val(big(a).shiftRight(nat(k))); }
    @TLAPlusOperator(identifier = "Div", module = "BigNat", warn = false)
    public static Value Div(Value a, Value b) { return val(big(a).divide(big(b))); }
    @TLAPlusOperator(identifier = "Mod", module = "BigNat", warn = false)
    public static Value Mod(Value a, Value b) { return val(big(a).mod(big(b))); }
    @TLAPlusOperator(identifier = "Xor", module = "BigNat", warn = false)
    public static Value Xor(Value a, Value b) { return val(big(a).xor(big(b))); }
    @TLAPlusOperator(identifier = "And", module = "BigNat", warn = false)
    public static Value And(Value a, Value b) { return val(big(a).and(big(b))); }

    @TLAPlusOperator(identifier = "Fact", module = "BigNat", warn = false)
    public static Value Fact(Value k) {
        BigInteger r = BigInteger.ONE;
        for (int i = 2; i <= nat(k); i++) r = r.multiply(BigInteger.valueOf(i));
        return val(r);
    }
    @TLAPlusOperator(identifier = "Binom", module = "BigNat", warn = false)
    public static Value Binom(Value n, Value k) {
        return val(binom(nat(n), nat(k)));
    }

    /** The last one, from which a neighbour is one step away. */
    static final class Last { int n = -1, k; BigInteger v; }
    static final ThreadLocal<Last> last = ThreadLocal.withInitial(Last::new);

    static BigInteger binom(int n, int k) {
        BigInteger r = BigInteger.ONE;
        if (k > n) return BigInteger.ZERO;
        k = Math.min(k, n - k);
        Last l = last.get();
        int i = 0;                                               // r = binom(n, i)
        if (l.n == n && Math.abs(l.k - k) <= k) { i = l.k; r = l.v; }
        for (; i < k; i++)
            r = r.multiply(BigInteger.valueOf(n - i)).divide(BigInteger.valueOf(i + 1));
        for (; i > k; i--)
            r = r.multiply(BigInteger.valueOf(i)).divide(BigInteger.valueOf(n - i + 1));
        l.n = n; l.k = k; l.v = r;
        return r;
    }

    /** Spread of spec/BigNatRef.tla: term(s, c+1) = term(s, c) * (n-s-c) * w / (c+1). */
    @TLAPlusOperator(identifier = "Spread", module = "BigNat", warn = false)
    public static Value Spread(Value V, Value vlo, Value vn, Value vw, Value vlo2, Value vhi2) {
        TupleValue t = (TupleValue) V.toTuple();
        int lo = nat(vlo), n = nat(vn), lo2 = nat(vlo2), hi2 = nat(vhi2);
        BigInteger w = big(vw);
        int len = Math.max(0, hi2 - lo2 + 1);
        BigInteger[] out = new BigInteger[len];
        java.util.Arrays.fill(out, BigInteger.ZERO);
        BigInteger jump = null;                                  // binom(n-s, lo2-s) w^(lo2-s)
        for (int k = 0; k < t.elems.length; k++) {
            int s = lo + k;
            BigInteger v = big(t.elems[k]);
            if (s > hi2) break;
            BigInteger term = v;
            int c = 0;
            if (lo2 > s) {                                       // jump to s + c = lo2
                c = lo2 - s;
                if (jump == null || jump.signum() == 0)
                    jump = binom(n - s, c).multiply(w.pow(c));
                else                                             // from that of s - 1
                    jump = jump.multiply(BigInteger.valueOf(c + 1)).divide(BigInteger.valueOf(n - s + 1).multiply(w));
                term = v.multiply(jump);
            }
            if (v.signum() == 0) continue;
            for (; s + c <= hi2 && term.signum() != 0; c++) {
                out[s + c - lo2] = out[s + c - lo2].add(term);
                term = term.multiply(BigInteger.valueOf(n - s - c).multiply(w)).divide(BigInteger.valueOf(c + 1));
            }
        }
        Value[] e = new Value[len];
        for (int i = 0; i < len; i++) e[i] = val(out[i]);
        return new TupleValue(e);
    }
}
