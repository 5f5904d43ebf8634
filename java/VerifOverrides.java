import java.math.BigInteger;
import tlc2.overrides.*;
import tlc2.value.impl.*;

/**
 * Fast versions of the operators of spec/Big.tla, which defines them
 * completely in TLA+; spec/BigTest.tla checks that both agree.
 */
public class VerifOverrides implements ITLCOverrides {
    public Class[] get() { return new Class[]{VerifOverrides.class}; }

    /** A big integer &lt;&lt;sign, limbs...&gt;&gt; that remembers its value. */
    static final class BTuple extends TupleValue {
        final BigInteger big;
        BTuple(Value[] elems, BigInteger b) { super(elems); big = b; }
    }

    static final IntValue[] LIMBS = new IntValue[32768];
    static { for (int i = 0; i < 32768; ++i) LIMBS[i] = IntValue.gen(i); }
    static final IntValue MINUS = IntValue.gen(-1);

    static TupleValue enc(BigInteger b) {
        int s = b.signum();
        if (s == 0) return new BTuple(new Value[]{LIMBS[0]}, b);
        BigInteger m = b.abs();
        int n = (m.bitLength() + 14) / 15;
        Value[] r = new Value[n + 1];
        r[0] = s > 0 ? LIMBS[1] : MINUS;
        byte[] by = m.toByteArray();            // big endian
        int pos = by.length - 1, acc = 0, bits = 0;
        for (int i = 1; i <= n; ++i) {
            while (bits < 15) {
                if (pos >= 0) acc |= (by[pos--] & 0xff) << bits;
                bits += 8;
            }
            r[i] = LIMBS[acc & 0x7fff];
            acc >>>= 15; bits -= 15;
        }
        return new BTuple(r, b);
    }

    static BigInteger dec(Value v) {
        if (v instanceof BTuple) return ((BTuple) v).big;
        Value tv = v instanceof TupleValue ? v : v.toTuple();
        Value[] e = ((TupleValue) tv).elems;
        int s = ((IntValue) e[0]).val;
        if (s == 0) return BigInteger.ZERO;
        int n = e.length - 1;
        byte[] by = new byte[(15 * n + 7) / 8 + 1];
        int pos = by.length - 1, acc = 0, bits = 0;
        for (int i = 1; i <= n; ++i) {
            acc |= ((IntValue) e[i]).val << bits;
            bits += 15;
            while (bits >= 8) { by[pos--] = (byte) acc; acc >>>= 8; bits -= 8; }
        }
        if (bits > 0) by[pos--] = (byte) acc;
        BigInteger b = new BigInteger(1, by);
        return s > 0 ? b : b.negate();
    }

    static Value[] vec(Value v) {
        Value tv = v instanceof TupleValue ? v : v.toTuple();
        return ((TupleValue) tv).elems;
    }
    static int num(Value v) { return ((IntValue) v).val; }

    static BigInteger fdiv(BigInteger a, BigInteger b) {
        BigInteger[] qr = a.divideAndRemainder(b);
        return qr[1].signum() != 0 && (qr[1].signum() != b.signum())
            ? qr[0].subtract(BigInteger.ONE) : qr[0];
    }

    static BigInteger hex(String s) { return new BigInteger(s, 16); }

    @TLAPlusOperator(identifier="BInt", module="Big", warn=false)
    public static Value bint(Value n) { return enc(BigInteger.valueOf(num(n))); }
    @TLAPlusOperator(identifier="BNeg", module="Big", warn=false)
    public static Value bneg(Value a) { return enc(dec(a).negate()); }
    @TLAPlusOperator(identifier="BAbs", module="Big", warn=false)
    public static Value babs(Value a) { return enc(dec(a).abs()); }
    @TLAPlusOperator(identifier="BAdd", module="Big", warn=false)
    public static Value badd(Value a, Value b) { return enc(dec(a).add(dec(b))); }
    @TLAPlusOperator(identifier="BSub", module="Big", warn=false)
    public static Value bsub(Value a, Value b) { return enc(dec(a).subtract(dec(b))); }
    @TLAPlusOperator(identifier="BMul", module="Big", warn=false)
    public static Value bmul(Value a, Value b) { return enc(dec(a).multiply(dec(b))); }
    @TLAPlusOperator(identifier="BCmp", module="Big", warn=false)
    public static Value bcmp(Value a, Value b) { return IntValue.gen(dec(a).compareTo(dec(b))); }
    @TLAPlusOperator(identifier="BDiv", module="Big", warn=false)
    public static Value bdiv(Value a, Value b) { return enc(fdiv(dec(a), dec(b))); }
    @TLAPlusOperator(identifier="BShl", module="Big", warn=false)
    public static Value bshl(Value a, Value k) { return enc(dec(a).shiftLeft(num(k))); }
    @TLAPlusOperator(identifier="BShr", module="Big", warn=false)
    public static Value bshr(Value a, Value k) { return enc(dec(a).shiftRight(num(k))); }
    @TLAPlusOperator(identifier="BGcd", module="Big", warn=false)
    public static Value bgcd(Value a, Value b) { return enc(dec(a).gcd(dec(b))); }
    @TLAPlusOperator(identifier="BSqrt", module="Big", warn=false)
    public static Value bsqrt(Value a) { return enc(dec(a).sqrt()); }
    @TLAPlusOperator(identifier="BHex", module="Big", warn=false)
    public static Value bhex(Value s) { return enc(hex(((StringValue) s).val.toString())); }
    @TLAPlusOperator(identifier="VHex", module="Big", warn=false)
    public static Value vhex(Value s) {
        String t = ((StringValue) s).val.toString();
        if (t.isEmpty()) return new TupleValue(new Value[0]);
        String[] p = t.split(" ");
        Value[] r = new Value[p.length];
        for (int i = 0; i < p.length; ++i) r[i] = enc(hex(p[i]));
        return new TupleValue(r);
    }
    @TLAPlusOperator(identifier="VAdd", module="Big", warn=false)
    public static Value vadd(Value a, Value b) {
        Value[] u = vec(a), v = vec(b), r = new Value[u.length];
        for (int i = 0; i < r.length; ++i) r[i] = enc(dec(u[i]).add(dec(v[i])));
        return new TupleValue(r);
    }
    @TLAPlusOperator(identifier="VSub", module="Big", warn=false)
    public static Value vsub(Value a, Value b) {
        Value[] u = vec(a), v = vec(b), r = new Value[u.length];
        for (int i = 0; i < r.length; ++i) r[i] = enc(dec(u[i]).subtract(dec(v[i])));
        return new TupleValue(r);
    }
    @TLAPlusOperator(identifier="VMul", module="Big", warn=false)
    public static Value vmul(Value a, Value b, Value k) {
        Value[] u = vec(a), v = vec(b), r = new Value[u.length];
        int n = num(k);
        for (int i = 0; i < r.length; ++i)
            r[i] = enc(dec(u[i]).multiply(dec(v[i])).shiftRight(n));
        return new TupleValue(r);
    }
    @TLAPlusOperator(identifier="VScale", module="Big", warn=false)
    public static Value vscale(Value a, Value n, Value d) {
        Value[] u = vec(a), r = new Value[u.length];
        BigInteger nn = dec(n), dd = dec(d);
        for (int i = 0; i < r.length; ++i) r[i] = enc(fdiv(dec(u[i]).multiply(nn), dd));
        return new TupleValue(r);
    }
    @TLAPlusOperator(identifier="VSum", module="Big", warn=false)
    public static Value vsum(Value a) {
        BigInteger s = BigInteger.ZERO;
        for (Value x : vec(a)) s = s.add(dec(x));
        return enc(s);
    }
    @TLAPlusOperator(identifier="VDot", module="Big", warn=false)
    public static Value vdot(Value a, Value b) {
        Value[] u = vec(a), v = vec(b);
        BigInteger s = BigInteger.ZERO;
        for (int i = 0; i < u.length; ++i) s = s.add(dec(u[i]).multiply(dec(v[i])));
        return enc(s);
    }
    @TLAPlusOperator(identifier="VMaxAbs", module="Big", warn=false)
    public static Value vmaxabs(Value a) {
        BigInteger s = BigInteger.ZERO;
        for (Value x : vec(a)) s = s.max(dec(x).abs());
        return enc(s);
    }

    /** Identity; evaluates functions given by an expression once and for all. */
    @TLAPlusOperator(identifier="Force", module="Big", warn=false)
    public static Value force(Value v) {
        if (v instanceof FcnLambdaValue) {
            Value t = v.toTuple();
            v = t != null ? t : v.toFcnRcd();
        }
        if (v instanceof BTuple) return v;
        if (v instanceof TupleValue) {
            Value[] e = ((TupleValue) v).elems;
            for (int i = 0; i < e.length; ++i) e[i] = force(e[i]);
        } else if (v instanceof FcnRcdValue) {
            Value[] e = ((FcnRcdValue) v).values;
            for (int i = 0; i < e.length; ++i) e[i] = force(e[i]);
        } else if (v instanceof RecordValue) {
            Value[] e = ((RecordValue) v).values;
            for (int i = 0; i < e.length; ++i) e[i] = force(e[i]);
        }
        return v;
    }
}
