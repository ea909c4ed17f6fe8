// Java override of the operators of spec/Fx.tla: certified interval arithmetic.
//
// A value is a TLA+ tuple <<k, le, l1, l0, he, h1, h0>>:
//   k = 0: the real interval [l, h] with l = (l1*2^30 + l0)*2^le, h likewise;
//   k = 1: nothing is known (any number, infinity or NaN);
//   k = 2: certainly not a number;
//   k = 3: certainly no finite number (an infinity or not a number).
// End points carry at most 60 significant bits and are always rounded outwards.
import java.math.BigInteger;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Fx {
    static final int P = 60;              // bits of an end point
    static final int W = 21;              // a rounded operation widens by 2^-W (relative)
    static final int EMAX = 90;           // |x| >= 2^EMAX: an intermediate result might overflow an f32
    static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;

    // m * 2^e
    static final class D {
        final BigInteger m; final int e;
        D(BigInteger m, int e) { this.m = m; this.e = e; }
    }
    static final D DZERO = new D(ZERO, 0);

    static D rnd(D x, boolean up) {
        if (x.m.signum() == 0) return DZERO;
        int b = x.m.abs().bitLength();
        if (b <= P) return x;
        int s = b - P;
        BigInteger q = x.m.shiftRight(s);                // floor
        if (up && x.m.getLowestSetBit() < s) q = q.add(ONE);
        return new D(q, x.e + s);
    }
    static D add(D a, D b) {
        if (a.m.signum() == 0) return b;
        if (b.m.signum() == 0) return a;
        // keep the exponent difference sane: beyond 400 bits the smaller one only matters by sign
        if (a.e - b.e > 4000 || b.e - a.e > 4000) throw new IllegalStateException("Fx: exponent range");
        if (a.e >= b.e) return new D(a.m.shiftLeft(a.e - b.e).add(b.m), b.e);
        return new D(b.m.shiftLeft(b.e - a.e).add(a.m), a.e);
    }
    static D mul(D a, D b) { return new D(a.m.multiply(b.m), a.e + b.e); }
    static int cmp(D a, D b) { return add(a, new D(b.m.negate(), b.e)).m.signum(); }
    static D div(D a, D b, boolean up) {
        if (a.m.signum() == 0) return DZERO;
        int s = P + 4 + Math.max(0, b.m.bitLength() - a.m.bitLength());
        BigInteger[] qr = a.m.shiftLeft(s).divideAndRemainder(b.m);
        BigInteger q = qr[0];
        if (qr[1].signum() != 0) {
            boolean neg = (a.m.signum() < 0) != (b.m.signum() < 0);
            if (neg && !up) q = q.subtract(ONE);
            if (!neg && up) q = q.add(ONE);
        }
        return rnd(new D(q, a.e - b.e - s), up);
    }
    static D sqrt(D a, boolean up) {                     // a >= 0
        if (a.m.signum() == 0) return DZERO;
        BigInteger m = a.m; int e = a.e;
        int s = Math.max(0, 2 * P + 4 - m.bitLength());
        if (((e - s) & 1) != 0) s++;
        m = m.shiftLeft(s); e -= s;
        BigInteger r = m.sqrt();
        if (up && r.multiply(r).compareTo(m) != 0) r = r.add(ONE);
        return rnd(new D(r, e / 2), up);
    }

    static final class I {
        final int k; final D l, h;
        I(int k, D l, D h) { this.k = k; this.l = l; this.h = h; }
    }
    static final I ANY = new I(1, DZERO, DZERO), NAN = new I(2, DZERO, DZERO), INF = new I(3, DZERO, DZERO);
    static boolean zero(I x) { return x.k == 0 && x.l.m.signum() == 0 && x.h.m.signum() == 0; }

    static I mk(D l, D h) { return new I(0, rnd(l, false), rnd(h, true)); }

    static int mag(D d) { return d.m.signum() == 0 ? Integer.MIN_VALUE : d.m.abs().bitLength() + d.e; }

    static final D TINY = new D(ONE, -126);
    // what an f32 operation may return when the exact result is in x
    static I w(I x) {
        if (x.k != 0 || zero(x)) return x;
        if (mag(x.l) > EMAX || mag(x.h) > EMAX) return ANY;
        D dl = new D(x.l.m.abs(), x.l.e - W), dh = new D(x.h.m.abs(), x.h.e - W);
        D l = add(x.l, new D(dl.m.negate(), dl.e)), h = add(x.h, dh);
        // underflow to zero or to a subnormal number
        if (mag(x.l) < -100 || mag(x.h) < -100) {
            l = add(l, new D(ONE.negate(), -126)); h = add(h, TINY);
        }
        return mk(l, h);
    }

    static I iadd(I a, I b) {
        if (a.k == 2 || b.k == 2) return NAN;
        if (a.k == 3 || b.k == 3) return INF;
        if (a.k == 1 || b.k == 1) return ANY;
        return mk(add(a.l, b.l), add(a.h, b.h));
    }
    static I ineg(I a) {
        if (a.k != 0) return a;
        return new I(0, new D(a.h.m.negate(), a.h.e), new D(a.l.m.negate(), a.l.e));
    }
    static I imul(I a, I b) {
        if (a.k == 2 || b.k == 2) return NAN;
        if (a.k == 3 || b.k == 3) return INF;
        if (a.k == 1 || b.k == 1) return ANY;
        D[] p = { mul(a.l, b.l), mul(a.l, b.h), mul(a.h, b.l), mul(a.h, b.h) };
        D l = p[0], h = p[0];
        for (int i = 1; i < 4; i++) { if (cmp(p[i], l) < 0) l = p[i]; if (cmp(p[i], h) > 0) h = p[i]; }
        return mk(l, h);
    }
    static I idiv(I a, I b) {
        if (a.k == 2 || b.k == 2) return NAN;
        if (a.k == 3 || zero(b)) return INF;             // 0/0 is not a number, x/0 an infinity
        if (a.k == 1 || b.k != 0) return ANY;            // something finite by an infinity is zero
        if (b.l.m.signum() <= 0 && b.h.m.signum() >= 0) return ANY;
        D[] lo = { div(a.l, b.l, false), div(a.l, b.h, false), div(a.h, b.l, false), div(a.h, b.h, false) };
        D[] hi = { div(a.l, b.l, true), div(a.l, b.h, true), div(a.h, b.l, true), div(a.h, b.h, true) };
        D l = lo[0], h = hi[0];
        for (int i = 1; i < 4; i++) { if (cmp(lo[i], l) < 0) l = lo[i]; if (cmp(hi[i], h) > 0) h = hi[i]; }
        return mk(l, h);
    }
    static I isqrt(I a) {
        if (a.k != 0) return a;
        if (a.h.m.signum() < 0) return NAN;
        if (a.l.m.signum() < 0) return ANY;
        return mk(sqrt(a.l, false), sqrt(a.h, true));
    }
    static I ipow(I a, int n) {
        if (a.k != 0) return a;
        if (n % 2 == 0 && a.l.m.signum() < 0 && a.h.m.signum() > 0) {
            D m = cmp(new D(a.l.m.negate(), a.l.e), a.h) > 0 ? new D(a.l.m.negate(), a.l.e) : a.h;
            return mk(DZERO, pow(m, n));
        }
        D x = pow(a.l, n), y = pow(a.h, n);
        return cmp(x, y) <= 0 ? mk(x, y) : mk(y, x);
    }
    static D pow(D a, int n) { return new D(a.m.pow(n), a.e * n); }

    // ---- conversion ----
    static int iv(Value v) { return ((IntValue) v.normalize()).val; }
    static final BigInteger LIMB = BigInteger.valueOf(1L << 30);
    static D d(int e, int m1, int m0) {
        return new D(BigInteger.valueOf(((long) m1) * (1L << 30) + m0), e);
    }
    static I in(Value v) {
        Value[] t = ((TupleValue) v.toTuple()).elems;
        int k = iv(t[0]);
        if (k == 1) return ANY;
        if (k == 2) return NAN;
        if (k == 3) return INF;
        return new I(0, d(iv(t[1]), iv(t[2]), iv(t[3])), d(iv(t[4]), iv(t[5]), iv(t[6])));
    }
    static final IntValue Z = IntValue.gen(0);
    static Value out(I x) {
        Value[] t = new Value[7];
        t[0] = IntValue.gen(x.k);
        long l = x.l.m.longValueExact(), h = x.h.m.longValueExact();
        t[1] = IntValue.gen(x.l.e); t[2] = IntValue.gen((int) (l / (1L << 30))); t[3] = IntValue.gen((int) (l % (1L << 30)));
        t[4] = IntValue.gen(x.h.e); t[5] = IntValue.gen((int) (h / (1L << 30))); t[6] = IntValue.gen((int) (h % (1L << 30)));
        return new TupleValue(t);
    }

    // ---- the operators of Fx.tla ----
    public static Value FxDyadic(Value m, Value e) {
        D x = new D(BigInteger.valueOf(iv(m)), iv(e));
        if (x.m.signum() == 0) x = DZERO;
        return out(new I(0, x, x));
    }
    // an f32 given as its 32-bit pattern (a TLC integer)
    static I f32(int bits) {
        int ex = (bits >>> 23) & 0xFF, fr = bits & 0x7FFFFF;
        if (ex == 255) return fr == 0 ? INF : NAN;
        long m = ex == 0 ? fr : (fr | 0x800000);
        if (bits < 0) m = -m;
        if (m == 0) return new I(0, DZERO, DZERO);
        D x = new D(BigInteger.valueOf(m), (ex == 0 ? 1 : ex) - 150);
        return new I(0, x, x);
    }
    static boolean isNan(int bits) { return ((bits >>> 23) & 0xFF) == 255 && (bits & 0x7FFFFF) != 0; }
    static boolean isFinite(int bits) { return ((bits >>> 23) & 0xFF) != 255; }
    public static Value FxF32(Value v) { return out(f32(iv(v))); }
    public static Value FxInt(Value v) {
        D x = new D(BigInteger.valueOf(iv(v)), 0);
        return out(new I(0, x, x));
    }
    public static Value XAdd(Value a, Value b) { return out(iadd(in(a), in(b))); }
    public static Value XSub(Value a, Value b) { return out(iadd(in(a), ineg(in(b)))); }
    public static Value XMul(Value a, Value b) { return out(imul(in(a), in(b))); }
    public static Value XDiv(Value a, Value b) { return out(idiv(in(a), in(b))); }
    public static Value XSqrt(Value a) { return out(isqrt(in(a))); }
    public static Value XPow(Value a, Value n) { return out(ipow(in(a), iv(n))); }
    public static Value XNeg(Value a) { return out(ineg(in(a))); }
    public static Value RAdd(Value a, Value b) { return out(w(iadd(in(a), in(b)))); }
    public static Value RSub(Value a, Value b) { return out(w(iadd(in(a), ineg(in(b))))); }
    public static Value RMul(Value a, Value b) { return out(w(imul(in(a), in(b)))); }
    public static Value RDiv(Value a, Value b) { return out(w(idiv(in(a), in(b)))); }
    public static Value RPow(Value a, Value n) { return out(w(w(ipow(in(a), iv(n))))); }
    public static Value RRoot4(Value a) { return out(w(w(isqrt(isqrt(in(a)))))); }
    public static Value Widen(Value a) { return out(w(in(a))); }

    // x widened on both sides by 2^-n times the largest magnitude in y
    public static Value Slack(Value a, Value b, Value n) {
        I x = in(a), y = in(b);
        if (x.k != 0) return a;
        if (y.k != 0) return out(ANY);
        D m = magMax(y);
        D s = new D(m.m, m.e - iv(n));
        return out(mk(add(x.l, new D(s.m.negate(), s.e)), add(x.h, s)));
    }
    static D magMax(I y) {
        D al = new D(y.l.m.abs(), y.l.e), ah = new D(y.h.m.abs(), y.h.e);
        return cmp(al, ah) > 0 ? al : ah;
    }
    // may the f32 with the given bits be the result described by x?
    static boolean contains(I i, int bits) {
        if (i.k == 1) return true;
        if (i.k == 2) return isNan(bits);
        if (i.k == 3) return !isFinite(bits);
        if (!isFinite(bits)) return false;
        D y = f32(bits).l;
        return cmp(i.l, y) <= 0 && cmp(y, i.h) <= 0;
    }
    public static Value Contains(Value x, Value v) {
        return contains(in(x), iv(v)) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    // does the f32 with the given bits equal the (exact) number x up to a few roundings?
    static final D NEARABS = new D(ONE, -110);
    public static Value Near(Value a, Value v) {
        I x = in(a);
        if (x.k != 0) return contains(x, iv(v)) ? BoolValue.ValTrue : BoolValue.ValFalse;
        if (mag(x.l) > 126 || mag(x.h) > 126) return BoolValue.ValTrue;
        D m = magMax(x);
        D s = add(new D(m.m, m.e - 20), NEARABS);
        return contains(new I(0, add(x.l, new D(s.m.negate(), s.e)), add(x.h, s)), iv(v))
            ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    // is x so precisely known that Contains is a meaningful test? width <= 2^-n * magnitude, or <= 2^-m absolute
    public static Value Tight(Value x, Value n, Value m) {
        I i = in(x);
        if (i.k >= 2) return BoolValue.ValTrue;
        if (i.k == 1) return BoolValue.ValFalse;
        D wd = add(i.h, new D(i.l.m.negate(), i.l.e));
        D al = new D(i.l.m.abs(), i.l.e), ah = new D(i.h.m.abs(), i.h.e);
        D mg = cmp(al, ah) > 0 ? al : ah;
        boolean ok = cmp(wd, new D(mg.m, mg.e - iv(n))) <= 0 || cmp(wd, new D(ONE, -iv(m))) <= 0;
        return ok ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
}
