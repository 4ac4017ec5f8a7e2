import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Java evaluation of the operators of spec/CLin.tla (same functions, same rounding). */
public class CLinOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    public Class[] get() { return new Class[]{CLinOverrides.class}; }

    static final long MX = 2147483647L;
    static int sat(long x) { return x > MX ? (int) MX : (x < -MX ? (int) -MX : (int) x); }
    static int fm(int a, int b) { return sat(((long) a * (long) b + (1L << 23)) >> 24); }
    static TupleValue tup(Value v) {
        if (v instanceof TupleValue) return (TupleValue) v;
        return (TupleValue) v.toTuple();
    }
    static int iv(Value v) { return ((IntValue) v).val; }
    static Value cv(int r, int i) { return new TupleValue(new Value[]{IntValue.gen(r), IntValue.gen(i)}); }

    static final class M { final int n, m; final int[] re, im;
        M(int n, int m) { this.n = n; this.m = m; re = new int[n * m]; im = new int[n * m]; } }
    static M mat(Value v) {
        TupleValue a = tup(v);
        int n = a.elems.length;
        TupleValue r0 = tup(a.elems[0]);
        int m = r0.elems.length;
        M x = new M(n, m);
        for (int i = 0; i < n; i++) {
            TupleValue r = tup(a.elems[i]);
            for (int j = 0; j < m; j++) {
                TupleValue c = tup(r.elems[j]);
                x.re[i * m + j] = iv(c.elems[0]);
                x.im[i * m + j] = iv(c.elems[1]);
            }
        }
        return x;
    }
    static Value val(M x) {
        Value[] rows = new Value[x.n];
        for (int i = 0; i < x.n; i++) {
            Value[] row = new Value[x.m];
            for (int j = 0; j < x.m; j++) row[j] = cv(x.re[i * x.m + j], x.im[i * x.m + j]);
            rows[i] = new TupleValue(row);
        }
        return new TupleValue(rows);
    }

    @TLAPlusOperator(identifier = "RMul", module = "CLin", warn = false)
    public static Value rmul(final Value a, final Value b) { return IntValue.gen(fm(iv(a), iv(b))); }
    @TLAPlusOperator(identifier = "RAdd", module = "CLin", warn = false)
    public static Value radd(final Value a, final Value b) { return IntValue.gen(sat((long) iv(a) + iv(b))); }
    @TLAPlusOperator(identifier = "RSub", module = "CLin", warn = false)
    public static Value rsub(final Value a, final Value b) { return IntValue.gen(sat((long) iv(a) - iv(b))); }
    @TLAPlusOperator(identifier = "RDiv", module = "CLin", warn = false)
    public static Value rdiv(final Value a, final Value b) {
        long x = iv(a), y = iv(b);
        if (y == 0) return IntValue.gen((int) MX);
        if (y < 0) { x = -x; y = -y; }
        return IntValue.gen(sat(Math.floorDiv(x << 24, y)));
    }
    @TLAPlusOperator(identifier = "CMul", module = "CLin", warn = false)
    public static Value cmul(final Value x, final Value y) {
        TupleValue a = tup(x), b = tup(y);
        int ar = iv(a.elems[0]), ai = iv(a.elems[1]), br = iv(b.elems[0]), bi = iv(b.elems[1]);
        return cv(sat((long) fm(ar, br) - fm(ai, bi)), sat((long) fm(ar, bi) + fm(ai, br)));
    }
    @TLAPlusOperator(identifier = "MMul", module = "CLin", warn = false)
    public static Value mmul(final Value A, final Value B) {
        M a = mat(A), b = mat(B);
        M c = new M(a.n, b.m);
        int K = b.n;
        for (int i = 0; i < a.n; i++)
            for (int l = 0; l < K; l++) {
                int xr = a.re[i * a.m + l], xi = a.im[i * a.m + l];
                for (int j = 0; j < b.m; j++) {
                    int yr = b.re[l * b.m + j], yi = b.im[l * b.m + j];
                    int o = i * b.m + j;
                    c.re[o] = sat((long) c.re[o] + sat((long) fm(xr, yr) - fm(xi, yi)));
                    c.im[o] = sat((long) c.im[o] + sat((long) fm(xr, yi) + fm(xi, yr)));
                }
            }
        return val(c);
    }
    @TLAPlusOperator(identifier = "MAdd", module = "CLin", warn = false)
    public static Value madd(final Value A, final Value B) {
        M a = mat(A), b = mat(B); M c = new M(a.n, a.m);
        for (int i = 0; i < a.n; i++) for (int j = 0; j < a.m; j++) {
            c.re[i*a.m+j] = sat((long) a.re[i*a.m+j] + b.re[i*b.m+j]);
            c.im[i*a.m+j] = sat((long) a.im[i*a.m+j] + b.im[i*b.m+j]); }
        return val(c);
    }
    @TLAPlusOperator(identifier = "MSub", module = "CLin", warn = false)
    public static Value msub(final Value A, final Value B) {
        M a = mat(A), b = mat(B); M c = new M(a.n, a.m);
        for (int i = 0; i < a.n; i++) for (int j = 0; j < a.m; j++) {
            c.re[i*a.m+j] = sat((long) a.re[i*a.m+j] - b.re[i*b.m+j]);
            c.im[i*a.m+j] = sat((long) a.im[i*a.m+j] - b.im[i*b.m+j]); }
        return val(c);
    }
    @TLAPlusOperator(identifier = "MScale", module = "CLin", warn = false)
    public static Value mscale(final Value s, final Value A) {
        TupleValue x = tup(s); int xr = iv(x.elems[0]), xi = iv(x.elems[1]);
        M a = mat(A); M c = new M(a.n, a.m);
        for (int o = 0; o < a.re.length; o++) {
            c.re[o] = sat((long) fm(xr, a.re[o]) - fm(xi, a.im[o]));
            c.im[o] = sat((long) fm(xr, a.im[o]) + fm(xi, a.re[o])); }
        return val(c);
    }
    @TLAPlusOperator(identifier = "MConj", module = "CLin", warn = false)
    public static Value mconj(final Value A) {
        M a = mat(A); M c = new M(a.n, a.m);
        for (int o = 0; o < a.re.length; o++) { c.re[o] = a.re[o]; c.im[o] = -a.im[o]; }
        return val(c);
    }
    @TLAPlusOperator(identifier = "MTr", module = "CLin", warn = false)
    public static Value mtr(final Value A) {
        M a = mat(A); M c = new M(a.m, a.n);
        for (int i = 0; i < a.n; i++) for (int j = 0; j < a.m; j++) {
            c.re[j*a.n+i] = a.re[i*a.m+j]; c.im[j*a.n+i] = a.im[i*a.m+j]; }
        return val(c);
    }
    @TLAPlusOperator(identifier = "MAdj", module = "CLin", warn = false)
    public static Value madj(final Value A) {
        M a = mat(A); M c = new M(a.m, a.n);
        for (int i = 0; i < a.n; i++) for (int j = 0; j < a.m; j++) {
            c.re[j*a.n+i] = a.re[i*a.m+j]; c.im[j*a.n+i] = -a.im[i*a.m+j]; }
        return val(c);
    }
    @TLAPlusOperator(identifier = "MKron", module = "CLin", warn = false)
    public static Value mkron(final Value A, final Value B) {
        M a = mat(A), b = mat(B); M c = new M(a.n * b.n, a.m * b.m);
        for (int i = 0; i < c.n; i++) for (int j = 0; j < c.m; j++) {
            int x = (i / b.n) * a.m + j / b.m, y = (i % b.n) * b.m + j % b.m, o = i * c.m + j;
            c.re[o] = sat((long) fm(a.re[x], b.re[y]) - fm(a.im[x], b.im[y]));
            c.im[o] = sat((long) fm(a.re[x], b.im[y]) + fm(a.im[x], b.re[y])); }
        return val(c);
    }
    @TLAPlusOperator(identifier = "MDist", module = "CLin", warn = false)
    public static Value mdist(final Value A, final Value B) {
        M a = mat(A), b = mat(B);
        if (a.n != b.n || a.m != b.m) return IntValue.gen((int) MX);
        int d = 0;
        for (int o = 0; o < a.re.length; o++) {
            d = Math.max(d, Math.abs(sat((long) a.re[o] - b.re[o])));
            d = Math.max(d, Math.abs(sat((long) a.im[o] - b.im[o]))); }
        return IntValue.gen(d);
    }
    @TLAPlusOperator(identifier = "MNorm2", module = "CLin", warn = false)
    public static Value mnorm2(final Value A) {
        M a = mat(A); int tot = 0;
        for (int i = 0; i < a.n; i++) { int s = 0;
            for (int j = 0; j < a.m; j++) { int o = i*a.m+j;
                s = sat((long) s + sat((long) fm(a.re[o], a.re[o]) + fm(a.im[o], a.im[o]))); }
            tot = sat((long) tot + s); }
        return IntValue.gen(tot);
    }
    @TLAPlusOperator(identifier = "MDot", module = "CLin", warn = false)
    public static Value mdot(final Value A, final Value B) {
        M a = mat(A), b = mat(B); int tr = 0, ti = 0;
        for (int i = 0; i < a.n; i++) { int sr = 0, si = 0;
            for (int j = 0; j < a.m; j++) { int o = i*a.m+j, p = i*b.m+j;
                sr = sat((long) sr + sat((long) fm(a.re[o], b.re[p]) - fm(-a.im[o], b.im[p])));
                si = sat((long) si + sat((long) fm(a.re[o], b.im[p]) + fm(-a.im[o], b.re[p]))); }
            tr = sat((long) tr + sr); ti = sat((long) ti + si); }
        return cv(tr, ti);
    }
}
