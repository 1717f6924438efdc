/* Evaluation of the operators of Floats.tla on IEEE double precision numbers, for TLC.
 * A number is the pair <<hi, lo>> of the two 32-bit halves of its bit pattern. */
import tlc2.value.impl.*;

public class Floats {
	static double d(Value v) {
		Value[] e;
		if (v instanceof TupleValue) e = ((TupleValue) v).elems;
		else e = ((TupleValue) v.toTuple()).elems;
		return Double.longBitsToDouble(((long) ((IntValue) e[0]).val << 32) | (((IntValue) e[1]).val & 0xffffffffL));
	}
	static Value v(double x) {
		if (x == 0) x = 0.0;
		long b = Double.doubleToLongBits(x);
		return new TupleValue(new Value[] { IntValue.gen((int) (b >> 32)), IntValue.gen((int) b) });
	}
	static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
	static double[] arr(Value s) {
		Value[] e = ((TupleValue) s.toTuple()).elems;
		double[] r = new double[e.length];
		for (int i = 0; i < r.length; i++) r[i] = d(e[i]);
		return r;
	}
	public static Value FOfInt(Value a) { return v(((IntValue) a).val); }
	public static Value FRat(Value a, Value c) { return v((double) ((IntValue) a).val / (double) ((IntValue) c).val); }
	public static Value FAdd(Value a, Value c) { return v(d(a) + d(c)); }
	public static Value FSub(Value a, Value c) { return v(d(a) - d(c)); }
	public static Value FMul(Value a, Value c) { return v(d(a) * d(c)); }
	public static Value FDiv(Value a, Value c) { return v(d(a) / d(c)); }
	public static Value FAbs(Value a) { return v(Math.abs(d(a))); }
	public static Value FSqrt(Value a) { return v(Math.sqrt(d(a))); }
	public static Value FMax(Value a, Value c) { return v(Math.max(d(a), d(c))); }
	public static Value FMin(Value a, Value c) { return v(Math.min(d(a), d(c))); }
	public static Value FLt(Value a, Value c) { return b(d(a) < d(c)); }
	public static Value FLe(Value a, Value c) { return b(d(a) <= d(c)); }
	public static Value FEq(Value a, Value c) { return b(d(a) == d(c)); }
	public static Value FFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
	static boolean close(double x, double y, double m, double tol) {
		if (Double.isNaN(x) || Double.isNaN(y) || Double.isInfinite(x) || Double.isInfinite(y)) return false;
		return Math.abs(x - y) <= tol * Math.max(m, Math.max(Math.abs(x), Math.abs(y)));
	}
	/* equality up to a relative rounding error of 1e-9 with respect to max(|x|,|y|,|m|) */
	public static Value FCloseM(Value a, Value c, Value m) { return b(close(d(a), d(c), Math.abs(d(m)), 1e-9)); }
	public static Value FClose(Value a, Value c) { return b(close(d(a), d(c), 1.0, 1e-9)); }
	public static Value FLoose(Value a, Value c) { return b(close(d(a), d(c), 1.0, 1e-6)); }
	public static Value FAllClose(Value s, Value t) {
		double[] x = arr(s), y = arr(t);
		if (x.length != y.length) return b(false);
		double m = 1;
		for (double e : y) if (!Double.isNaN(e) && !Double.isInfinite(e)) m = Math.max(m, Math.abs(e));
		for (int i = 0; i < x.length; i++) if (!close(x[i], y[i], m, 1e-9)) return b(false);
		return b(true);
	}
	public static Value FSum(Value s) { double t = 0; for (double x : arr(s)) t += x; return v(t); }
	public static Value FDot(Value s, Value u) {
		double[] x = arr(s), y = arr(u); double t = 0;
		for (int i = 0; i < x.length; i++) t += x[i] * y[i];
		return v(t);
	}
	/* bs x bs row-major matrices as flat sequences */
	static int dim(int l) { int k = 0; while (k * k < l) k++; return k; }
	static Value seq(double[] x) { Value[] e = new Value[x.length]; for (int i = 0; i < x.length; i++) e[i] = v(x[i]); return new TupleValue(e); }
	public static Value FMatMul(Value s, Value u) {
		double[] x = arr(s), y = arr(u); int n = dim(x.length); double[] z = new double[n * n];
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double t = 0; for (int k = 0; k < n; k++) t += x[i*n+k] * y[k*n+j]; z[i*n+j] = t; }
		return seq(z);
	}
	public static Value FMatVec(Value s, Value u) {
		double[] x = arr(s), y = arr(u); int n = y.length; double[] z = new double[n];
		for (int i = 0; i < n; i++) { double t = 0; for (int k = 0; k < n; k++) t += x[i*n+k] * y[k]; z[i] = t; }
		return seq(z);
	}
	public static Value FVecAdd(Value s, Value u) { double[] x = arr(s), y = arr(u), z = new double[x.length]; for (int i = 0; i < z.length; i++) z[i] = x[i] + y[i]; return seq(z); }
	public static Value FVecSub(Value s, Value u) { double[] x = arr(s), y = arr(u), z = new double[x.length]; for (int i = 0; i < z.length; i++) z[i] = x[i] - y[i]; return seq(z); }
	public static Value FMatInv(Value s) {
		double[] a = arr(s).clone(); int n = dim(a.length); double[] r = new double[n * n];
		for (int i = 0; i < n; i++) r[i*n+i] = 1;
		for (int c = 0; c < n; c++) {
			int p = c; for (int i = c; i < n; i++) if (Math.abs(a[i*n+c]) > Math.abs(a[p*n+c])) p = i;
			for (int j = 0; j < n; j++) { double t = a[c*n+j]; a[c*n+j] = a[p*n+j]; a[p*n+j] = t; t = r[c*n+j]; r[c*n+j] = r[p*n+j]; r[p*n+j] = t; }
			double q = a[c*n+c];
			for (int j = 0; j < n; j++) { a[c*n+j] /= q; r[c*n+j] /= q; }
			for (int i = 0; i < n; i++) if (i != c) { double f = a[i*n+c]; if (f != 0) for (int j = 0; j < n; j++) { a[i*n+j] -= f * a[c*n+j]; r[i*n+j] -= f * r[c*n+j]; } }
		}
		return seq(r);
	}
}
