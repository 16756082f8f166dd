// Accelerated twins of TLA+ operators of /verif/spec (modules BigInt, Ring, Fx,
// Zq).  Each one has an executable TLA+ definition in its module; MC_BigInt and
// MC_Ring check the two against each other.
import java.io.RandomAccessFile;
import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class FalconOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  @Override
  public Class[] get() {
    return new Class[] { FalconOverrides.class };
  }

  static TupleValue tup(Value v) {
    if (v instanceof TupleValue) return (TupleValue) v;
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("tuple expected: " + v.toString().substring(0, 80));
    return (TupleValue) t;
  }
  static int iv(Value v) { return ((IntValue) v).val; }
  static BigInteger big(Value v) {
    Value[] e = tup(v).elems;
    int s = iv(e[0]);
    if (s == 0) return BigInteger.ZERO;
    int k = e.length - 1;
    if (k <= 4) {
      long m = 0;
      for (int i = k; i >= 1; i--) m = (m << 15) | iv(e[i]);
      return BigInteger.valueOf(s < 0 ? -m : m);
    }
    int nbits = 15 * k, nb = (nbits + 7) / 8;
    byte[] mag = new byte[nb];
    long acc = 0; int have = 0, o = nb - 1;
    for (int i = 1; i <= k; i++) {
      acc |= ((long) iv(e[i])) << have; have += 15;
      while (have >= 8) { mag[o--] = (byte) acc; acc >>>= 8; have -= 8; }
    }
    if (have > 0 && o >= 0) mag[o--] = (byte) acc;
    return new BigInteger(s, mag);
  }
  static final IntValue M1 = IntValue.gen(-1), Z0 = IntValue.gen(0), P1 = IntValue.gen(1);
  static final TupleValue ZERO = new TupleValue(new Value[] { Z0 });
  static TupleValue val(BigInteger b) {
    int s = b.signum();
    if (s == 0) return ZERO;
    BigInteger a = b.abs();
    int k = (a.bitLength() + 14) / 15;
    Value[] e = new Value[k + 1];
    e[0] = s < 0 ? M1 : P1;
    if (a.bitLength() <= 62) {
      long m = a.longValue();
      for (int i = 1; i <= k; i++) { e[i] = IntValue.gen((int) (m & 32767)); m >>>= 15; }
    } else {
      byte[] m = a.toByteArray(); // big endian
      long acc = 0; int have = 0, p = m.length - 1;
      for (int i = 1; i <= k; i++) {
        while (have < 15 && p >= 0) { acc |= ((long) (m[p--] & 255)) << have; have += 8; }
        e[i] = IntValue.gen((int) (acc & 32767)); acc >>>= 15; have -= 15;
      }
    }
    return new TupleValue(e);
  }
  static BigInteger floorDiv(BigInteger a, BigInteger b) {
    BigInteger[] qr = a.divideAndRemainder(b);
    if (qr[1].signum() != 0 && (qr[1].signum() != b.signum())) return qr[0].subtract(BigInteger.ONE);
    return qr[0];
  }

  @TLAPlusOperator(identifier = "BFromInt", module = "BigInt", warn = false)
  public static Value bFromInt(final Value n) { return val(BigInteger.valueOf(iv(n))); }
  @TLAPlusOperator(identifier = "BAdd", module = "BigInt", warn = false)
  public static Value bAdd(final Value a, final Value b) { return val(big(a).add(big(b))); }
  @TLAPlusOperator(identifier = "BNeg", module = "BigInt", warn = false)
  public static Value bNeg(final Value a) { return val(big(a).negate()); }
  @TLAPlusOperator(identifier = "BSub", module = "BigInt", warn = false)
  public static Value bSub(final Value a, final Value b) { return val(big(a).subtract(big(b))); }
  @TLAPlusOperator(identifier = "BMul", module = "BigInt", warn = false)
  public static Value bMul(final Value a, final Value b) { return val(big(a).multiply(big(b))); }
  @TLAPlusOperator(identifier = "BCmp", module = "BigInt", warn = false)
  public static Value bCmp(final Value a, final Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
  @TLAPlusOperator(identifier = "BFloorDiv", module = "BigInt", warn = false)
  public static Value bFloorDiv(final Value a, final Value b) { return val(floorDiv(big(a), big(b))); }
  @TLAPlusOperator(identifier = "BShl", module = "BigInt", warn = false)
  public static Value bShl(final Value a, final Value k) { return val(big(a).shiftLeft(iv(k))); }
  @TLAPlusOperator(identifier = "BShr", module = "BigInt", warn = false)
  public static Value bShr(final Value a, final Value k) { return val(big(a).shiftRight(iv(k))); }
  @TLAPlusOperator(identifier = "BISqrt", module = "BigInt", warn = false)
  public static Value bISqrt(final Value a) { return val(big(a).sqrt()); }
  @TLAPlusOperator(identifier = "BToInt", module = "BigInt", warn = false)
  public static Value bToInt(final Value a) {
    BigInteger b = big(a);
    return IntValue.gen(b.bitLength() <= 31 ? b.intValue() == Integer.MIN_VALUE ? -2147483647 : b.intValue() : b.signum() * 2147483647);
  }
  @TLAPlusOperator(identifier = "BBitLen", module = "BigInt", warn = false)
  public static Value bBitLen(final Value a) { return IntValue.gen(big(a).abs().bitLength()); }

  // ---- Ring
  static int[] ints(Value v) {
    Value[] e = tup(v).elems; int[] r = new int[e.length];
    for (int i = 0; i < r.length; i++) r[i] = iv(e[i]);
    return r;
  }
  static Value ofInts(long[] r) {
    Value[] e = new Value[r.length];
    for (int i = 0; i < r.length; i++) e[i] = IntValue.gen(Math.toIntExact(r[i]));
    return new TupleValue(e);
  }
  @TLAPlusOperator(identifier = "RingMulQ", module = "Ring", warn = false)
  public static Value ringMulQ(final Value f, final Value g, final Value qv) {
    int[] a = ints(f), b = ints(g); int n = a.length; long q = iv(qv);
    long[] r = new long[n];
    for (int i = 0; i < n; i++) {
      if (a[i] == 0) continue;
      long x = Math.floorMod((long) a[i], q);
      for (int j = 0; j < n; j++) {
        long p = x * Math.floorMod((long) b[j], q);
        int k = i + j;
        if (k < n) r[k] = (r[k] + p) % q; else r[k - n] = (r[k - n] + q * q - p) % q;
      }
    }
    return ofInts(r);
  }
  @TLAPlusOperator(identifier = "RingMulZ", module = "Ring", warn = false)
  public static Value ringMulZ(final Value f, final Value g) {
    int[] a = ints(f), b = ints(g); int n = a.length;
    long[] r = new long[n];
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        long p = (long) a[i] * b[j]; int k = i + j;
        if (k < n) r[k] += p; else r[k - n] -= p;
      }
    return ofInts(r);
  }
  static BigInteger[] bigs(Value v) {
    Value[] e = tup(v).elems; BigInteger[] r = new BigInteger[e.length];
    for (int i = 0; i < r.length; i++) r[i] = big(e[i]);
    return r;
  }
  // Kronecker substitution: pack both polynomials into one integer each
  static BigInteger pack(BigInteger[] a, int w) {
    // divide and conquer sum a[i] 2^(w i), signed
    return pack(a, 0, a.length, w);
  }
  static BigInteger pack(BigInteger[] a, int lo, int hi, int w) {
    if (hi - lo == 1) return a[lo];
    int m = (lo + hi) / 2;
    return pack(a, lo, m, w).add(pack(a, m, hi, w).shiftLeft(w * (m - lo)));
  }
  static void unpack(BigInteger p, int n, int w, BigInteger[] out, int off) {
    // signed digits of p, base 2^w, n of them
    if (n == 1) { out[off] = p; return; }
    int m = n / 2; int k = w * m;
    BigInteger mask = BigInteger.ONE.shiftLeft(k).subtract(BigInteger.ONE);
    BigInteger lo = p.and(mask);
    if (lo.testBit(k - 1)) lo = lo.subtract(BigInteger.ONE.shiftLeft(k));
    BigInteger hi = p.subtract(lo).shiftRight(k);
    unpack(lo, m, w, out, off); unpack(hi, n - m, w, out, off + m);
  }
  @TLAPlusOperator(identifier = "RingMulB", module = "Ring", warn = false)
  public static Value ringMulB(final Value f, final Value g) {
    BigInteger[] a = bigs(f), b = bigs(g); int n = a.length;
    int ba = 1, bb = 1;
    for (BigInteger x : a) ba = Math.max(ba, x.bitLength());
    for (BigInteger x : b) bb = Math.max(bb, x.bitLength());
    int w = ba + bb + 34 - Integer.numberOfLeadingZeros(n);
    BigInteger p = pack(a, w).multiply(pack(b, w));
    BigInteger[] c = new BigInteger[2 * n];
    unpack(p, 2 * n, w, c, 0);
    Value[] e = new Value[n];
    for (int i = 0; i < n; i++) e[i] = val(c[i].subtract(c[i + n]));
    return new TupleValue(e);
  }
  @TLAPlusOperator(identifier = "EvalAllQ", module = "Ring", warn = false)
  public static Value evalAllQ(final Value f, final Value xs, final Value qv) {
    int[] a = ints(f), x = ints(xs); long q = iv(qv); long[] r = new long[x.length];
    for (int i = 0; i < x.length; i++) {
      long acc = 0;
      for (int j = a.length - 1; j >= 0; j--) acc = Math.floorMod(acc * x[i] + a[j], q);
      r[i] = acc;
    }
    return ofInts(r);
  }

  // ---- Fx: fixed-point complex numbers <<re, im>>, scale 2^-75
  static final int S = 75;
  static BigInteger[] cx(Value v) { Value[] e = tup(v).elems; return new BigInteger[] { big(e[0]), big(e[1]) }; }
  static Value cv(BigInteger re, BigInteger im) { return new TupleValue(new Value[] { val(re), val(im) }); }
  @TLAPlusOperator(identifier = "CMul", module = "Fx", warn = false)
  public static Value cMul(final Value a, final Value b) {
    BigInteger[] x = cx(a), y = cx(b);
    return cv(x[0].multiply(y[0]).subtract(x[1].multiply(y[1])).shiftRight(S),
              x[0].multiply(y[1]).add(x[1].multiply(y[0])).shiftRight(S));
  }
  @TLAPlusOperator(identifier = "CAdd", module = "Fx", warn = false)
  public static Value cAdd(final Value a, final Value b) {
    BigInteger[] x = cx(a), y = cx(b);
    return cv(x[0].add(y[0]), x[1].add(y[1]));
  }
  @TLAPlusOperator(identifier = "CSub", module = "Fx", warn = false)
  public static Value cSub(final Value a, final Value b) {
    BigInteger[] x = cx(a), y = cx(b);
    return cv(x[0].subtract(y[0]), x[1].subtract(y[1]));
  }
  @TLAPlusOperator(identifier = "CConj", module = "Fx", warn = false)
  public static Value cConj(final Value a) { BigInteger[] x = cx(a); return cv(x[0], x[1].negate()); }
  @TLAPlusOperator(identifier = "CHalf", module = "Fx", warn = false)
  public static Value cHalf(final Value a) { BigInteger[] x = cx(a); return cv(x[0].shiftRight(1), x[1].shiftRight(1)); }
  @TLAPlusOperator(identifier = "CDiv", module = "Fx", warn = false)
  public static Value cDiv(final Value a, final Value b) {
    BigInteger[] x = cx(a), y = cx(b);
    BigInteger d = y[0].multiply(y[0]).add(y[1].multiply(y[1]));
    BigInteger re = x[0].multiply(y[0]).add(x[1].multiply(y[1]));
    BigInteger im = x[1].multiply(y[0]).subtract(x[0].multiply(y[1]));
    return cv(floorDiv(re.shiftLeft(S), d), floorDiv(im.shiftLeft(S), d));
  }

  // ---- CFFT: vectors of complex fixed-point numbers (re, im interleaved)
  static BigInteger[] vec(Value v) {
    Value[] e = tup(v).elems; BigInteger[] r = new BigInteger[2 * e.length];
    for (int i = 0; i < e.length; i++) { Value[] z = tup(e[i]).elems; r[2 * i] = big(z[0]); r[2 * i + 1] = big(z[1]); }
    return r;
  }
  static Value ofVec(BigInteger[] r) {
    Value[] e = new Value[r.length / 2];
    for (int i = 0; i < e.length; i++) e[i] = cv(r[2 * i], r[2 * i + 1]);
    return new TupleValue(e);
  }
  static final java.util.Map<Value, BigInteger[]> tabs = java.util.Collections.synchronizedMap(new java.util.IdentityHashMap<>());
  static BigInteger[] tab(Value v) {
    BigInteger[] t = tabs.get(v);
    if (t == null) { t = vec(v); if (tabs.size() < 64) tabs.put(v, t); }
    return t;
  }
  static BigInteger mre(BigInteger a, BigInteger b, BigInteger c, BigInteger d) { return a.multiply(c).subtract(b.multiply(d)).shiftRight(S); }
  static BigInteger mim(BigInteger a, BigInteger b, BigInteger c, BigInteger d) { return a.multiply(d).add(b.multiply(c)).shiftRight(S); }
  static int zi(int n, int k) { return ((2 * k + 1) * (1024 / n)) % 2048; }
  static BigInteger[] merge(BigInteger[] e, BigInteger[] o, BigInteger[] t) {
    int n = e.length, h = n / 2; BigInteger[] r = new BigInteger[2 * n];
    for (int k = 0; k < n; k++) {
      int z = zi(n, k), j = k % h;
      r[2 * k] = e[2 * j].add(mre(t[2 * z], t[2 * z + 1], o[2 * j], o[2 * j + 1]));
      r[2 * k + 1] = e[2 * j + 1].add(mim(t[2 * z], t[2 * z + 1], o[2 * j], o[2 * j + 1]));
    }
    return r;
  }
  static BigInteger[] sEven(BigInteger[] v) {
    int h = v.length / 4; BigInteger[] r = new BigInteger[2 * h];
    for (int k = 0; k < h; k++) {
      r[2 * k] = v[2 * k].add(v[2 * (k + h)]).shiftRight(1);
      r[2 * k + 1] = v[2 * k + 1].add(v[2 * (k + h) + 1]).shiftRight(1);
    }
    return r;
  }
  static BigInteger[] sOdd(BigInteger[] v, BigInteger[] t) {
    int n = v.length / 2, h = n / 2; BigInteger[] r = new BigInteger[2 * h];
    for (int k = 0; k < h; k++) {
      BigInteger a = v[2 * k].subtract(v[2 * (k + h)]).shiftRight(1), b = v[2 * k + 1].subtract(v[2 * (k + h) + 1]).shiftRight(1);
      int z = zi(n, k); BigInteger c = t[2 * z], d = t[2 * z + 1].negate();
      r[2 * k] = mre(a, b, c, d); r[2 * k + 1] = mim(a, b, c, d);
    }
    return r;
  }
  static BigInteger[] fft(BigInteger[] f, BigInteger[] t) {
    int n = f.length / 2;
    if (n == 1) return f;
    BigInteger[] e = new BigInteger[n], o = new BigInteger[n];
    for (int i = 0; i < n / 2; i++) { e[2 * i] = f[4 * i]; e[2 * i + 1] = f[4 * i + 1]; o[2 * i] = f[4 * i + 2]; o[2 * i + 1] = f[4 * i + 3]; }
    return merge(fft(e, t), fft(o, t), t);
  }
  static BigInteger[] ifft(BigInteger[] v, BigInteger[] t) {
    int n = v.length / 2;
    if (n == 1) return v;
    BigInteger[] e = ifft(sEven(v), t), o = ifft(sOdd(v, t), t), f = new BigInteger[2 * n];
    for (int i = 0; i < n / 2; i++) { f[4 * i] = e[2 * i]; f[4 * i + 1] = e[2 * i + 1]; f[4 * i + 2] = o[2 * i]; f[4 * i + 3] = o[2 * i + 1]; }
    return f;
  }
  @TLAPlusOperator(identifier = "FFTx", module = "CFFT", warn = false)
  public static Value fftx(final Value f, final Value t) { return ofVec(fft(vec(f), tab(t))); }
  @TLAPlusOperator(identifier = "IFFTx", module = "CFFT", warn = false)
  public static Value ifftx(final Value v, final Value t) { return ofVec(ifft(vec(v), tab(t))); }
  @TLAPlusOperator(identifier = "SplitE", module = "CFFT", warn = false)
  public static Value splitE(final Value v) { return ofVec(sEven(vec(v))); }
  @TLAPlusOperator(identifier = "SplitO", module = "CFFT", warn = false)
  public static Value splitO(final Value v, final Value t) { return ofVec(sOdd(vec(v), tab(t))); }
  @TLAPlusOperator(identifier = "MergeEO", module = "CFFT", warn = false)
  public static Value mergeEO(final Value e, final Value o, final Value t) { return ofVec(merge(vec(e), vec(o), tab(t))); }
  @TLAPlusOperator(identifier = "VAdd", module = "CFFT", warn = false)
  public static Value vAdd(final Value a, final Value b) {
    BigInteger[] x = vec(a), y = vec(b); for (int i = 0; i < x.length; i++) x[i] = x[i].add(y[i]); return ofVec(x);
  }
  @TLAPlusOperator(identifier = "VSub", module = "CFFT", warn = false)
  public static Value vSub(final Value a, final Value b) {
    BigInteger[] x = vec(a), y = vec(b); for (int i = 0; i < x.length; i++) x[i] = x[i].subtract(y[i]); return ofVec(x);
  }
  @TLAPlusOperator(identifier = "VMul", module = "CFFT", warn = false)
  public static Value vMul(final Value a, final Value b) {
    BigInteger[] x = vec(a), y = vec(b), r = new BigInteger[x.length];
    for (int i = 0; i < x.length; i += 2) { r[i] = mre(x[i], x[i + 1], y[i], y[i + 1]); r[i + 1] = mim(x[i], x[i + 1], y[i], y[i + 1]); }
    return ofVec(r);
  }
  @TLAPlusOperator(identifier = "VDiv", module = "CFFT", warn = false)
  public static Value vDiv(final Value a, final Value b) {
    BigInteger[] x = vec(a), y = vec(b), r = new BigInteger[x.length];
    for (int i = 0; i < x.length; i += 2) {
      BigInteger d = y[i].multiply(y[i]).add(y[i + 1].multiply(y[i + 1]));
      r[i] = floorDiv(x[i].multiply(y[i]).add(x[i + 1].multiply(y[i + 1])).shiftLeft(S), d);
      r[i + 1] = floorDiv(x[i + 1].multiply(y[i]).subtract(x[i].multiply(y[i + 1])).shiftLeft(S), d);
    }
    return ofVec(r);
  }
  @TLAPlusOperator(identifier = "VConj", module = "CFFT", warn = false)
  public static Value vConj(final Value a) {
    BigInteger[] x = vec(a); for (int i = 1; i < x.length; i += 2) x[i] = x[i].negate(); return ofVec(x);
  }
  @TLAPlusOperator(identifier = "VAbs1", module = "CFFT", warn = false)
  public static Value vAbs1(final Value a) {
    BigInteger s = BigInteger.ZERO; for (BigInteger x : vec(a)) s = s.add(x.abs()); return val(s);
  }
  @TLAPlusOperator(identifier = "VNear", module = "CFFT", warn = false)
  public static Value vNear(final Value a, final Value b, final Value tol) {
    BigInteger[] x = vec(a), y = vec(b); BigInteger t = big(tol);
    if (x.length != y.length) return BoolValue.ValFalse;
    for (int i = 0; i < x.length; i++) if (x[i].subtract(y[i]).abs().compareTo(t) > 0) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  @TLAPlusOperator(identifier = "VNorm2", module = "CFFT", warn = false)
  public static Value vNorm2(final Value a) {
    BigInteger[] x = vec(a); BigInteger s = BigInteger.ZERO;
    for (int i = 0; i < x.length; i += 2) s = s.add(x[i].multiply(x[i]).add(x[i + 1].multiply(x[i + 1])).shiftRight(S));
    return val(floorDiv(s, BigInteger.valueOf(x.length / 2)));
  }
  @TLAPlusOperator(identifier = "FromOrder", module = "CFFT", warn = false)
  public static Value fromOrder(final Value w, final Value lay) {
    Value[] e = tup(w).elems, r = new Value[e.length]; int[] p = ints(lay);
    for (int i = 0; i < p.length; i++) r[p[i]] = e[i];
    return new TupleValue(r);
  }

  // ---- Bin: binary tables of little-endian unsigned 16-bit words
  static final java.util.concurrent.ConcurrentHashMap<String, java.nio.ByteBuffer> maps = new java.util.concurrent.ConcurrentHashMap<>();
  static java.nio.ByteBuffer map(String f) {
    return maps.computeIfAbsent(f, k -> {
      try (RandomAccessFile r = new RandomAccessFile(k, "r")) {
        return r.getChannel().map(java.nio.channels.FileChannel.MapMode.READ_ONLY, 0, r.length()).order(java.nio.ByteOrder.LITTLE_ENDIAN);
      } catch (Exception e) { throw new RuntimeException(e); }
    });
  }
  @TLAPlusOperator(identifier = "ReadU16", module = "Bin", warn = false)
  public static Value readU16(final Value file, final Value row, final Value len) {
    java.nio.ByteBuffer b = map(((StringValue) file).val.toString());
    int n = iv(len); Value[] e = new Value[n]; int off = 2 * n * iv(row);
    for (int i = 0; i < n; i++) e[i] = IntValue.gen(b.getShort(off + 2 * i) & 0xffff);
    return new TupleValue(e);
  }

  // ---- Zq: rows lo..hi of a recorded table that differ from the required one
  @TLAPlusOperator(identifier = "BadRows", module = "Zq", warn = false)
  public static Value badRows(final Value file, final Value fnv, final Value lov, final Value hiv, final Value qv) {
    Value[] av = { file, fnv, lov, hiv, qv };
    java.nio.ByteBuffer t = map(((StringValue) av[0]).val.toString());
    String fn = ((StringValue) av[1]).val.toString();
    int lo = iv(av[2]), hi = iv(av[3]), q = iv(av[4]);
    int[] inv = new int[q];
    if (fn.equals("div"))
      for (int a = 1; a < q; a++) inv[a] = BigInteger.valueOf(a).modInverse(BigInteger.valueOf(q)).intValue();
    java.util.TreeSet<Integer> bad = new java.util.TreeSet<>();
    for (int a = lo; a <= hi; a++)
      for (int b = 0; b < q; b++) {
        int r = t.getShort(2 * (a * q + b)) & 0xffff, w;
        switch (fn) {
          case "add": case "addto": w = (a + b) % q; break;
          case "sub": w = Math.floorMod(a - b, q); break;
          case "mul": case "multo": w = (int) ((long) a * b % q); break;
          case "div": w = b == 0 ? 0 : (int) ((long) a * inv[b] % q); break;
          case "cmp": w = (a == b ? 1 : 0) + (a != b ? 2 : 0) + (a > b ? 4 : 0) + (a >= b ? 8 : 0) + (a < b ? 16 : 0) + (a <= b ? 32 : 0); break;
          default: w = -1;
        }
        if (r != w) { bad.add(a); break; }
      }
    Value[] e = new Value[bad.size()]; int k = 0;
    for (int a : bad) e[k++] = IntValue.gen(a);
    return new tlc2.value.impl.SetEnumValue(e, true);
  }
}
