import tlc2.value.impl.*;
import javax.crypto.Cipher;
import javax.crypto.spec.*;

/** Fast evaluation of the operators of module Prim for TLC; definitions are in PrimDef.tla / Rijndael.tla. */
public class Prim {
  static final IntValue[] B = new IntValue[256];
  static { for (int i = 0; i < 256; ++i) B[i] = IntValue.gen(i); }

  static byte[] get(Value v) {
    final TupleValue t = (TupleValue) v.toTuple();
    final byte[] r = new byte[t.elems.length];
    for (int i = 0; i < r.length; ++i) {
      final int x = ((IntValue) t.elems[i]).val;
      if (x < 0 || x > 255) throw new RuntimeException("not a byte: " + x);
      r[i] = (byte) x;
    }
    return r;
  }
  static Value put(byte[] b) {
    final Value[] r = new Value[b.length];
    for (int i = 0; i < r.length; ++i) r[i] = B[b[i] & 255];
    return new TupleValue(r);
  }
  static int num(Value v) { return ((IntValue) v).val; }

  public static Value XorB(Value a, Value b) {
    final TupleValue x = (TupleValue) a.toTuple(), y = (TupleValue) b.toTuple();
    final int n = x.elems.length;
    if (y.elems.length < n) throw new RuntimeException("XorB: length " + n + " / " + y.elems.length);
    final Value[] r = new Value[n];
    for (int i = 0; i < n; ++i) r[i] = B[((IntValue) x.elems[i]).val ^ ((IntValue) y.elems[i]).val];
    return new TupleValue(r);
  }

  public static Value Cat(Value ss) {
    final Value[] t = ((TupleValue) ss.toTuple()).elems;
    int n = 0;
    for (int i = 0; i < t.length; ++i) n += ((TupleValue) (t[i].toTuple())).elems.length;
    final Value[] r = new Value[n];
    n = 0;
    for (int i = 0; i < t.length; ++i) {
      final Value[] e = ((TupleValue) (t[i].toTuple())).elems;
      System.arraycopy(e, 0, r, n, e.length);
      n += e.length;
    }
    return new TupleValue(r);
  }

  public static Value Transpose(Value cols, Value nrows) {
    final TupleValue c = (TupleValue) cols.toTuple();
    final int k = c.elems.length, n = num(nrows);
    final byte[][] in = new byte[k][];
    for (int i = 0; i < k; ++i) in[i] = get(c.elems[i]);
    final Value[] r = new Value[n];
    for (int j = 0; j < n; ++j) {
      final byte[] row = new byte[k / 8];
      for (int i = 0; i < k; ++i) row[i / 8] |= ((in[i][j / 8] >> (j % 8)) & 1) << (i % 8);
      r[j] = put(row);
    }
    return new TupleValue(r);
  }

  // ---- binary fields: little-endian bytes
  static byte[] gfmul(byte[] a, byte[] b) {
    final int n = a.length, w = (n + 7) / 8;
    if (n == 1) {
      int x = a[0] & 255, y = b[0] & 255, r = 0;
      for (int i = 0; i < 8; ++i) { if (((y >> i) & 1) != 0) r ^= x; x <<= 1; if ((x & 256) != 0) x ^= 0x11b; }
      return new byte[] {(byte) r};
    }
    final long[] x = longs(a, w), acc = new long[w];
    long p;
    switch (n) {
      case 8: p = 27; break;
      case 16: case 24: p = 135; break;
      case 32: p = 1 | (1 << 2) | (1 << 5) | (1 << 10); break;
      default: throw new RuntimeException("GfMul length " + n);
    }
    for (int i = 8 * n - 1; i >= 0; --i) {
      long c = 0;
      for (int k = 0; k < w; ++k) { long t = acc[k]; acc[k] = (t << 1) | c; c = t >>> 63; }
      if (c != 0) acc[0] ^= p;
      if (((b[i / 8] >> (i % 8)) & 1) != 0) for (int k = 0; k < w; ++k) acc[k] ^= x[k];
    }
    final byte[] r = new byte[n];
    for (int i = 0; i < n; ++i) r[i] = (byte) (acc[i / 8] >>> (8 * (i % 8)));
    return r;
  }
  static long[] longs(byte[] a, int w) {
    final long[] r = new long[w];
    for (int i = 0; i < a.length; ++i) r[i / 8] |= (a[i] & 255L) << (8 * (i % 8));
    return r;
  }
  public static Value GfMul(Value a, Value b) { return put(gfmul(get(a), get(b))); }

  public static Value RowXor(Value rows, Value n) {
    final Value[] in = ((TupleValue) rows.toTuple()).elems;
    byte[][] r = new byte[in.length][];
    for (int i = 0; i < in.length; ++i) {
      r[i] = get(in[i]);
      if (r[i].length != num(n)) throw new RuntimeException("RowXor: length");
    }
    int d = 0;
    while ((1 << d) < in.length) ++d;
    if ((1 << d) != in.length) throw new RuntimeException("RowXor: not a power of two");
    final Value[] out = new Value[d + 1];
    for (int j = 1; j <= d; ++j) {
      final byte[] v = new byte[num(n)];
      final int half = r.length / 2;
      for (int i = 0; i < half; ++i) {
        final byte[] a = r[2 * i], b = r[2 * i + 1];
        for (int k = 0; k < v.length; ++k) { v[k] ^= b[k]; a[k] ^= b[k]; }
        r[i] = a;
      }
      final byte[][] s = new byte[half][];
      System.arraycopy(r, 0, s, 0, half);
      r = s;
      out[j] = put(v);
    }
    out[0] = put(r[0]);
    return new TupleValue(out);
  }
  public static Value Horner(Value n, Value s, Value xs) {
    final Value[] x = ((TupleValue) xs.toTuple()).elems;
    final byte[] k = get(s);
    byte[] h = new byte[num(n)];
    for (int i = 0; i < x.length; ++i) {
      if (i > 0) h = gfmul(h, k);
      final byte[] e = get(x[i]);
      if (e.length != h.length) throw new RuntimeException("Horner: length " + e.length + " / " + h.length);
      for (int j = 0; j < h.length; ++j) h[j] ^= e[j];
    }
    return put(h);
  }
  // ---- Keccak
  static final long[] RCS = new long[24];
  static final int[] RHO = new int[25];
  static {
    int lfsr = 1;
    for (int r = 0; r < 24; ++r) {
      for (int l = 0; l <= 6; ++l) {
        if ((lfsr & 1) != 0) RCS[r] ^= 1L << ((1 << l) - 1);
        lfsr <<= 1;
        if ((lfsr & 256) != 0) lfsr = (lfsr & 255) ^ 0x71;
      }
    }
    int x = 1, y = 0;
    for (int t = 0; t < 24; ++t) { RHO[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64; int ny = (2 * x + 3 * y) % 5; x = y; y = ny; }
  }
  static void keccakf(long[] A) {
    long a0 = A[0], a1 = A[1], a2 = A[2], a3 = A[3], a4 = A[4], a5 = A[5], a6 = A[6], a7 = A[7], a8 = A[8], a9 = A[9], a10 = A[10], a11 = A[11], a12 = A[12], a13 = A[13], a14 = A[14], a15 = A[15], a16 = A[16], a17 = A[17], a18 = A[18], a19 = A[19], a20 = A[20], a21 = A[21], a22 = A[22], a23 = A[23], a24 = A[24];
    for (int r = 0; r < 24; ++r) {
      final long c0 = a0 ^ a5 ^ a10 ^ a15 ^ a20;
      final long c1 = a1 ^ a6 ^ a11 ^ a16 ^ a21;
      final long c2 = a2 ^ a7 ^ a12 ^ a17 ^ a22;
      final long c3 = a3 ^ a8 ^ a13 ^ a18 ^ a23;
      final long c4 = a4 ^ a9 ^ a14 ^ a19 ^ a24;
      final long d0 = c4 ^ Long.rotateLeft(c1, 1);
      final long d1 = c0 ^ Long.rotateLeft(c2, 1);
      final long d2 = c1 ^ Long.rotateLeft(c3, 1);
      final long d3 = c2 ^ Long.rotateLeft(c4, 1);
      final long d4 = c3 ^ Long.rotateLeft(c0, 1);
      final long b0 = Long.rotateLeft(a0 ^ d0, 0);
      final long b16 = Long.rotateLeft(a5 ^ d0, 36);
      final long b7 = Long.rotateLeft(a10 ^ d0, 3);
      final long b23 = Long.rotateLeft(a15 ^ d0, 41);
      final long b14 = Long.rotateLeft(a20 ^ d0, 18);
      final long b10 = Long.rotateLeft(a1 ^ d1, 1);
      final long b1 = Long.rotateLeft(a6 ^ d1, 44);
      final long b17 = Long.rotateLeft(a11 ^ d1, 10);
      final long b8 = Long.rotateLeft(a16 ^ d1, 45);
      final long b24 = Long.rotateLeft(a21 ^ d1, 2);
      final long b20 = Long.rotateLeft(a2 ^ d2, 62);
      final long b11 = Long.rotateLeft(a7 ^ d2, 6);
      final long b2 = Long.rotateLeft(a12 ^ d2, 43);
      final long b18 = Long.rotateLeft(a17 ^ d2, 15);
      final long b9 = Long.rotateLeft(a22 ^ d2, 61);
      final long b5 = Long.rotateLeft(a3 ^ d3, 28);
      final long b21 = Long.rotateLeft(a8 ^ d3, 55);
      final long b12 = Long.rotateLeft(a13 ^ d3, 25);
      final long b3 = Long.rotateLeft(a18 ^ d3, 21);
      final long b19 = Long.rotateLeft(a23 ^ d3, 56);
      final long b15 = Long.rotateLeft(a4 ^ d4, 27);
      final long b6 = Long.rotateLeft(a9 ^ d4, 20);
      final long b22 = Long.rotateLeft(a14 ^ d4, 39);
      final long b13 = Long.rotateLeft(a19 ^ d4, 8);
      final long b4 = Long.rotateLeft(a24 ^ d4, 14);
      a0 = b0 ^ (~b1 & b2);
      a1 = b1 ^ (~b2 & b3);
      a2 = b2 ^ (~b3 & b4);
      a3 = b3 ^ (~b4 & b0);
      a4 = b4 ^ (~b0 & b1);
      a5 = b5 ^ (~b6 & b7);
      a6 = b6 ^ (~b7 & b8);
      a7 = b7 ^ (~b8 & b9);
      a8 = b8 ^ (~b9 & b5);
      a9 = b9 ^ (~b5 & b6);
      a10 = b10 ^ (~b11 & b12);
      a11 = b11 ^ (~b12 & b13);
      a12 = b12 ^ (~b13 & b14);
      a13 = b13 ^ (~b14 & b10);
      a14 = b14 ^ (~b10 & b11);
      a15 = b15 ^ (~b16 & b17);
      a16 = b16 ^ (~b17 & b18);
      a17 = b17 ^ (~b18 & b19);
      a18 = b18 ^ (~b19 & b15);
      a19 = b19 ^ (~b15 & b16);
      a20 = b20 ^ (~b21 & b22);
      a21 = b21 ^ (~b22 & b23);
      a22 = b22 ^ (~b23 & b24);
      a23 = b23 ^ (~b24 & b20);
      a24 = b24 ^ (~b20 & b21);
      a0 ^= RCS[r];
    }
    A[0] = a0; A[1] = a1; A[2] = a2; A[3] = a3; A[4] = a4; A[5] = a5; A[6] = a6; A[7] = a7; A[8] = a8; A[9] = a9; A[10] = a10; A[11] = a11; A[12] = a12; A[13] = a13; A[14] = a14; A[15] = a15; A[16] = a16; A[17] = a17; A[18] = a18; A[19] = a19; A[20] = a20; A[21] = a21; A[22] = a22; A[23] = a23; A[24] = a24;
  }
  static byte[] shake(int sec, byte[] m, int outlen) {
    final int rate = sec == 128 ? 168 : 136;
    final long[] A = new long[25];
    int p = 0;
    for (int i = 0; i < m.length; ++i) {
      A[p / 8] ^= (m[i] & 255L) << (8 * (p % 8));
      if (++p == rate) { keccakf(A); p = 0; }
    }
    A[p / 8] ^= 0x1fL << (8 * (p % 8));
    A[(rate - 1) / 8] ^= 0x80L << (8 * ((rate - 1) % 8));
    keccakf(A);
    final byte[] o = new byte[outlen];
    p = 0;
    for (int i = 0; i < outlen; ++i) {
      if (p == rate) { keccakf(A); p = 0; }
      o[i] = (byte) (A[p / 8] >>> (8 * (p % 8)));
      ++p;
    }
    return o;
  }
  public static Value Shake(Value sec, Value m, Value n) { return put(shake(num(sec), get(m), num(n))); }
  public static Value ShakeRun(Value sec, Value pre, Value zk, Value zc, Value suf, Value n) {
    final int rate = num(sec) == 128 ? 168 : 136;
    final byte[] a = get(pre), b = get(suf);
    final long z = 65536L * num(zk) + num(zc);
    final long[] A = new long[25];
    int p = 0;
    for (int i = 0; i < a.length; ++i) {
      A[p / 8] ^= (a[i] & 255L) << (8 * (p % 8));
      if (++p == rate) { keccakf(A); p = 0; }
    }
    for (long left = z; left > 0; ) {
      final long k = Math.min(left, rate - p);
      left -= k;
      p += k;
      if (p == rate) { keccakf(A); p = 0; }
    }
    for (int i = 0; i < b.length; ++i) {
      A[p / 8] ^= (b[i] & 255L) << (8 * (p % 8));
      if (++p == rate) { keccakf(A); p = 0; }
    }
    A[p / 8] ^= 0x1fL << (8 * (p % 8));
    A[(rate - 1) / 8] ^= 0x80L << (8 * ((rate - 1) % 8));
    keccakf(A);
    final byte[] o = new byte[num(n)];
    p = 0;
    for (int i = 0; i < o.length; ++i) {
      if (p == rate) { keccakf(A); p = 0; }
      o[i] = (byte) (A[p / 8] >>> (8 * (p % 8)));
      ++p;
    }
    return put(o);
  }
  public static Value KeccakF(Value s) {
    final long[] A = longs(get(s), 25);
    keccakf(A);
    final byte[] r = new byte[200];
    for (int i = 0; i < 200; ++i) r[i] = (byte) (A[i / 8] >>> (8 * (i % 8)));
    return put(r);
  }

  // ---- AES counter mode key stream
  static final ThreadLocal<Cipher> CTR = ThreadLocal.withInitial(() -> {
    try { return Cipher.getInstance("AES/CTR/NoPadding"); } catch (Exception e) { throw new RuntimeException(e); }
  });
  static byte[] ctr(byte[] key, byte[] iv, int n) {
    try {
      final Cipher c = CTR.get();
      c.init(Cipher.ENCRYPT_MODE, new SecretKeySpec(key, "AES"), new IvParameterSpec(iv));
      return c.doFinal(new byte[n]);
    } catch (Exception e) { throw new RuntimeException(e); }
  }
  public static Value AesCtr(Value key, Value iv, Value n) { return put(ctr(get(key), get(iv), num(n))); }

  // ---- trace input helpers: bytes from a hex string, and patterned long strings
  public static Value Hex(Value s) {
    final String x = ((StringValue) s).val.toString();
    final byte[] r = new byte[x.length() / 2];
    for (int i = 0; i < r.length; ++i) r[i] = (byte) Integer.parseInt(x.substring(2 * i, 2 * i + 2), 16);
    return put(r);
  }
}
