// TLC module overrides for BigInt.tla: the listed operators are evaluated with
// java.math.BigInteger.  MC/MCBigInt.tla compares them with the TLA+ definitions.
import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

public final class BigOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    public Class[] get() { return new Class[] { BigOverrides.class }; }

    private static final TupleValue ZERO = new TupleValue(new Value[0]);

    static BigInteger in(final Value v) {
        final Value[] e;
        if (v instanceof TupleValue) e = ((TupleValue) v).elems;
        else {
            final Value t = (Value) v.toTuple();
            if (t == null) throw new RuntimeException("not a BigInt: " + v);
            e = ((TupleValue) t).elems;
        }
        final int n = e.length;
        if (n == 0) return BigInteger.ZERO;
        if (n <= 4) {
            long r = 0;
            for (int i = n - 1; i >= 0; i--) r = (r << 15) + ((IntValue) e[i]).val;
            return BigInteger.valueOf(r);
        }
        final boolean neg = ((IntValue) e[n - 1]).val < 0;
        final int[] words = new int[(15 * n + 31) / 32 + 1];   // little endian
        for (int i = 0; i < n; i++) {
            int d = ((IntValue) e[i]).val;
            if (neg) d = -d;
            final int bit = 15 * i, w = bit >> 5, s = bit & 31;
            final long x = ((long) d) << s;
            words[w] |= (int) x;
            words[w + 1] |= (int) (x >>> 32);
        }
        final byte[] b = new byte[words.length * 4];
        for (int i = 0; i < words.length; i++) {
            final int o = b.length - 4 * i;
            b[o - 1] = (byte) words[i];
            b[o - 2] = (byte) (words[i] >>> 8);
            b[o - 3] = (byte) (words[i] >>> 16);
            b[o - 4] = (byte) (words[i] >>> 24);
        }
        return new BigInteger(neg ? -1 : 1, b);
    }

    static Value out(final BigInteger r) {
        final int sg = r.signum();
        if (sg == 0) return ZERO;
        final int bl = r.abs().bitLength();
        final int n = (bl + 14) / 15;
        final Value[] e = new Value[n];
        if (bl <= 62) {
            long x = Math.abs(r.longValue());
            for (int i = 0; i < n; i++) { e[i] = IntValue.gen(sg * (int) (x & 32767)); x >>= 15; }
            return new TupleValue(e);
        }
        final byte[] b = r.abs().toByteArray();
        final int bn = b.length;
        for (int i = 0; i < n; i++) {
            final int bit = 15 * i, by = bit >> 3, s = bit & 7;
            int x = 0;
            for (int k = 0; k < 3; k++) {
                final int idx = bn - 1 - (by + k);
                if (idx >= 0) x |= (b[idx] & 255) << (8 * k);
            }
            e[i] = IntValue.gen(sg * ((x >> s) & 32767));
        }
        return new TupleValue(e);
    }

    @TLAPlusOperator(identifier = "BFromInt", module = "BigInt", warn = false)
    public static Value fromInt(final Value a) { return out(BigInteger.valueOf(((IntValue) a).val)); }
    @TLAPlusOperator(identifier = "BToInt", module = "BigInt", warn = false)
    public static Value toInt(final Value a) { return IntValue.gen(in(a).intValueExact()); }
    @TLAPlusOperator(identifier = "BAdd", module = "BigInt", warn = false)
    public static Value add(final Value a, final Value b) { return out(in(a).add(in(b))); }
    @TLAPlusOperator(identifier = "BSub", module = "BigInt", warn = false)
    public static Value sub(final Value a, final Value b) { return out(in(a).subtract(in(b))); }
    @TLAPlusOperator(identifier = "BMul", module = "BigInt", warn = false)
    public static Value mul(final Value a, final Value b) { return out(in(a).multiply(in(b))); }
    @TLAPlusOperator(identifier = "BNeg", module = "BigInt", warn = false)
    public static Value neg(final Value a) { return out(in(a).negate()); }
    @TLAPlusOperator(identifier = "BCmp", module = "BigInt", warn = false)
    public static Value cmp(final Value a, final Value b) { return IntValue.gen(in(a).compareTo(in(b))); }
    @TLAPlusOperator(identifier = "BMod", module = "BigInt", warn = false)
    public static Value mod(final Value a, final Value m) { return out(in(a).mod(in(m))); }
    @TLAPlusOperator(identifier = "BDiv", module = "BigInt", warn = false)
    public static Value div(final Value a, final Value m) { return out(in(a).divide(in(m))); }
    @TLAPlusOperator(identifier = "MAdd", module = "BigInt", warn = false)
    public static Value madd(final Value a, final Value b, final Value m) { return out(in(a).add(in(b)).mod(in(m))); }
    @TLAPlusOperator(identifier = "MSub", module = "BigInt", warn = false)
    public static Value msub(final Value a, final Value b, final Value m) { return out(in(a).subtract(in(b)).mod(in(m))); }
    @TLAPlusOperator(identifier = "MMul", module = "BigInt", warn = false)
    public static Value mmul(final Value a, final Value b, final Value m) { return out(in(a).multiply(in(b)).mod(in(m))); }
    @TLAPlusOperator(identifier = "MNeg", module = "BigInt", warn = false)
    public static Value mneg(final Value a, final Value m) { return out(in(a).negate().mod(in(m))); }
    @TLAPlusOperator(identifier = "MPow", module = "BigInt", warn = false)
    public static Value mpow(final Value b, final Value e, final Value m) { return out(in(b).modPow(in(e), in(m))); }
    @TLAPlusOperator(identifier = "MInv", module = "BigInt", warn = false)
    public static Value minv(final Value a, final Value m) {
        final BigInteger x = in(a), y = in(m);
        if (x.mod(y).signum() == 0) return ZERO;
        return out(x.modInverse(y));
    }
    @TLAPlusOperator(identifier = "BBitLen", module = "BigInt", warn = false)
    public static Value bitlen(final Value a) { return IntValue.gen(in(a).abs().bitLength()); }
    @TLAPlusOperator(identifier = "BBit", module = "BigInt", warn = false)
    public static Value bit(final Value a, final Value i) { return IntValue.gen(in(a).testBit(((IntValue) i).val) ? 1 : 0); }
    @TLAPlusOperator(identifier = "BShr", module = "BigInt", warn = false)
    public static Value shr(final Value a, final Value i) { return out(in(a).shiftRight(((IntValue) i).val)); }

    @TLAPlusOperator(identifier = "BFromBytes", module = "BigInt", warn = false)
    public static Value fromBytes(final Value s) {
        final Value[] e = ((TupleValue) s.toTuple()).elems;
        final byte[] b = new byte[e.length];
        for (int i = 0; i < b.length; i++) b[i] = (byte) ((IntValue) e[i]).val;
        return out(new BigInteger(1, b));
    }
    @TLAPlusOperator(identifier = "BToBytes", module = "BigInt", warn = false)
    public static Value toBytes(final Value a, final Value n) {
        final byte[] b = in(a).toByteArray();
        final Value[] e = new Value[((IntValue) n).val];
        for (int i = 0; i < e.length; i++) {
            final int idx = b.length - (e.length - i);
            e[i] = IntValue.gen(idx >= 0 ? b[idx] & 255 : 0);
        }
        return new TupleValue(e);
    }
    @TLAPlusOperator(identifier = "BFromHex", module = "BigInt", warn = false)
    public static Value fromHex(final Value s) { return out(new BigInteger(((StringValue) s).val.toString(), 16)); }
    @TLAPlusOperator(identifier = "DecInt", module = "BigInt", warn = false)
    public static Value decInt(final Value s) { return IntValue.gen(Integer.parseInt(((StringValue) s).val.toString())); }
    @TLAPlusOperator(identifier = "BToHex", module = "BigInt", warn = false)
    public static Value toHex(final Value a) { return new StringValue(in(a).toString(16)); }
    @TLAPlusOperator(identifier = "HexBytes", module = "BigInt", warn = false)
    public static Value hexBytes(final Value s) {
        final String t = ((StringValue) s).val.toString();
        final Value[] e = new Value[t.length() / 2];
        for (int i = 0; i < e.length; i++) e[i] = IntValue.gen(Integer.parseInt(t.substring(2 * i, 2 * i + 2), 16));
        return new TupleValue(e);
    }
    @TLAPlusOperator(identifier = "StrCodes", module = "BigInt", warn = false)
    public static Value strCodes(final Value s) {
        final String t = ((StringValue) s).val.toString();
        final Value[] e = new Value[t.length()];
        for (int i = 0; i < e.length; i++) e[i] = IntValue.gen(t.charAt(i));
        return new TupleValue(e);
    }
    @TLAPlusOperator(identifier = "BIsPrime", module = "BigInt", warn = false)
    public static Value isPrime(final Value a) { return in(a).isProbablePrime(80) ? BoolValue.ValTrue : BoolValue.ValFalse; }

    // ---- Curve.tla: k * P by double-and-add with the affine group law -------
    private static final BigInteger TWO = BigInteger.valueOf(2), THREE = BigInteger.valueOf(3);
    private static final class Cv {
        final char t; final BigInteger p, a, b;
        Cv(final Value c) {
            final RecordValue r = (RecordValue) c.toRcd();
            t = str(r, "t").charAt(0); p = in(fld(r, "p")); a = in(fld(r, "a")); b = in(fld(r, "b"));
        }
        BigInteger inv(final BigInteger x) { final BigInteger y = x.mod(p); return y.signum() == 0 ? y : y.modInverse(p); }
        // a point is {x, y}; null is the point at infinity
        BigInteger[] add(final BigInteger[] P, final BigInteger[] Q) {
            if (t == 'w' || t == 'm') {
                if (P == null) return Q;
                if (Q == null) return P;
                final boolean same = P[0].equals(Q[0]);
                if (same && P[1].add(Q[1]).mod(p).signum() == 0) return null;
                BigInteger l;
                if (!same) l = Q[1].subtract(P[1]).multiply(inv(Q[0].subtract(P[0]))).mod(p);
                else if (t == 'w') l = P[0].multiply(P[0]).multiply(THREE).add(a).multiply(inv(P[1].add(P[1]))).mod(p);
                else l = P[0].multiply(P[0]).multiply(THREE).add(b.multiply(P[0]).multiply(TWO)).add(BigInteger.ONE)
                          .multiply(inv(a.multiply(P[1]).multiply(TWO))).mod(p);
                final BigInteger l2 = l.multiply(l);
                final BigInteger x = (t == 'w' ? l2 : a.multiply(l2).subtract(b)).subtract(P[0]).subtract(Q[0]).mod(p);
                return new BigInteger[] { x, l.multiply(P[0].subtract(x)).subtract(P[1]).mod(p) };
            }
            final BigInteger xx = P[0].multiply(Q[0]).mod(p), yy = P[1].multiply(Q[1]).mod(p);
            final BigInteger e = b.multiply(xx.multiply(yy).mod(p)).mod(p);
            final BigInteger xn = P[0].multiply(Q[1]).add(P[1].multiply(Q[0]));
            BigInteger d1 = BigInteger.ONE.add(e), d2 = BigInteger.ONE.subtract(e), yn;
            if (t == 'e') { d1 = a.multiply(d1); d2 = a.multiply(d2); yn = yy.subtract(xx); }
            else yn = yy.subtract(a.multiply(xx));
            return new BigInteger[] { xn.multiply(inv(d1)).mod(p), yn.multiply(inv(d2)).mod(p) };
        }
        // the same in projective coordinates, one inversion at the end
        private BigInteger m(final BigInteger x, final BigInteger y) { return x.multiply(y).mod(p); }
        BigInteger[] mulEd(final BigInteger k, final BigInteger[] P) {
            final BigInteger ca = t == 'e' ? BigInteger.ONE : a, cc = t == 'e' ? a : BigInteger.ONE;
            BigInteger X = BigInteger.ZERO, Y = cc, Z = BigInteger.ONE;
            for (int i = 2 * k.bitLength() - 1; i >= 0; i--) {
                final BigInteger X2, Y2, A;
                if ((i & 1) == 1) { X2 = X; Y2 = Y; A = m(Z, Z); }
                else if (k.testBit(i >> 1)) { X2 = P[0]; Y2 = P[1]; A = Z; }
                else continue;
                final BigInteger B = m(A, A), C = m(X, X2), D = m(Y, Y2), E = m(b, m(C, D)), F = B.subtract(E), G = B.add(E);
                final BigInteger X3 = m(m(A, F), X.add(Y).multiply(X2.add(Y2)).subtract(C).subtract(D));
                Y = m(m(A, G), D.subtract(ca.multiply(C)));
                Z = m(cc, m(F, G));
                X = X3;
            }
            final BigInteger zi = inv(Z);
            return new BigInteger[] { m(X, zi), m(Y, zi) };
        }
        BigInteger[] mulWs(final BigInteger k, final BigInteger[] P, final BigInteger ca) {   // Jacobian; Z = 0: infinity
            BigInteger X = BigInteger.ONE, Y = BigInteger.ONE, Z = BigInteger.ZERO;
            for (int i = 2 * k.bitLength() - 1; i >= 0; i--) {
                boolean dbl = (i & 1) == 1;
                if (!dbl && !k.testBit(i >> 1)) continue;
                if (!dbl) {
                    if (Z.signum() == 0) { X = P[0]; Y = P[1]; Z = BigInteger.ONE; continue; }
                    final BigInteger zz = m(Z, Z), H = P[0].multiply(zz).subtract(X).mod(p), R = P[1].multiply(m(zz, Z)).subtract(Y).mod(p);
                    if (H.signum() == 0) {
                        if (R.signum() != 0) { Z = BigInteger.ZERO; continue; }
                        dbl = true;
                    } else {
                        final BigInteger hh = m(H, H), hhh = m(H, hh), v = m(X, hh);
                        final BigInteger X3 = R.multiply(R).subtract(hhh).subtract(v.shiftLeft(1)).mod(p);
                        Y = R.multiply(v.subtract(X3)).subtract(Y.multiply(hhh)).mod(p);
                        Z = m(Z, H);
                        X = X3;
                        continue;
                    }
                }
                if (Z.signum() == 0) continue;
                if (Y.signum() == 0) { Z = BigInteger.ZERO; continue; }
                final BigInteger yy = m(Y, Y), s = m(X, yy).shiftLeft(2), z4 = m(m(Z, Z), m(Z, Z));
                final BigInteger M = THREE.multiply(m(X, X)).add(ca.multiply(z4)).mod(p);
                final BigInteger X3 = M.multiply(M).subtract(s.shiftLeft(1)).mod(p);
                Z = m(Y, Z).shiftLeft(1).mod(p);
                Y = M.multiply(s.subtract(X3)).subtract(m(yy, yy).shiftLeft(3)).mod(p);
                X = X3;
            }
            if (Z.signum() == 0) return null;
            final BigInteger zi = inv(Z), z2 = m(zi, zi);
            return new BigInteger[] { m(X, z2), m(Y, m(z2, zi)) };
        }
        BigInteger[] mul(final BigInteger k, final BigInteger[] P) {
            if (t == 'e' || t == 't') return mulEd(k, P);
            if (P == null) return null;
            if (t == 'w') return mulWs(k, P, a);
            if (p.equals(THREE) || a.signum() == 0) {
                BigInteger[] acc = null;
                for (int i = k.bitLength() - 1; i >= 0; i--) {
                    acc = add(acc, acc);
                    if (k.testBit(i)) acc = add(acc, P);
                }
                return acc;
            }
            // B y^2 = x^3 + A x^2 + x: u = x/B + A/(3B), v = y/B satisfy v^2 = u^3 + (3 - A^2)/(3 B^2) u + ...
            final BigInteger bi = inv(a), off = m(b, inv(a.multiply(THREE)));
            final BigInteger ca = m(THREE.subtract(b.multiply(b)).mod(p), inv(THREE.multiply(a).multiply(a)));
            final BigInteger[] R = mulWs(k, new BigInteger[] { m(P[0], bi).add(off).mod(p), m(P[1], bi) }, ca);
            return R == null ? null : new BigInteger[] { m(R[0].subtract(off).mod(p), a), m(R[1], a) };
        }
        BigInteger[] neutral() {
            if (t == 'w' || t == 'm') return null;
            return new BigInteger[] { BigInteger.ZERO, t == 'e' ? a : BigInteger.ONE.mod(p) };
        }
    }
    private static Value fld(final RecordValue r, final String f) {
        final Value v = r.select(new StringValue(f));
        if (v == null) throw new RuntimeException("no field " + f + " in " + r);
        return v;
    }
    private static String str(final RecordValue r, final String f) { return ((StringValue) fld(r, f)).val.toString(); }
    @TLAPlusOperator(identifier = "SMul", module = "Curve", warn = false)
    public static Value smul(final Value c, final Value k, final Value pt) {
        final Cv cv = new Cv(c);
        final RecordValue r = (RecordValue) pt.toRcd();
        final boolean o = ((BoolValue) fld(r, "o")).val;
        final BigInteger[] P = o ? null : new BigInteger[] { in(fld(r, "x")), in(fld(r, "y")) };
        final BigInteger n = in(k);
        final BigInteger[] acc = cv.mul(n, P);
        return new RecordValue(
            new util.UniqueString[] { util.UniqueString.of("o"), util.UniqueString.of("x"), util.UniqueString.of("y") },
            new Value[] { acc == null ? BoolValue.ValTrue : BoolValue.ValFalse,
                          acc == null ? ZERO : out(acc[0]), acc == null ? ZERO : out(acc[1]) }, false);
    }

    // ---- Field.tla: square roots (Tonelli and Shanks) ------------------------
    @TLAPlusOperator(identifier = "MSqrt", module = "Field", warn = false)
    public static Value msqrt(final Value av, final Value pv) {
        final BigInteger p = in(pv), a = in(av).mod(p), p1 = p.subtract(BigInteger.ONE);
        if (a.signum() == 0 || p.equals(TWO)) return out(a);
        if (!a.modPow(p1.shiftRight(1), p).equals(BigInteger.ONE)) return ZERO;
        int s = p1.getLowestSetBit();
        final BigInteger q = p1.shiftRight(s);
        BigInteger z = TWO;
        while (!z.modPow(p1.shiftRight(1), p).equals(p1)) z = z.add(BigInteger.ONE);
        BigInteger c = z.modPow(q, p), r = a.modPow(q.add(BigInteger.ONE).shiftRight(1), p), t = a.modPow(q, p);
        while (!t.equals(BigInteger.ONE)) {
            int i = 0;
            BigInteger u = t;
            while (!u.equals(BigInteger.ONE)) { u = u.multiply(u).mod(p); i++; }
            if (i >= s) throw new RuntimeException("square root modulo a composite number");
            final BigInteger b = c.modPow(BigInteger.ONE.shiftLeft(s - i - 1), p);
            s = i; c = b.multiply(b).mod(p); t = t.multiply(c).mod(p); r = r.multiply(b).mod(p);
        }
        return out(r);
    }

    // ---- Examples.tla ---------------------------------------------------------
    private static byte[] octets(final Value s) {
        final Value[] e = ((TupleValue) s.toTuple()).elems;
        final byte[] b = new byte[e.length];
        for (int i = 0; i < b.length; i++) b[i] = (byte) ((IntValue) e[i]).val;
        return b;
    }
    private static Value octets(final byte[] b) {
        final Value[] e = new Value[b.length];
        for (int i = 0; i < b.length; i++) e[i] = IntValue.gen(b[i] & 255);
        return new TupleValue(e);
    }
    private static Value sha(final String name, final Value s) {
        try { return octets(java.security.MessageDigest.getInstance(name).digest(octets(s))); }
        catch (java.security.NoSuchAlgorithmException x) { throw new RuntimeException(x); }
    }
    @TLAPlusOperator(identifier = "Sha256", module = "Ciphers", warn = false)
    public static Value sha256(final Value s) { return sha("SHA-256", s); }
    @TLAPlusOperator(identifier = "Sha512", module = "Ciphers", warn = false)
    public static Value sha512(final Value s) { return sha("SHA-512", s); }

    private static int le(final byte[] b, final int o) {
        return (b[o] & 255) | (b[o + 1] & 255) << 8 | (b[o + 2] & 255) << 16 | (b[o + 3] & 255) << 24;
    }
    private static final int[] SIGMA = { 0x61707865, 0x3320646e, 0x79622d32, 0x6b206574 };
    private static int[] block(final int[] key, final int[] in4) {
        return new int[] { SIGMA[0], key[0], key[1], key[2], key[3], SIGMA[1], in4[0], in4[1], in4[2], in4[3], SIGMA[2],
                           key[4], key[5], key[6], key[7], SIGMA[3] };
    }
    private static void quarter(final int[] x, final int a, final int b, final int c, final int d) {
        x[b] ^= Integer.rotateLeft(x[a] + x[d], 7);
        x[c] ^= Integer.rotateLeft(x[b] + x[a], 9);
        x[d] ^= Integer.rotateLeft(x[c] + x[b], 13);
        x[a] ^= Integer.rotateLeft(x[d] + x[c], 18);
    }
    private static void rounds(final int[] x) {
        for (int i = 0; i < 10; i++) {
            quarter(x, 0, 4, 8, 12); quarter(x, 5, 9, 13, 1); quarter(x, 10, 14, 2, 6); quarter(x, 15, 3, 7, 11);
            quarter(x, 0, 1, 2, 3); quarter(x, 5, 6, 7, 4); quarter(x, 10, 11, 8, 9); quarter(x, 15, 12, 13, 14);
        }
    }
    @TLAPlusOperator(identifier = "XSalsa20", module = "Ciphers", warn = false)
    public static Value xsalsa20(final Value key, final Value nonce, final Value text) {
        final byte[] k = octets(key), n = octets(nonce), s = octets(text);
        final int[] kw = new int[8];
        for (int i = 0; i < 8; i++) kw[i] = le(k, 4 * i);
        final int[] h = block(kw, new int[] { le(n, 0), le(n, 4), le(n, 8), le(n, 12) });
        rounds(h);
        final int[] sub = { h[0], h[5], h[10], h[15], h[6], h[7], h[8], h[9] };
        for (int at = 0, ctr = 0; at < s.length; at += 64, ctr++) {
            final int[] x = block(sub, new int[] { le(n, 16), le(n, 20), ctr, 0 });
            final int[] y = x.clone();
            rounds(y);
            for (int i = 0; i < 64 && at + i < s.length; i++)
                s[at + i] ^= (byte) ((x[i / 4] + y[i / 4]) >>> (8 * (i % 4)));
        }
        return octets(s);
    }
    @TLAPlusOperator(identifier = "B64Octets", module = "Armour", warn = false)
    public static Value b64Octets(final Value text) {
        final byte[] s = octets(text);
        final java.io.ByteArrayOutputStream o = new java.io.ByteArrayOutputStream();
        int acc = 0, n = 0;
        for (final byte c : s) {
            final int v = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/".indexOf((char) (c & 255));
            if (v < 0) continue;
            acc = (acc << 6 | v) & 0xffffff;
            n += 6;
            if (n >= 8) { n -= 8; o.write(acc >> n); }
        }
        return octets(o.toByteArray());
    }
    @TLAPlusOperator(identifier = "Find", module = "Armour", warn = false)
    public static Value find(final Value text, final Value pat, final Value from) {
        final byte[] s = octets(text), t = octets(pat);
        if (t.length == 0) return IntValue.gen(0);
        for (int j = ((IntValue) from).val; j + t.length - 1 <= s.length; j++) {
            int i = 0;
            while (i < t.length && s[j - 1 + i] == t[i]) i++;
            if (i == t.length) return IntValue.gen(j);
        }
        return IntValue.gen(0);
    }
}
