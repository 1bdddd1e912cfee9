import java.math.BigInteger;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * The one function the specification leaves uninterpreted, Keccak-256, given
 * its standard meaning so that TLC computes concrete Merkle roots. Two more
 * operators are here for speed only: concatenation of a sequence of sequences
 * and the printed form of byte strings.
 * Bytes are TLA+ sequences of integers in 0..255.
 */
public class TrieOverrides implements ITLCOverrides {
    private static final long[] RC = new long[24];
    private static final int[] ROT = new int[25];
    private static final int[] PI = new int[25];

    static {
        // Round constants from the LFSR of FIPS 202, section 3.2.5.
        int lfsr = 1;
        for (int round = 0; round < 24; round++) {
            long rc = 0;
            for (int j = 0; j < 7; j++) {
                boolean bit = (lfsr & 1) != 0;
                lfsr = (lfsr & 0x80) != 0 ? ((lfsr << 1) ^ 0x171) : (lfsr << 1);
                if (bit) rc ^= 1L << ((1 << j) - 1);
            }
            RC[round] = rc;
        }
        // Rotation offsets and lane permutation (rho and pi).
        int x = 1, y = 0;
        for (int t = 0; t < 24; t++) {
            ROT[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64;
            int nx = y, ny = (2 * x + 3 * y) % 5;
            x = nx;
            y = ny;
        }
        for (int i = 0; i < 5; i++)
            for (int j = 0; j < 5; j++)
                PI[i + 5 * j] = j + 5 * ((2 * i + 3 * j) % 5);
    }

    private static void permute(long[] a) {
        long[] b = new long[25];
        long[] c = new long[5];
        for (int round = 0; round < 24; round++) {
            for (int i = 0; i < 5; i++) c[i] = a[i] ^ a[i + 5] ^ a[i + 10] ^ a[i + 15] ^ a[i + 20];
            for (int i = 0; i < 5; i++) {
                long d = c[(i + 4) % 5] ^ Long.rotateLeft(c[(i + 1) % 5], 1);
                for (int j = 0; j < 25; j += 5) a[i + j] ^= d;
            }
            for (int i = 0; i < 25; i++) b[PI[i]] = Long.rotateLeft(a[i], ROT[i]);
            for (int j = 0; j < 25; j += 5)
                for (int i = 0; i < 5; i++)
                    a[i + j] = b[i + j] ^ (~b[(i + 1) % 5 + j] & b[(i + 2) % 5 + j]);
            a[0] ^= RC[round];
        }
    }

    static byte[] keccak256(byte[] in) {
        final int rate = 136;
        long[] st = new long[25];
        byte[] padded = new byte[(in.length / rate + 1) * rate];
        System.arraycopy(in, 0, padded, 0, in.length);
        padded[in.length] |= 0x01;
        padded[padded.length - 1] |= (byte) 0x80;
        for (int off = 0; off < padded.length; off += rate) {
            for (int i = 0; i < rate; i++) st[i / 8] ^= (padded[off + i] & 0xffL) << (8 * (i % 8));
            permute(st);
        }
        byte[] out = new byte[32];
        for (int i = 0; i < 32; i++) out[i] = (byte) (st[i / 8] >>> (8 * (i % 8)));
        return out;
    }

    @TLAPlusOperator(identifier = "Keccak256", module = "Bytes", warn = false)
    public static Value keccak(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final byte[] in = new byte[t.elems.length];
        for (int i = 0; i < in.length; i++) in[i] = (byte) ((IntValue) t.elems[i]).val;
        final byte[] out = keccak256(in);
        final Value[] elems = new Value[32];
        for (int i = 0; i < 32; i++) elems[i] = IntValue.gen(out[i] & 0xff);
        return new TupleValue(elems);
    }

    @TLAPlusOperator(identifier = "Concat", module = "Bytes", warn = false)
    public static Value concat(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final TupleValue[] parts = new TupleValue[t.elems.length];
        int n = 0;
        for (int i = 0; i < parts.length; i++) {
            parts[i] = (TupleValue) t.elems[i].toTuple();
            n += parts[i].elems.length;
        }
        final Value[] elems = new Value[n];
        n = 0;
        for (TupleValue p : parts) {
            System.arraycopy(p.elems, 0, elems, n, p.elems.length);
            n += p.elems.length;
        }
        return new TupleValue(elems);
    }

    @TLAPlusOperator(identifier = "Hex", module = "Bytes", warn = false)
    public static Value hex(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final StringBuilder sb = new StringBuilder(2 * t.elems.length);
        for (Value e : t.elems) {
            final int b = ((IntValue) e).val;
            sb.append(Character.forDigit(b >> 4, 16)).append(Character.forDigit(b & 15, 16));
        }
        return new StringValue(sb.toString());
    }

    @SuppressWarnings("unchecked")
    @Override
    public Class[] get() {
        return new Class[] {TrieOverrides.class};
    }
}
