package especia;

import java.math.BigInteger;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Words of 64 bits for TLC. A word is a pair <<hi, lo>> of 32-bit integers, a
 * natural number, or a string that is a decimal or (0x) hexadecimal numeral.
 */
public final class Word64 {
    static final String M = "Word64";

    static long w(final Value v) {
        if (v instanceof IntValue) {
            return ((IntValue) v).val;
        }
        if (v instanceof StringValue) {
            final String s = ((StringValue) v).val.toString();
            return s.startsWith("0x") ? Long.parseUnsignedLong(s.substring(2), 16) : Long.parseUnsignedLong(s);
        }
        final TupleValue t = Real64.tuple(v);
        if (t == null || t.elems.length != 2) {
            throw new RuntimeException("not a word: " + v);
        }
        final long hi = ((IntValue) t.elems[0]).val;
        final long lo = ((IntValue) t.elems[1]).val;
        return (hi << 32) | (lo & 0xFFFFFFFFL);
    }

    static Value w(final long b) {
        return new TupleValue(new Value[] { IntValue.gen((int) (b >> 32)), IntValue.gen((int) b) });
    }

    @TLAPlusOperator(identifier = "W", module = M, warn = false)
    public static Value word(final Value x) { return w(w(x)); }

    @TLAPlusOperator(identifier = "WXor", module = M, warn = false)
    public static Value xor(final Value x, final Value y) { return w(w(x) ^ w(y)); }

    @TLAPlusOperator(identifier = "WAnd", module = M, warn = false)
    public static Value and(final Value x, final Value y) { return w(w(x) & w(y)); }

    @TLAPlusOperator(identifier = "WOr", module = M, warn = false)
    public static Value or(final Value x, final Value y) { return w(w(x) | w(y)); }

    @TLAPlusOperator(identifier = "WAdd", module = M, warn = false)
    public static Value add(final Value x, final Value y) { return w(w(x) + w(y)); }

    @TLAPlusOperator(identifier = "WSub", module = M, warn = false)
    public static Value sub(final Value x, final Value y) { return w(w(x) - w(y)); }

    @TLAPlusOperator(identifier = "WMul", module = M, warn = false)
    public static Value mul(final Value x, final Value y) { return w(w(x) * w(y)); }

    @TLAPlusOperator(identifier = "WShl", module = M, warn = false)
    public static Value shl(final Value x, final Value k) {
        final int n = ((IntValue) k).val;
        return w(n < 64 ? w(x) << n : 0L);
    }

    @TLAPlusOperator(identifier = "WShr", module = M, warn = false)
    public static Value shr(final Value x, final Value k) {
        final int n = ((IntValue) k).val;
        return w(n < 64 ? w(x) >>> n : 0L);
    }

    @TLAPlusOperator(identifier = "WEq", module = M, warn = false)
    public static Value eq(final Value x, final Value y) { return Real64.b(w(x) == w(y)); }

    @TLAPlusOperator(identifier = "WReal", module = M, warn = false)
    public static Value real(final Value x) {
        return Real64.r(new BigInteger(Long.toUnsignedString(w(x))).doubleValue());
    }

    @TLAPlusOperator(identifier = "WStr", module = M, warn = false)
    public static Value str(final Value x) { return new StringValue(Long.toUnsignedString(w(x))); }
}
