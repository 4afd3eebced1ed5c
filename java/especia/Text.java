package especia;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Conversion between strings and sequences of characters. */
public final class Text {
    static final String M = "Text";

    @TLAPlusOperator(identifier = "Chars", module = M, warn = false)
    public static Value chars(final Value x) {
        final String s = ((StringValue) x).val.toString();
        final Value[] e = new Value[s.length()];
        for (int i = 0; i < e.length; ++i) {
            e[i] = new StringValue(s.substring(i, i + 1));
        }
        return new TupleValue(e);
    }

    @TLAPlusOperator(identifier = "Str", module = M, warn = false)
    public static Value str(final Value x) {
        final StringBuilder b = new StringBuilder();
        for (final Value c : Real64.tuple(x).elems) {
            b.append(((StringValue) c).val.toString());
        }
        return new StringValue(b.toString());
    }

    /** Whether a token as a whole is a floating-point number an input stream accepts. */
    @TLAPlusOperator(identifier = "IsNumber", module = M, warn = false)
    public static Value isNumber(final Value x) {
        return Real64.b(((StringValue) x).val.toString().matches("[+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][+-]?[0-9]+)?"));
    }

    /** Whether a token as a whole is a natural number. */
    @TLAPlusOperator(identifier = "IsNatural", module = M, warn = false)
    public static Value isNatural(final Value x) {
        return Real64.b(((StringValue) x).val.toString().matches("[0-9]{1,18}"));
    }
}
