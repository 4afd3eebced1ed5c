package especia;

import tlc2.overrides.ITLCOverrides;

/** Index of the operator overrides of the Especia specification. */
public class EspeciaOverrides implements ITLCOverrides {
    @Override
    public Class<?>[] get() {
        return new Class<?>[] { Real64.class, Word64.class, Text.class };
    }
}
