package verif;

import java.util.ArrayList;
import java.util.List;

/** Constants found in the compiled code under test; they only steer generation, as a fuzzing dictionary does. */
public final class Dict {
    static final List<String> STRINGS = new ArrayList<>();
    static final List<Long> LONGS = new ArrayList<>();

    private Dict() {
    }

    /** lines: S text / L number */
    public static void load(final List<String> lines) {
        for (final String line : lines) {
            if (line.startsWith("S ")) {
                STRINGS.add(line.substring(2));
            } else if (line.startsWith("L ")) {
                LONGS.add(Long.parseLong(line.substring(2)));
            }
        }
    }

    static long number(final Source s) {
        return LONGS.isEmpty() ? s.draw(100) : LONGS.get(s.draw(LONGS.size())) + s.range(-1, 1);
    }

    /** A size in [min, max] taken from the constants, or -1. */
    static int size(final Source s, final int min, final int max) {
        final long n = number(s);
        return n >= min && n <= max ? (int) n : -1;
    }

    static String string(final Source s) {
        return STRINGS.isEmpty() ? "abc" : STRINGS.get(s.draw(STRINGS.size()));
    }
}
