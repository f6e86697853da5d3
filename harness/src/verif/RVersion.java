package verif;

import java.math.BigInteger;

/** A purely numeric dotted version; trailing zero components are insignificant. */
public record RVersion(String text) implements Comparable<RVersion> {
    static boolean isNumeric(final String s) {
        return s.matches("[0-9]+(\\.[0-9]+)*");
    }

    @Override
    public int compareTo(final RVersion other) {
        final String[] a = text.split("\\.");
        final String[] b = other.text.split("\\.");
        for (int i = 0; i < Math.max(a.length, b.length); i++) {
            final BigInteger x = i < a.length ? new BigInteger(a[i]) : BigInteger.ZERO;
            final BigInteger y = i < b.length ? new BigInteger(b[i]) : BigInteger.ZERO;
            final int c = x.compareTo(y);
            if (c != 0) {
                return c;
            }
        }
        return 0;
    }

    @Override
    public boolean equals(final Object o) {
        return o instanceof RVersion v && compareTo(v) == 0;
    }

    @Override
    public int hashCode() {
        return 7;
    }

    @Override
    public String toString() {
        return text;
    }
}
