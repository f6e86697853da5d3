package verif;

import java.math.BigDecimal;
import java.util.Arrays;
import java.util.Collection;
import java.util.Iterator;
import java.util.Map;
import java.util.Set;

/** Readable, type-revealing text of data values. */
final class Show {
    private Show() {
    }

    static String value(final Object v) {
        final StringBuilder b = new StringBuilder();
        value(v, b);
        return b.toString();
    }

    static String text(final String s) {
        final StringBuilder b = new StringBuilder("\"");
        for (int i = 0; i < s.length(); i++) {
            final char c = s.charAt(i);
            switch (c) {
                case '"' -> b.append("\\\"");
                case '\\' -> b.append("\\\\");
                case '\n' -> b.append("\\n");
                case '\r' -> b.append("\\r");
                case '\t' -> b.append("\\t");
                default -> {
                    if (c < 32 || c > 126) {
                        b.append(String.format("\\u%04x", (int) c));
                    } else {
                        b.append(c);
                    }
                }
            }
        }
        return b.append('"').toString();
    }

    private static void value(final Object v, final StringBuilder b) {
        if (v == null) {
            b.append("null");
        } else if (v instanceof String s) {
            b.append(text(s));
        } else if (v instanceof Integer || v instanceof Boolean) {
            b.append(v);
        } else if (v instanceof Long) {
            b.append(v).append('L');
        } else if (v instanceof Double) {
            b.append(v).append('d');
        } else if (v instanceof Float) {
            b.append(v).append('f');
        } else if (v instanceof BigDecimal) {
            b.append(v).append("bd");
        } else if (v instanceof Map<?, ?> m) {
            b.append('{');
            String sep = "";
            final java.util.TreeMap<String, Object> sorted = new java.util.TreeMap<>();
            m.forEach((k, x) -> sorted.put(String.valueOf(k), x));
            for (final Map.Entry<String, Object> e : sorted.entrySet()) {
                b.append(sep).append(e.getKey()).append(": ");
                value(e.getValue(), b);
                sep = ", ";
            }
            b.append('}');
        } else if (v instanceof Object[] a) {
            b.append("array");
            list(Arrays.asList(a), b, '[', ']');
        } else if (v instanceof Set<?> c) {
            b.append("set");
            list(c, b, '[', ']');
        } else if (v instanceof Collection<?> c) {
            list(c, b, '[', ']');
        } else {
            b.append(v.getClass().getSimpleName()).append('(').append(v).append(')');
        }
    }

    private static void list(final Collection<?> c, final StringBuilder b, final char open, final char close) {
        b.append(open);
        int n = 0;
        for (final Iterator<?> it = c.iterator(); it.hasNext(); n++) {
            if (n > 0) {
                b.append(", ");
            }
            if (n == 400) {
                b.append("... ").append(c.size()).append(" elements");
                break;
            }
            value(it.next(), b);
        }
        b.append(close);
    }
}
