package verif;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.util.ArrayList;
import java.util.List;

/** Generators of data values; near(..) makes values that are equal, or different in one small respect. */
final class Values {
    private final Source s;

    Values(final Source s) {
        this.s = s;
    }

    // ------------------------------------------------------------ numbers

    BigInteger whole() {
        return switch (s.weighted(50, 12, 10, 6, 10, 6, 6)) {
            case 0 -> BigInteger.valueOf(s.range(0, 12));
            case 1 -> BigInteger.valueOf(s.range(-12, 1000));
            case 2 -> boundary(s.of(31, 31, 32, 53, 62, 16, 15, 8, 7));
            case 3 -> boundary(s.of(63, 63, 31)).min(BigInteger.valueOf(Long.MAX_VALUE)).max(BigInteger.valueOf(Long.MIN_VALUE));
            case 4 -> BigInteger.valueOf((int) s.bits());
            case 5 -> BigInteger.valueOf(s.bits() >> s.draw(40));
            default -> BigInteger.valueOf(Dict.number(s));
        };
    }

    private BigInteger boundary(final int bits) {
        final BigInteger b = BigInteger.ONE.shiftLeft(bits).add(BigInteger.valueOf(s.range(-2, 2)));
        return s.coin() ? b.negate() : b;
    }

    /** Integer when it fits, sometimes Long anyway. */
    Object boxed(final BigInteger v) {
        if (v.bitLength() <= 31 && !s.chance(20)) {
            return v.intValueExact();
        }
        return v.bitLength() <= 63 ? v.longValue() : (Object) new BigDecimal(v);
    }

    Object wholeValue() {
        return boxed(whole());
    }

    BigDecimal decimal() {
        return switch (s.weighted(40, 20, 20, 10, 5, 5, 4, 3)) {
            case 7 -> BigDecimal.valueOf(s.range(-50, 50), s.range(12, 40));
            case 6 -> {
                // next to, or at, the bounds of int and long
                final BigDecimal at = new BigDecimal(boundary(s.of(63, 31, 32, 64)));
                yield s.coin() ? at : at.add(BigDecimal.valueOf(s.range(-999, 999), s.range(1, 3)));
            }
            case 0 -> BigDecimal.valueOf(s.range(0, 100), 1);
            case 1 -> BigDecimal.valueOf(s.range(-1000, 1000), s.range(1, 3));
            case 2 -> BigDecimal.valueOf((int) s.bits(), s.range(0, 9));
            case 3 -> BigDecimal.valueOf(s.bits(), s.range(0, 18));
            case 4 -> new BigDecimal(BigInteger.valueOf(s.bits()).multiply(BigInteger.valueOf(s.bits())), s.range(0, 25));
            default -> BigDecimal.valueOf(s.range(-50, 50), s.range(-6, 12));
        };
    }

    Object decimalValue() {
        return decimalBoxed(decimal());
    }

    Object decimalBoxed(final BigDecimal d) {
        return switch (s.weighted(60, 25, 15)) {
            case 0 -> d;
            case 1 -> d.doubleValue();
            default -> Math.abs(d.doubleValue()) < 1e30 ? (Object) d.floatValue() : d;
        };
    }

    Object number() {
        return s.chance(40) ? decimalValue() : wholeValue();
    }

    /** A number close to x: mostly a neighbour, an equal one of another class, or one that only careless arithmetic confuses with it. */
    Object nearNumber(final Object x) {
        final BigDecimal v = RefEval.num(x);
        if (v.precision() > 300 || Math.abs(v.scale()) > 300) {
            return x;
        }
        final BigDecimal w = switch (s.weighted(25, 15, 8, 6, 6, 5, 5, 5, 5, 8)) {
            case 0 -> v;
            case 1 -> v.add(BigDecimal.valueOf(s.coin() ? 1 : -1));
            case 2 -> v.add(BigDecimal.valueOf(s.coin() ? 1 : -1, s.range(1, 10)));
            case 3 -> v.negate();
            case 4 -> v.add(new BigDecimal(BigInteger.ONE.shiftLeft(s.of(32, 64, 31, 16, 8))));
            case 5 -> v.setScale(0, java.math.RoundingMode.FLOOR);
            case 6 -> v.setScale(Math.max(0, v.scale()) + s.range(0, 3));
            case 7 -> v.scaleByPowerOfTen(s.of(1, -1));
            case 8 -> new BigDecimal(v.doubleValue());
            default -> RefEval.num(number());
        };
        return classify(w);
    }

    /** Some class that holds w exactly. */
    Object classify(final BigDecimal w) {
        final BigDecimal t = w.stripTrailingZeros();
        final boolean isWhole = t.scale() <= 0 && t.precision() - t.scale() < 20;
        if (isWhole && !s.chance(40)) {
            final BigInteger i = t.toBigIntegerExact();
            if (i.bitLength() <= 63) {
                return boxed(i);
            }
        }
        if (s.chance(30)) {
            final double d = w.doubleValue();
            if (Double.isFinite(d) && new BigDecimal(Double.toString(d)).compareTo(w) == 0) {
                final float f = w.floatValue();
                if (s.coin() && Float.isFinite(f) && new BigDecimal(Float.toString(f)).compareTo(w) == 0) {
                    return f;
                }
                return d;
            }
        }
        return w;
    }

    // ------------------------------------------------------------ strings

    private static final String LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
    private static final String ODD = " _.,;:!?()[]{}<>=+-*/%^&|#@$~`\\'\"\t\n\u00e9\u00df\u0130\u0131\u0660\u4e2d\ud83d\ude00\u00a0\u200b\u0000\u007f";

    /** Characters that look alike, or that one normalisation or case mapping or another takes for the same; and blanks, hyphens and digits of other kinds. */
    private static final String[][] ALIKE = {
        {"\u00e9", "e\u0301", "e", "E\u0301", "\u00c9"}, {"\u212b", "\u00c5", "A\u030a", "\u00e5"}, {"\u212a", "K", "k", "\uff2b"}, {"\ufb01", "fi", "FI"}, {"\u00df", "ss", "SS", "\u1e9e"},
        {"i", "I", "\u0130", "\u0131", "i\u0307"}, {"a", "\uff41", "\u0430", "A", "\u00e4", "\u00aa"}, {" ", "\u00a0", "\u2003", "\u200b", "\u3000", "\u00ad", "\ufeff", "", "\t", "\n", "\r\n", "\u2028"},
        {"-", "\u2010", "\u2212", "\u2013"}, {"1", "\uff11", "\u0661", "\u00b9", "\u2460"}, {"\u03c3", "\u03c2", "\u03a3"}, {"\u01c6", "\u01c5", "\u01c4", "d\u017e"}, {"\uac00", "\u1100\u1161"},
        {"\ud835\udc00", "A", "\ud835\udc01", "\ud83d\ude00"}, {"\u017f", "s", "S"}, {"\uffff", "\ud800\udc00", "\ue000"}, {"", "\u0000", "\u200d", "\u200e", "\u0301"}};

    private String alike() {
        final StringBuilder b = new StringBuilder(s.chance(30) ? word(s.draw(3)) : "");
        for (int i = s.range(1, 3); i > 0; i--) {
            final String[] group = s.of(ALIKE);
            b.append(group[s.draw(group.length)]).append(s.chance(30) ? word(1) : "");
        }
        return b.toString();
    }

    /** The string with one of its look-alikes in its place. */
    private String lookalike(final String x) {
        final List<String> out = new ArrayList<>();
        for (final String[] group : ALIKE) {
            for (final String from : group) {
                final int at = from.isEmpty() ? -1 : x.indexOf(from);
                if (at >= 0) {
                    for (final String to : group) {
                        if (!to.equals(from)) {
                            out.add(x.substring(0, at) + to + x.substring(at + from.length()));
                        }
                    }
                }
            }
        }
        return out.isEmpty() ? x + s.of("\u200b", "\u0301", "\u00a0", "\u0000") : s.of(out);
    }

    private static final String[] JOINTS = {",", ";", "|", "=", ", ", ":", ".", "-", "_", "/", "&", " "};

    String string() {
        return switch (s.weighted(30, 25, 12, 8, 8, 5, 4, 4, 4, 5, 5, 3)) {
            case 0 -> s.of("a", "b", "abc", "def", "sid", "active", "pending", "sale", "new", "x", "");
            case 1 -> word(1 + s.draw(6));
            case 2 -> odd(s.draw(8));
            case 3 -> s.of("10", "9", "1", "2.50", "007", "1e3", "-5", " 1", "1.0", "100", "+1", "0", "1.5.9", "1.5.10");
            case 4 -> s.of("true", "false", "TRUE", "null", "NULL", "AND", "and", "IN", "not", "Not", "true ", "a b", "AND x", "a = 1", "(", "')");
            case 5 -> s.of(" a", "a ", "A", "Abc", "ABC", "abC", "sid ", " ", "  ");
            case 6 -> odd(s.size(1, 300));
            case 7 -> word(Math.max(1, Dict.size(s, 1, 300)));
            case 8 -> Dict.string(s);
            case 10 -> alike();
            case 11 -> {
                final String joint = s.of(JOINTS);
                final StringBuilder b = new StringBuilder(word(1 + s.draw(3)));
                for (int i = s.range(1, 4); i > 0; i--) {
                    b.append(joint).append(s.chance(80) ? word(1 + s.draw(3)) : "");
                }
                yield b.toString();
            }
            default -> sandwich(s.chance(70) ? word(s.draw(4)) : odd(s.draw(6)));
        };
    }

    /** Text between marks that careless reading takes for its own: quotes, parentheses, blanks, escapes. */
    private String sandwich(final String x) {
        return switch (s.weighted(4, 3, 2, 2, 2, 2)) {
            case 0 -> '"' + x + '"';
            case 1 -> "'" + x + "'";
            case 2 -> "(" + x + ")";
            case 3 -> x + s.of("  ", "\t", "\n", " \t ") + word(2);
            case 4 -> s.of("\\", "'", "\"", "%", "$1", "\\n") + x;
            default -> x + s.of("\\", "'", "\"", "%s", "${a}", "\u00a0");
        };
    }

    String word(final int n) {
        final StringBuilder b = new StringBuilder();
        for (int i = 0; i < n; i++) {
            b.append(LETTERS.charAt(s.draw(LETTERS.length())));
        }
        return b.toString();
    }

    private String odd(final int n) {
        final StringBuilder b = new StringBuilder();
        for (int i = 0; i < n; i++) {
            final String from = s.chance(30) ? ODD : s.chance(20) ? "0123456789" : LETTERS;
            b.append(from.charAt(s.draw(from.length())));
        }
        return b.toString();
    }

    /** Another text with the same hash code, made of letters and digits where x is; or null. */
    String twin(final String x) {
        final List<String> out = new ArrayList<>();
        for (int i = 0; i + 1 < x.length(); i++) {
            for (final int d : new int[] {1, -1}) {
                final char a = (char) (x.charAt(i) + d);
                final char b = (char) (x.charAt(i + 1) - 31 * d);
                if (a < 128 && b < 128 && Character.isLetterOrDigit(a) && Character.isLetterOrDigit(b)) {
                    out.add(x.substring(0, i) + a + b + x.substring(i + 2));
                }
            }
        }
        return out.isEmpty() ? null : s.of(out);
    }

    String nearString(final String x) {
        final int n = x.length();
        return switch (s.weighted(30, 10, 10, 10, 8, 8, 8, 16, 5, 4, 3, 4, 4)) {
            case 12 -> {
                final String t = twin(x);
                yield t == null ? x : t;
            }
            case 0 -> new String(x.toCharArray());
            case 8 -> lookalike(x);
            case 9 -> {
                // one part of it, or it as one part
                final List<String> parts = new ArrayList<>();
                for (final String joint : JOINTS) {
                    if (x.contains(joint)) {
                        parts.addAll(List.of(x.split(java.util.regex.Pattern.quote(joint), -1)));
                    }
                }
                yield parts.isEmpty() || s.chance(30) ? s.coin() ? x + s.of(JOINTS) + word(1 + s.draw(2)) : word(1 + s.draw(2)) + s.of(JOINTS) + x : s.of(parts);
            }
            case 10 -> java.text.Normalizer.normalize(x, s.of(java.text.Normalizer.Form.values()));
            case 11 -> n == 0 ? " " : s.of(x.strip(), x.replace(" ", ""), new StringBuilder(x).reverse().toString(), x + x, x.substring(0, (n + 1) / 2), x.replaceAll("\\s+", " "), x.intern());
            case 1 -> x + s.of("a", " ", "0", "Z", "\u00e9");
            case 2 -> n == 0 ? "a" : x.substring(0, n - 1);
            case 3 -> n == 0 ? "A" : swapCase(x, s.draw(n));
            case 4 -> s.coin() ? x.toUpperCase(java.util.Locale.ROOT) : x.toLowerCase(java.util.Locale.ROOT);
            case 5 -> s.of(" ", "a", "0") + x;
            case 6 -> {
                if (n == 0) {
                    yield "b";
                }
                final int i = s.draw(n);
                yield x.substring(0, i) + (char) (x.charAt(i) + (s.coin() ? 1 : -1)) + x.substring(i + 1);
            }
            default -> string();
        };
    }

    private static String swapCase(final String x, final int i) {
        final char c = x.charAt(i);
        return x.substring(0, i) + (Character.isUpperCase(c) ? Character.toLowerCase(c) : Character.toUpperCase(c)) + x.substring(i + 1);
    }

    /** A string that is not one of the spellings of a date or date-time. */
    String plainString() {
        final String x = string();
        return RefEval.kind(x) == RefEval.Kind.STR ? x : x + "x";
    }

    String nearPlainString(final String x) {
        final String y = nearString(x);
        return RefEval.kind(y) == RefEval.Kind.STR ? y : y + "x";
    }

    static boolean quotable(final String x) {
        return x.indexOf('\'') < 0 || x.indexOf('"') < 0;
    }

    // ------------------------------------------------------------ versions

    String version(final int min) {
        final int n = Math.max(min, s.chance(4) ? s.range(10, 40) : s.of(3, 3, 3, 4, 4, 2, 5, 6, 9));
        final List<String> parts = new ArrayList<>();
        for (int i = 0; i < n; i++) {
            parts.add(component());
        }
        return String.join(".", parts);
    }

    private String component() {
        return switch (s.weighted(50, 30, 8, 5, 7)) {
            case 0 -> "" + s.draw(3);
            case 1 -> "" + s.of(9, 10, 11, 99, 100, 20, 2, 5);
            case 2 -> "" + (s.bits() >>> s.range(1, 50));
            case 3 -> "" + BigInteger.valueOf(Long.MAX_VALUE).add(BigInteger.valueOf(s.draw(5))).multiply(BigInteger.valueOf(1 + s.draw(100)));
            default -> s.of("0", "00", "01", "007", "2147483647", "2147483648", "4294967296", "999999999", "1000000000");
        };
    }

    String nearVersion(final String v, final int min) {
        final List<String> parts = new ArrayList<>(List.of(v.split("\\.")));
        switch (s.weighted(20, 35, 10, 10, 10, 5, 5, 5)) {
            case 0 -> {
            }
            case 1 -> {
                final int i = s.draw(parts.size());
                final BigInteger b = new BigInteger(parts.get(i)).add(BigInteger.valueOf(s.of(1, -1, 9, 10))).max(BigInteger.ZERO);
                parts.set(i, b.toString());
            }
            case 2 -> {
                for (int i = s.range(1, 3); i > 0; i--) {
                    parts.add("0");
                }
            }
            case 3 -> parts.add(component());
            case 4 -> parts.remove(parts.size() - 1);
            case 5 -> {
                final int i = s.draw(parts.size());
                parts.set(i, "0" + parts.get(i));
            }
            case 6 -> {
                final int i = s.draw(parts.size());
                parts.set(i, parts.get(i) + "0");
            }
            default -> java.util.Collections.swap(parts, s.draw(parts.size()), s.draw(parts.size()));
        }
        while (parts.size() < min) {
            parts.add(s.of("0", "1"));
        }
        return String.join(".", parts);
    }

    // ------------------------------------------------------------ dates

    LocalDate date() {
        return switch (s.weighted(36, 18, 12, 18, 16)) {
            case 4 -> LocalDate.of(s.of(2024, 2025, 2023, 2000, 2001, 1999, 1900, 2100, 1970, 9998), s.coin() ? s.of(1, 3) : s.range(1, 12), 1).plusDays(s.of(-1, 0, 0, -2));
            case 0 -> LocalDate.of(2024, 1, 1).plusDays(s.range(-400, 400));
            case 1 -> LocalDate.of(s.of(2024, 2023, 2000, 1900, 1970, 1999, 2020), s.of(2, 1, 12, 3), s.of(28, 1, 27));
            case 2 -> LocalDate.of(s.of(2024, 2000, 2020, 1996, 4), 2, 29);
            default -> LocalDate.of(s.range(1, 9999), s.range(1, 12), s.range(1, 28));
        };
    }

    LocalDate nearDate(final LocalDate d) {
        final LocalDate r = switch (s.weighted(25, 25, 10, 10, 5, 20, 5)) {
            case 0 -> d;
            case 6 -> s.of(d.withDayOfYear(1), d.withDayOfYear(d.lengthOfYear()), d.withDayOfMonth(1), d.withDayOfMonth(d.lengthOfMonth()), d.plusWeeks(1), d.minusWeeks(1));
            case 1 -> d.plusDays(s.of(1, -1));
            case 2 -> d.plusMonths(s.of(1, -1));
            case 3 -> d.plusYears(s.of(1, -1, 10, 100, 1000, -1000));
            case 4 -> LocalDate.of(d.getYear(), Math.min(12, d.getDayOfMonth()), d.getMonthValue());
            default -> date();
        };
        return r.getYear() < 1 || r.getYear() > 9999 ? d : r;
    }

    LocalDateTime dateTime() {
        return s.chance(15) ? date().atTime(s.draw(24), s.draw(60), s.draw(60)) : date().atTime(s.of(0, 12, 23, 10, 9), s.of(0, 30, 59, 1), s.of(0, 59, 1, 30));
    }

    LocalDateTime nearDateTime(final LocalDateTime d) {
        final LocalDateTime r = switch (s.weighted(25, 20, 10, 10, 10, 5, 20)) {
            case 0 -> d;
            case 1 -> d.plusSeconds(s.of(1, -1));
            case 2 -> d.plusMinutes(s.of(1, -1));
            case 3 -> d.plusHours(s.of(1, -1, 12));
            case 4 -> d.plusDays(s.of(1, -1));
            case 5 -> d.plusYears(s.of(1, -1));
            default -> dateTime();
        };
        return r.getYear() < 1 || r.getYear() > 9999 ? d : r;
    }

    /** A value of any supported scalar type. */
    Object scalar() {
        return switch (s.weighted(4, 3, 3, 2, 1, 1)) {
            case 0 -> plainString();
            case 1 -> wholeValue();
            case 2 -> decimalValue();
            case 3 -> s.coin();
            case 4 -> date();
            default -> dateTime();
        };
    }
}
