package verif;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.RoundingMode;
import java.time.DateTimeException;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collection;
import java.util.HashMap;
import java.util.List;
import java.util.Map;

/**
 * Reference evaluator. Boolean results are sets of allowed outcomes (bit mask of T, F, E), so what the specification
 * leaves open (fail or answer, or anything) never raises an alarm.
 */
public final class RefEval {
    public static final int T = 1;
    public static final int F = 2;
    public static final int E = 4;
    public static final int ANY = 7;

    /** Result of an arithmetic expression. */
    public static final class Val {
        Object v;
        /** failing is allowed */
        boolean mayFail;
        /** must fail */
        boolean fail;
        /** any outcome is allowed */
        boolean any;
        /** floating point result: compare with a tolerance */
        boolean approx;
        /** the textual form of the number is not specified (computed decimals) */
        boolean computed;
        /** whole result of whole operands: Integer when it fits, else Long */
        boolean whole;
        /** any of these values is right */
        List<BigDecimal> ties;

        static Val of(final Object v) {
            final Val r = new Val();
            r.v = v;
            return r;
        }

        static Val fail() {
            final Val r = new Val();
            r.fail = true;
            return r;
        }

        static Val any() {
            final Val r = new Val();
            r.any = true;
            return r;
        }

        /** the value is not known exactly */
        boolean loose() {
            return approx || ties != null;
        }

        Val mayFail() {
            mayFail = true;
            return this;
        }

        @Override
        public String toString() {
            return fail ? "failure" : any ? "anything" : (v instanceof String ? "\"" + v + "\"" : Show.value(v)) + (approx ? " (approx.)" : "") + (mayFail ? " or failure" : "");
        }
    }

    private final Map<String, Object> data;
    private final LocalDate today;
    /** set when a missing field was reached on the way to a certain failure */
    public boolean missing;

    public RefEval(final Map<String, Object> data) {
        this(data, null);
    }

    public RefEval(final Map<String, Object> data, final LocalDate today) {
        this.data = data;
        this.today = today;
    }

    // ---------------------------------------------------------------- values

    static LocalDate parseDate(final String s) {
        if (!s.matches("[0-9]{4}-[0-9]{2}-[0-9]{2}")) {
            return null;
        }
        try {
            return LocalDate.of(Integer.parseInt(s.substring(0, 4)), Integer.parseInt(s.substring(5, 7)), Integer.parseInt(s.substring(8, 10)));
        } catch (final DateTimeException ex) {
            return null;
        }
    }

    static LocalDateTime parseDateTime(final String s) {
        if (!s.matches("[0-9]{4}-[0-9]{2}-[0-9]{2} [0-9]{2}:[0-9]{2}:[0-9]{2}")) {
            return null;
        }
        final LocalDate d = parseDate(s.substring(0, 10));
        final int h = Integer.parseInt(s.substring(11, 13));
        final int m = Integer.parseInt(s.substring(14, 16));
        final int sec = Integer.parseInt(s.substring(17, 19));
        return d == null || h > 23 || m > 59 || sec > 59 ? null : d.atTime(h, m, sec);
    }

    enum Kind { BOOL, VERSION, WHOLE, DECIMAL, DATE, DATETIME, STR, OTHER }

    static Kind kind(final Object v) {
        if (v instanceof Boolean) {
            return Kind.BOOL;
        }
        if (v instanceof RVersion) {
            return Kind.VERSION;
        }
        if (v instanceof Integer || v instanceof Long) {
            return Kind.WHOLE;
        }
        if (v instanceof Float || v instanceof Double || v instanceof BigDecimal) {
            return Kind.DECIMAL;
        }
        if (v instanceof LocalDate) {
            return Kind.DATE;
        }
        if (v instanceof LocalDateTime) {
            return Kind.DATETIME;
        }
        if (v instanceof String s) {
            return parseDateTime(s) != null ? Kind.DATETIME : parseDate(s) != null ? Kind.DATE : Kind.STR;
        }
        return Kind.OTHER;
    }

    /** Lists, maps and other objects that are certainly no number, text, date, time, version or boolean. */
    static boolean alien(final Object v) {
        return kind(v) == Kind.OTHER && !(v instanceof Number) && !(v instanceof CharSequence) && !(v instanceof Character) && (isContainer(v) || v instanceof Map || v instanceof java.util.Optional);
    }

    static boolean isNumber(final Object v) {
        return kind(v) == Kind.WHOLE || kind(v) == Kind.DECIMAL;
    }

    static boolean finite(final Object v) {
        return !(v instanceof Double d && !Double.isFinite(d)) && !(v instanceof Float f && !Float.isFinite(f));
    }

    static BigDecimal num(final Object v) {
        return v instanceof BigDecimal b ? b : new BigDecimal(v.toString());
    }

    static Object lookup(final Map<String, Object> data, final String path) {
        Object cur = data;
        for (final String key : path.split("\\.")) {
            if (!(cur instanceof Map<?, ?> m)) {
                return null;
            }
            cur = m.get(key);
        }
        return cur;
    }

    static boolean isContainer(final Object v) {
        return v instanceof Collection || v instanceof Object[];
    }

    static List<Object> elements(final Object v) {
        return v instanceof Object[] a ? Arrays.asList(a) : new ArrayList<>((Collection<?>) v);
    }

    // ---------------------------------------------------------------- comparisons

    static int sign(final String op, final int c) {
        final boolean b = switch (op) {
            case "=" -> c == 0;
            case "!=" -> c != 0;
            case ">" -> c > 0;
            case ">=" -> c >= 0;
            case "<" -> c < 0;
            default -> c <= 0;
        };
        return b ? T : F;
    }

    /** Allowed outcomes of l = r. */
    static int eq(final Object l, final Object r) {
        final Kind a = kind(l);
        final Kind b = kind(r);
        if (a == Kind.OTHER ^ b == Kind.OTHER) {
            // a list or map is no number, text, date ..., and its items are not looked at
            final Object o = a == Kind.OTHER ? l : r;
            final Object x = a == Kind.OTHER ? r : l;
            return (isContainer(o) || o instanceof Map) && !(x instanceof String && x.equals(o.toString())) ? F | E : ANY;
        }
        if (a == Kind.OTHER || !finite(l) || !finite(r)) {
            return ANY;
        }
        if (isNumber(l) && isNumber(r)) {
            return num(l).compareTo(num(r)) == 0 ? T : F;
        }
        if (a == Kind.VERSION && b == Kind.VERSION) {
            return ((RVersion) l).compareTo((RVersion) r) == 0 ? T : F;
        }
        if (a == Kind.VERSION && b == Kind.STR || a == Kind.STR && b == Kind.VERSION) {
            final String s = a == Kind.STR ? (String) l : (String) r;
            final RVersion v = (RVersion) (a == Kind.VERSION ? l : r);
            return RVersion.isNumeric(s) ? new RVersion(s).compareTo(v) == 0 ? T : F : ANY;
        }
        if (a == Kind.STR || b == Kind.STR) {
            final Object s = a == Kind.STR ? l : r;
            final Object o = a == Kind.STR ? r : l;
            if (o instanceof String || o instanceof Integer || o instanceof Long || o instanceof Boolean || o instanceof LocalDate) {
                if (s.equals(o.toString())) {
                    return T;
                }
                if (isNumber(o)) {
                    try {
                        return new BigDecimal((String) s).compareTo(num(o)) == 0 ? ANY : F;
                    } catch (final NumberFormatException ex) {
                        return F;
                    }
                }
                return o instanceof Boolean && s.toString().equalsIgnoreCase(o.toString()) ? ANY : F;
            }
            if (isNumber(o)) {
                try {
                    return new BigDecimal((String) s).compareTo(num(o)) == 0 ? ANY : F;
                } catch (final NumberFormatException ex) {
                    return F;
                }
            }
            if (o instanceof LocalDateTime) {
                try {
                    LocalDateTime.parse((String) s);
                } catch (final java.time.format.DateTimeParseException ex) {
                    return F | E;
                }
            }
            return ANY;
        }
        if (a == b) {
            return switch (a) {
                case BOOL -> l.equals(r) ? T : F;
                case DATE -> date(l).equals(date(r)) ? T : F;
                case DATETIME -> dateTime(l).equals(dateTime(r)) ? T : F;
                default -> ANY;
            };
        }
        if (a == Kind.VERSION || b == Kind.VERSION || a == Kind.DATE && b == Kind.DATETIME || a == Kind.DATETIME && b == Kind.DATE) {
            return ANY;
        }
        return F | E; // values of unrelated types are never equal; failing is allowed
    }

    static LocalDate date(final Object v) {
        return v instanceof LocalDate d ? d : parseDate((String) v);
    }

    static LocalDateTime dateTime(final Object v) {
        return v instanceof LocalDateTime d ? d : parseDateTime((String) v);
    }

    static int not(final int m) {
        return (m & E) | ((m & T) != 0 ? F : 0) | ((m & F) != 0 ? T : 0);
    }

    static int compare(final String op, final Object l, final Object r) {
        if (op.equals("=")) {
            return eq(l, r);
        }
        if (op.equals("!=")) {
            return not(eq(l, r));
        }
        final Kind a = kind(l);
        final Kind b = kind(r);
        if (a == Kind.BOOL || b == Kind.BOOL) {
            return E;
        }
        if (a == Kind.OTHER && isNumber(r) && (isContainer(l) || l instanceof Map) || b == Kind.OTHER && isNumber(l) && (isContainer(r) || r instanceof Map)) {
            return E;
        }
        if (a == Kind.OTHER || b == Kind.OTHER || !finite(l) || !finite(r)) {
            return ANY;
        }
        if (isNumber(l) && isNumber(r)) {
            return sign(op, num(l).compareTo(num(r)));
        }
        if (a == Kind.VERSION && b == Kind.VERSION) {
            return sign(op, ((RVersion) l).compareTo((RVersion) r));
        }
        if (a == Kind.VERSION || b == Kind.VERSION) {
            final Object o = a == Kind.VERSION ? r : l;
            final boolean versionLeft = a == Kind.VERSION;
            if (o instanceof String s && kind(s) == Kind.STR && RVersion.isNumeric(s)) {
                final RVersion x = versionLeft ? (RVersion) l : new RVersion(s);
                final RVersion y = versionLeft ? new RVersion(s) : (RVersion) r;
                return sign(op, x.compareTo(y));
            }
            return ANY;
        }
        if (isNumber(l) || isNumber(r)) {
            final Object n = isNumber(l) ? l : r;
            final Object o = isNumber(l) ? r : l;
            if (!(o instanceof String s)) {
                return E;
            }
            final BigDecimal x;
            try {
                x = new BigDecimal(s);
            } catch (final NumberFormatException ex) {
                return E;
            }
            final int c = isNumber(l) ? num(l).compareTo(x) : x.compareTo(num(r));
            int m = sign(op, c);
            if (kind(n) == Kind.WHOLE) {
                final boolean fits;
                if (x.precision() - x.scale() > 20 || x.stripTrailingZeros().scale() > 0) {
                    fits = false;
                } else {
                    final BigInteger w = x.toBigIntegerExact();
                    fits = n instanceof Integer ? w.bitLength() <= 31 : w.bitLength() <= 63;
                }
                if (!fits) {
                    m |= E;
                }
            }
            return m;
        }
        if (a == Kind.STR && b == Kind.STR) {
            return sign(op, ((String) l).compareTo((String) r));
        }
        if (a == Kind.DATE && b == Kind.DATE) {
            return sign(op, date(l).compareTo(date(r)));
        }
        if (a == Kind.DATETIME && b == Kind.DATETIME) {
            return sign(op, dateTime(l).compareTo(dateTime(r)));
        }
        if (l instanceof String && r instanceof String && (a == Kind.STR || b == Kind.STR)) {
            return sign(op, ((String) l).compareTo((String) r));
        }
        if ((l instanceof LocalDate || r instanceof LocalDate) && (a == Kind.STR || b == Kind.STR)) {
            // as text, or not at all
            return sign(op, l.toString().compareTo(r.toString())) | E;
        }
        return ANY;
    }

    // ---------------------------------------------------------------- boolean expressions

    public int bool(final RNode n) {
        return switch (n) {
            case RNode.Cmp c -> cmp(c);
            case RNode.Range r -> {
                final Object v = lookup(data, r.field());
                if (v == null) {
                    missing = true;
                    yield E;
                }
                yield and(compare(">=", v, r.lo().value()), compare("<=", v, r.hi().value()));
            }
            case RNode.In in -> {
                final int m = in(in);
                yield in.not() ? not(m) : m;
            }
            case RNode.Arr a -> array(a);
            case RNode.Not x -> not(bool(x.x()));
            case RNode.Bool b -> {
                final int l = bool(b.l());
                final boolean and = b.op().equals("AND");
                int m = l & E;
                if ((l & (and ? F : T)) != 0) {
                    m |= and ? F : T;
                }
                if ((l & (and ? T : F)) != 0) {
                    m |= bool(b.r());
                }
                yield m;
            }
            case RNode.Field f -> {
                final Object v = lookup(data, f.name());
                if (v == null) {
                    missing = true;
                    yield E;
                }
                yield v instanceof Boolean x ? x ? T : F : E;
            }
            case RNode.Lit l -> l.kind().equals("BOOL") ? (Boolean) l.value() ? T : F : l.kind().equals("STR") ? ANY : lookup(data, l.value().toString()) == null ? E : ANY;
            default -> E;
        };
    }

    /** both sides are always evaluated */
    static int and(final int l, final int r) {
        int m = (l | r) & E;
        if ((l & F) != 0 && (r & (T | F)) != 0 || (r & F) != 0 && (l & (T | F)) != 0) {
            m |= F;
        }
        if ((l & T) != 0 && (r & T) != 0) {
            m |= T;
        }
        return m;
    }

    static boolean isNull(final RNode n) {
        return n instanceof RNode.Field f && f.name().equalsIgnoreCase("null");
    }

    private int cmp(final RNode.Cmp c) {
        if ((c.op().equals("=") || c.op().equals("!=")) && (isNull(c.l()) || isNull(c.r()))) {
            final RNode x = isNull(c.l()) ? c.r() : c.l();
            final int absent;
            if (x instanceof RNode.Field f) {
                absent = lookup(data, f.name()) == null ? T : F;
            } else {
                final Val v = operand(x);
                absent = v.any ? ANY : v.fail ? E : v.mayFail ? F | E : F;
            }
            return c.op().equals("=") ? absent : not(absent);
        }
        final Val l = operand(c.l());
        if (l.fail) {
            return E;
        }
        final Val r = operand(c.r());
        if (r.fail) {
            return E;
        }
        if (l.any || r.any) {
            return ANY;
        }
        int m;
        if (l.ties != null || r.ties != null) {
            m = ANY;
        } else if ((l.approx || r.approx) && isNumber(l.v) && isNumber(r.v)) {
            final double a = num(l.v).doubleValue();
            final double b = num(r.v).doubleValue();
            m = Math.abs(a - b) > 1e-6 * Math.max(1, Math.max(Math.abs(a), Math.abs(b))) ? compare(c.op(), l.v, r.v) : ANY;
        } else if (l.approx || r.approx) {
            m = ANY;
        } else if ((l.computed || r.computed) && !(isNumber(l.v) && isNumber(r.v))) {
            m = ANY;
        } else {
            m = compare(c.op(), l.v, r.v);
        }
        if (l.mayFail || r.mayFail) {
            m |= E;
        }
        return m;
    }

    private Val operand(final RNode n) {
        if (RNode.isBoolean(n)) {
            final int m = bool(n);
            if (m == T || m == F) {
                return Val.of(m == T);
            }
            return m == E ? Val.fail() : Val.any();
        }
        return arith(n);
    }

    /** Evaluates list items and flattens lists; null when the outcome is open; sets failed. */
    private List<Val> items(final List<RNode> nodes, final boolean booleansAllowed) {
        final List<Val> out = new ArrayList<>();
        boolean any = false;
        for (final RNode n : nodes) {
            final Val v = RNode.isBoolean(n) ? booleansAllowed ? operand(n) : Val.fail() : arith(n);
            if (v.fail) {
                final List<Val> failed = new ArrayList<>();
                failed.add(v);
                return any ? null : failed;
            }
            if (v.any) {
                any = true;
                continue;
            }
            if (isContainer(v.v)) {
                for (final Object o : elements(v.v)) {
                    if (o == null) {
                        any = true;
                    } else {
                        out.add(Val.of(o));
                    }
                }
            } else {
                out.add(v);
            }
        }
        return any ? null : out;
    }

    private static boolean failed(final List<Val> items) {
        return items.size() == 1 && items.get(0).fail;
    }

    private int match(final Object l, final Val r) {
        int m;
        if (r.loose()) {
            m = ANY;
        } else if (r.computed && !(isNumber(l) && isNumber(r.v))) {
            m = ANY;
        } else {
            m = eq(l, r.v);
        }
        return m;
    }

    private int in(final RNode.In in) {
        final Object v = lookup(data, in.field());
        if (v == null) {
            missing = true;
            return E;
        }
        final List<Val> items = items(in.items(), true);
        if (items == null) {
            return ANY;
        }
        if (failed(items)) {
            return E;
        }
        int result = F;
        for (final Val item : items) {
            if (item.mayFail) {
                result |= E;
            }
        }
        return anyOf(v, items, result);
    }

    private int anyOf(final Object v, final List<Val> items, final int start) {
        int result = start;
        boolean certain = false;
        for (final Val item : items) {
            final int m = match(v, item);
            if (m == T) {
                certain = true;
            }
            if ((m & T) != 0) {
                result |= T;
            }
            if ((m & E) != 0) {
                result |= E;
            }
        }
        return certain ? result & ~F : result;
    }

    private int array(final RNode.Arr a) {
        final Object v = lookup(data, a.field());
        if (v == null) {
            missing = true;
            return E;
        }
        final List<Val> items = items(a.items(), true);
        if (items == null) {
            return ANY;
        }
        if (failed(items)) {
            return E;
        }
        if (!isContainer(v)) {
            return E;
        }
        final List<Object> elements = elements(v);
        int extra = 0;
        for (final Val item : items) {
            if (item.mayFail) {
                extra |= E;
            }
        }
        // items of different types are refused; among number types, or strings that look like dates, that is left open
        for (int i = 1; i < items.size(); i++) {
            final Object x = items.get(0).v;
            final Object y = items.get(i).v;
            if (kind(x) == Kind.OTHER || kind(y) == Kind.OTHER) {
                return ANY;
            }
            if (coarse(x) != coarse(y)) {
                return E;
            }
            if (kind(x) != kind(y) || !x.getClass().equals(y.getClass())) {
                extra |= E;
            }
        }
        int all = T;
        int any = F;
        for (final Val item : items) {
            final int m = elements.stream().anyMatch(e -> e == null) ? ANY : anyOf(item.v, elements.stream().map(Val::of).toList(), F);
            final int mm = item.loose() || item.computed && !elements.stream().allMatch(RefEval::isNumber) ? ANY : m;
            // every item is looked at until the answer is known
            all = combine(all, mm, true);
            any = combine(any, mm, false);
        }
        return (a.op().equals("CONTAINS_ALL") ? all : any) | extra;
    }

    private static int combine(final int l, final int r, final boolean and) {
        int m = l & E;
        if ((l & (and ? F : T)) != 0) {
            m |= and ? F : T;
        }
        if ((l & (and ? T : F)) != 0) {
            m |= r;
        }
        return m;
    }

    private static int coarse(final Object v) {
        return switch (kind(v)) {
            case BOOL -> 0;
            case WHOLE, DECIMAL -> 1;
            case VERSION -> 2;
            case DATE, DATETIME -> v instanceof String ? 4 : kind(v) == Kind.DATE ? 3 : 5;
            default -> 4;
        };
    }

    // ---------------------------------------------------------------- arithmetic expressions

    public Val arith(final RNode n) {
        return switch (n) {
            case RNode.Lit l -> Val.of(l.value());
            case RNode.Field f -> {
                final Object v = lookup(data, f.name());
                if (v == null) {
                    missing = true;
                    yield Val.fail();
                }
                yield Val.of(v);
            }
            case RNode.Neg x -> neg(arith(x.x()));
            case RNode.Arith a -> {
                final Val l = arith(a.l());
                if (l.fail) {
                    yield l;
                }
                final Val r = arith(a.r());
                if (r.fail) {
                    yield r;
                }
                if (l.any || r.any) {
                    yield Val.any();
                }
                final Val v = binary(a.op(), l, r);
                if (!v.fail && (l.mayFail || r.mayFail)) {
                    v.mayFail = true;
                }
                yield v;
            }
            case RNode.Fn f -> function(f);
            default -> Val.fail();
        };
    }

    private Val neg(final Val x) {
        if (x.fail || x.any) {
            return x;
        }
        if (!isNumber(x.v)) {
            return kind(x.v) == Kind.OTHER && !alien(x.v) ? Val.any() : Val.fail();
        }
        if (!finite(x.v) || x.ties != null) {
            return Val.any();
        }
        final Val r = isWhole(x) ? whole(num(x.v).negate().toBigIntegerExact()) : Val.of(num(x.v).negate());
        r.computed = true;
        r.approx = x.approx;
        r.mayFail |= x.mayFail || perhapsWhole(x) && num(x.v).abs().compareTo(LONG_LIMIT) >= 0;
        return r;
    }

    static Val whole(final BigInteger v) {
        final Val r;
        if (v.bitLength() <= 31) {
            r = Val.of(v.intValueExact());
        } else if (v.bitLength() <= 63) {
            r = Val.of(v.longValueExact());
        } else {
            r = Val.of(new BigDecimal(v)).mayFail();
            r.computed = true;
            return r;
        }
        r.whole = true;
        return r;
    }

    /** whole results are Integer/Long and have a specified text */
    private static boolean isWhole(final Val v) {
        return kind(v.v) == Kind.WHOLE && (!v.computed || v.whole);
    }

    private static final BigDecimal LONG_LIMIT = BigDecimal.valueOf(Long.MAX_VALUE);

    /** the code may hold it as a Long: computed numbers have no specified class */
    private static boolean perhapsWhole(final Val v) {
        return kind(v.v) == Kind.WHOLE || v.computed && num(v.v).stripTrailingZeros().scale() <= 0;
    }

    private Val binary(final String op, final Val l, final Val r) {
        final Kind a = kind(l.v);
        final Kind b = kind(r.v);
        if (!op.equals("+") && (alien(l.v) || alien(r.v))) {
            return Val.fail();
        }
        if (a == Kind.OTHER || b == Kind.OTHER || !finite(l.v) || !finite(r.v)) {
            return Val.any();
        }
        if (op.equals("+") && (text(a) || text(b))) {
            if (a == Kind.DATE || a == Kind.DATETIME || b == Kind.DATE || b == Kind.DATETIME) {
                return Val.any();
            }
            if (l.loose() || r.loose() || isNumber(l.v) && l.computed && !l.whole || isNumber(r.v) && r.computed && !r.whole) {
                return Val.any();
            }
            return Val.of(l.v + String.valueOf(r.v));
        }
        if (!isNumber(l.v) || !isNumber(r.v)) {
            return Val.fail();
        }
        final BigDecimal x = num(l.v);
        final BigDecimal y = num(r.v);
        final boolean approx = l.loose() || r.loose();
        if (Math.abs(x.scale()) > 2000 || Math.abs(y.scale()) > 2000 || x.precision() > 5000 || y.precision() > 5000) {
            return Val.any();
        }
        if (approx) {
            return Val.any();
        }
        final boolean whole = isWhole(l) && isWhole(r);
        // a computed number may be held in a wider type than needed, which only matters for overflow and for %
        final boolean wide = kind(l.v) == Kind.WHOLE && l.computed && !l.whole || kind(r.v) == Kind.WHOLE && r.computed && !r.whole;
        final Val out;
        switch (op) {
            case "+", "-", "*" -> {
                final BigDecimal v = op.equals("+") ? x.add(y) : op.equals("-") ? x.subtract(y) : x.multiply(y);
                if (whole) {
                    out = whole(v.toBigIntegerExact());
                } else {
                    out = Val.of(v);
                }
                out.computed = true;
                out.mayFail |= perhapsWhole(l) && perhapsWhole(r) && v.abs().compareTo(LONG_LIMIT) >= 0;
                return out;
            }
            case "/" -> {
                if (y.signum() == 0) {
                    return Val.fail();
                }
                out = Val.of(x.divide(y, 3, RoundingMode.DOWN));
                out.computed = true;
                return out;
            }
            case "%" -> {
                if (kind(l.v) == Kind.DECIMAL || kind(r.v) == Kind.DECIMAL) {
                    final boolean computedWhole = x.stripTrailingZeros().scale() <= 0 && y.stripTrailingZeros().scale() <= 0 && (l.computed || r.computed);
                    return computedWhole ? Val.any() : Val.fail();
                }
                if (wide) {
                    return Val.any();
                }
                if (y.signum() == 0) {
                    return Val.fail();
                }
                out = Val.of(x.toBigIntegerExact().remainder(y.toBigIntegerExact()).longValueExact());
                out.computed = true;
                return out;
            }
            default -> {
                return power(x, y);
            }
        }
    }

    private static boolean text(final Kind k) {
        return k == Kind.STR || k == Kind.BOOL || k == Kind.VERSION;
    }

    private static Val power(final BigDecimal x, final BigDecimal y) {
        final Val out;
        final boolean wholes = x.stripTrailingZeros().scale() <= 0 && y.stripTrailingZeros().scale() <= 0;
        if (wholes && y.signum() >= 0 && (y.compareTo(BigDecimal.valueOf(1100)) <= 0)) {
            final BigInteger base = x.toBigIntegerExact();
            final int e = y.intValueExact();
            if ((long) base.bitLength() * e <= 53) {
                out = Val.of(new BigDecimal(base.pow(e)));
                out.computed = true;
                return out;
            }
            if (base.bitLength() <= 53) {
                final double d = Math.pow(base.doubleValue(), e);
                if (!Double.isFinite(d)) {
                    return Val.fail();
                }
                out = Val.of(new BigDecimal(d));
                out.approx = true;
                out.computed = true;
                return out;
            }
        }
        final double d = Math.pow(x.doubleValue(), y.doubleValue());
        if (!Double.isFinite(d)) {
            return Math.abs(x.doubleValue()) > 1e300 ? Val.any() : Val.fail();
        }
        out = Val.of(new BigDecimal(d));
        out.approx = true;
        out.computed = true;
        return out;
    }

    private Val function(final RNode.Fn f) {
        if (f.name().equals("LEN") && f.items().size() == 1 && !RNode.isBoolean(f.items().get(0))) {
            final Val v = arith(f.items().get(0));
            if (v.fail || v.any) {
                return v;
            }
            final Val out;
            if (isContainer(v.v)) {
                out = Val.of(elements(v.v).size());
            } else if (v.v instanceof String s) {
                out = Val.of(s.length());
            } else if (kind(v.v) == Kind.OTHER) {
                return Val.any();
            } else {
                out = Val.of(1);
            }
            out.mayFail = v.mayFail;
            out.whole = true;
            return out;
        }
        final List<Val> items = items(f.items(), false);
        if (items == null) {
            return Val.any();
        }
        if (failed(items)) {
            return Val.fail();
        }
        boolean mayFail = false;
        boolean approx = false;
        boolean other = false;
        boolean numbers = true;
        for (final Val v : items) {
            mayFail |= v.mayFail;
            approx |= v.loose();
            other |= kind(v.v) == Kind.OTHER || !finite(v.v);
            numbers &= isNumber(v.v);
        }
        if (!f.name().equals("LEN") && items.stream().anyMatch(v -> alien(v.v))) {
            return Val.fail();
        }
        if (other) {
            return Val.any();
        }
        final Val out;
        switch (f.name()) {
            case "LEN" -> {
                if (items.isEmpty()) {
                    return Val.of(0).mayFail();
                }
                out = Val.of(items.size());
                if (items.size() == 1) {
                    return Val.any();
                }
                out.whole = true;
            }
            case "DAYS_ELAPSED" -> {
                if (hasContainer(f.items())) {
                    return Val.any();
                }
                if (f.items().size() != 1) {
                    return Val.fail();
                }
                if (kind(items.get(0).v) != Kind.DATE) {
                    return kind(items.get(0).v) == Kind.DATETIME ? Val.any() : Val.fail();
                }
                if (today == null) {
                    return Val.any();
                }
                out = Val.of(today.toEpochDay() - date(items.get(0).v).toEpochDay());
                out.computed = true;
            }
            case "INT" -> {
                if (hasContainer(f.items())) {
                    return Val.any();
                }
                if (f.items().size() != 1 || !numbers) {
                    return Val.fail();
                }
                if (approx) {
                    return Val.any();
                }
                final BigDecimal whole = num(items.get(0).v).setScale(0, RoundingMode.DOWN);
                out = whole.precision() > 19 || whole.toBigInteger().bitLength() > 63 ? Val.of(whole) : whole(whole.toBigIntegerExact());
                out.computed = true;
            }
            default -> {
                if (items.isEmpty() || !numbers) {
                    return Val.fail();
                }
                if (approx) {
                    return Val.any();
                }
                return aggregate(f.name(), items, mayFail);
            }
        }
        out.mayFail |= mayFail;
        return out;
    }

    private boolean hasContainer(final List<RNode> items) {
        return items.stream().anyMatch(i -> i instanceof RNode.Field x && isContainer(lookup(data, x.name())));
    }

    private static Val aggregate(final String name, final List<Val> items, final boolean mayFail) {
        final List<BigDecimal> xs = new ArrayList<>();
        boolean decimals = false;
        for (final Val v : items) {
            xs.add(num(v.v));
            decimals |= kind(v.v) == Kind.DECIMAL;
        }
        final Val out = new Val();
        out.computed = true;
        out.mayFail = mayFail;
        switch (name) {
            case "MIN" -> out.v = xs.stream().min(BigDecimal::compareTo).get();
            case "MAX" -> out.v = xs.stream().max(BigDecimal::compareTo).get();
            case "SUM" -> {
                final BigDecimal s = xs.stream().reduce(BigDecimal.ZERO, BigDecimal::add);
                out.v = s;
                // whole numbers are summed in the long range
                BigDecimal pos = BigDecimal.ZERO;
                BigDecimal negative = BigDecimal.ZERO;
                for (final BigDecimal x : xs) {
                    if (x.signum() > 0) {
                        pos = pos.add(x);
                    } else {
                        negative = negative.add(x);
                    }
                }
                final BigDecimal limit = BigDecimal.valueOf(Long.MAX_VALUE);
                if (pos.compareTo(limit) > 0 || negative.abs().compareTo(limit) > 0) {
                    out.mayFail = true;
                }
            }
            case "AVG", "MEAN" -> {
                final BigDecimal s = xs.stream().reduce(BigDecimal.ZERO, BigDecimal::add);
                out.v = s.divide(BigDecimal.valueOf(xs.size()), 3, RoundingMode.DOWN);
                if (s.abs().compareTo(BigDecimal.valueOf(Long.MAX_VALUE)) > 0) {
                    out.mayFail = true;
                }
            }
            case "MEDIAN" -> {
                final List<BigDecimal> sorted = new ArrayList<>(xs);
                sorted.sort(BigDecimal::compareTo);
                final int n = sorted.size();
                out.v = n % 2 == 1 ? sorted.get(n / 2) : sorted.get(n / 2).add(sorted.get(n / 2 - 1)).divide(BigDecimal.valueOf(2), 2, RoundingMode.DOWN);
            }
            default -> {
                final Map<BigDecimal, Integer> count = new HashMap<>();
                for (final BigDecimal x : xs) {
                    count.merge(x.stripTrailingZeros(), 1, Integer::sum);
                }
                final int max = count.values().stream().mapToInt(i -> i).max().getAsInt();
                final List<BigDecimal> best = new ArrayList<>();
                count.forEach((k, c) -> {
                    if (c == max) {
                        best.add(k);
                    }
                });
                out.v = best.get(0);
                if (best.size() > 1) {
                    out.ties = best;
                }
            }
        }
        return out;
    }
}
