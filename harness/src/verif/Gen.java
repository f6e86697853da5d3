package verif;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashSet;
import java.util.LinkedHashSet;
import java.util.LinkedList;
import java.util.List;
import java.util.Set;

/** Generators of expressions over a world. */
final class Gen {
    static final String[] CMP = {"=", "!=", ">", ">=", "<", "<="};
    static final String[] ARITH = {"+", "-", "*", "/", "%", "^"};

    final Source s;
    final World w;
    final Values v;
    /** percentage of leaves that are fields rather than literals where both are possible */
    int fields = 50;
    /** may leaves be absent fields */
    int missing;
    boolean allowDays;

    Gen(final World w) {
        this.s = w.s;
        this.w = w;
        this.v = w.v;
    }

    // ------------------------------------------------------------ leaves

    static RNode.Lit lit(final Object x) {
        if (x instanceof Integer) {
            return new RNode.Lit("INT", x);
        }
        if (x instanceof Long l) {
            return l == l.intValue() ? new RNode.Lit("INT", l.intValue()) : new RNode.Lit("LONG", l);
        }
        if (x instanceof BigDecimal) {
            return new RNode.Lit("DEC", x);
        }
        if (x instanceof Boolean) {
            return new RNode.Lit("BOOL", x);
        }
        if (x instanceof LocalDate) {
            return new RNode.Lit("DATE", x);
        }
        if (x instanceof LocalDateTime) {
            return new RNode.Lit("DATETIME", x);
        }
        if (x instanceof RVersion) {
            return new RNode.Lit("VER", x);
        }
        return new RNode.Lit("STR", x);
    }

    /** Can the value be written as a literal? */
    static boolean literal(final Object x) {
        if (x instanceof Integer || x instanceof Long) {
            return ((Number) x).longValue() >= 0;
        }
        if (x instanceof BigDecimal b) {
            return b.signum() >= 0 && b.scale() >= 1 && b.precision() < 400 && b.scale() < 400;
        }
        if (x instanceof String t) {
            return Values.quotable(t);
        }
        if (x instanceof LocalDate d) {
            return d.getYear() >= 0 && d.getYear() <= 9999;
        }
        if (x instanceof LocalDateTime d) {
            return d.getYear() >= 0 && d.getYear() <= 9999 && d.getNano() == 0;
        }
        return x instanceof Boolean || x instanceof RVersion r && r.text().indexOf('.') != r.text().lastIndexOf('.');
    }

    /** A literal or a field holding x. */
    RNode leaf(final Object x) {
        if (missing > 0 && s.draw(100) < missing) {
            return new RNode.Field(w.missing());
        }
        if (x instanceof RVersion r && !literal(x)) {
            return w.field(r.text());
        }
        return literal(x) && s.draw(100) >= fields ? lit(x) : w.field(x instanceof RVersion r ? r.text() : x);
    }

    /** Like leaf, but a negative number may also be written with a minus sign. */
    RNode number(final Object x) {
        if ((x instanceof Integer || x instanceof Long) && ((Number) x).longValue() < 0 && ((Number) x).longValue() > Long.MIN_VALUE && s.draw(100) >= fields) {
            return new RNode.Neg(lit(-((Number) x).longValue()));
        }
        if (x instanceof BigDecimal b && b.signum() < 0 && literal(b.negate()) && s.draw(100) >= fields) {
            return new RNode.Neg(lit(b.negate()));
        }
        return leaf(x);
    }

    // ------------------------------------------------------------ containers

    @SuppressWarnings("unchecked")
    Object container(final List<?> items) {
        return switch (s.weighted(10, 4, 2, 2, 4, 1)) {
            case 5 -> {
                // sorted sets, whose own idea of equality does not matter
                final Set<Object> set = new java.util.TreeSet<>(!items.isEmpty() && items.get(0) instanceof String && s.coin() ? (java.util.Comparator<Object>) (java.util.Comparator<?>) String.CASE_INSENSITIVE_ORDER : null);
                try {
                    set.addAll(items);
                } catch (final ClassCastException | NullPointerException e) {
                    yield new ArrayList<>(items);
                }
                yield set.size() == items.size() ? set : new ArrayList<>(items);
            }
            case 0 -> new ArrayList<>(items);
            case 1 -> array(items);
            case 2 -> new LinkedList<>(items);
            case 3 -> java.util.Collections.unmodifiableList(new ArrayList<>(items));
            default -> {
                final Set<Object> set = s.coin() ? new LinkedHashSet<>(items) : new HashSet<>(items);
                yield set.size() == items.size() ? set : new ArrayList<>(items);
            }
        };
    }

    private Object array(final List<?> items) {
        if (!items.isEmpty() && s.coin()) {
            final Class<?> c = items.get(0).getClass();
            if (items.stream().allMatch(i -> i.getClass() == c)) {
                final Object[] a = (Object[]) java.lang.reflect.Array.newInstance(c, items.size());
                return items.toArray(a);
            }
        }
        return items.toArray();
    }

    int listSize(final int min, final int max) {
        if (s.chance(3)) {
            final int n = Dict.size(s, min, max);
            if (n >= 0) {
                return n;
            }
        }
        return s.size(min, max);
    }

    // ------------------------------------------------------------ numeric expressions

    /** Numbers used before. */
    private final List<RNode> used = new ArrayList<>();

    RNode small(final int depth) {
        if (!used.isEmpty() && s.chance(12)) {
            return s.of(used);
        }
        final RNode n = number(s.chance(70) ? s.range(-20, 100) : v.number());
        used.add(n);
        return n;
    }

    /** Arithmetic that mostly evaluates without failing. */
    RNode numeric(final int depth) {
        if (depth <= 0 || s.chance(30)) {
            return small(depth);
        }
        return switch (s.weighted(30, 10, 15, 8)) {
            case 0 -> new RNode.Arith(s.of("+", "-", "*", "+", "-", "/", "%"), numeric(depth - 1), numeric(depth - 1));
            case 1 -> new RNode.Neg(numeric(depth - 1));
            case 2 -> function(depth - 1);
            default -> new RNode.Arith("^", numeric(depth - 1), lit(s.draw(5)));
        };
    }

    RNode function(final int depth) {
        final String f = s.of("MIN", "MAX", "SUM", "AVG", "MEAN", "MEDIAN", "MODE", "LEN", "INT");
        switch (f) {
            case "LEN" -> {
                return new RNode.Fn(f, List.of(s.coin() ? leaf(v.plainString()) : w.field(container(numbers(s.draw(5))))));
            }
            case "INT" -> {
                return new RNode.Fn(f, List.of(numeric(depth)));
            }
            default -> {
                final List<RNode> items = new ArrayList<>();
                if (s.chance(8)) {
                    // the same function inside itself, first or only
                    items.add(new RNode.Fn(s.chance(80) ? f : "SUM", List.of(small(0), small(0))));
                }
                for (int i = items.isEmpty() ? s.size(1, 12) : s.coin() ? 1 : s.size(0, 12); i > 0; i--) {
                    items.add(s.chance(15) ? w.field(container(numbers(s.range(1, 5)))) : numeric(depth));
                }
                return new RNode.Fn(f, items);
            }
        }
    }

    List<Object> numbers(final int n) {
        final List<Object> l = new ArrayList<>();
        for (int i = 0; i < n; i++) {
            l.add(!l.isEmpty() && s.chance(30) ? v.nearNumber(l.get(s.draw(l.size()))) : s.chance(60) ? (Object) s.range(-5, 20) : v.number());
        }
        return l;
    }

    // ------------------------------------------------------------ atoms of boolean expressions

    Object near(final Object x) {
        if (x instanceof RVersion r) {
            return new RVersion(v.nearVersion(r.text(), 3));
        }
        if (RefEval.isNumber(x)) {
            return v.nearNumber(x);
        }
        if (x instanceof String t) {
            return RefEval.kind(t) == RefEval.Kind.DATE ? v.nearDate(RefEval.date(t)).toString() : v.nearPlainString(t);
        }
        if (x instanceof LocalDate d) {
            return v.nearDate(d);
        }
        if (x instanceof LocalDateTime d) {
            return v.nearDateTime(d);
        }
        return x instanceof Boolean ? (Object) s.coin() : x;
    }

    Object scalar() {
        return s.chance(8) ? new RVersion(v.version(3)) : v.scalar();
    }

    /** A comparison of two values of one type. */
    RNode comparison() {
        final Object x = scalar();
        final Object y = near(x);
        final String op = x instanceof Boolean ? s.of("=", "!=") : s.of(CMP);
        final RNode l = x instanceof RVersion && s.coin() ? w.field(((RVersion) x).text()) : leaf(x);
        final RNode r = y instanceof RVersion ? lit(y) : leaf(y);
        return new RNode.Cmp(op, l, r);
    }

    RNode in() {
        final List<Object> xs = new ArrayList<>();
        Object x = v.scalar();
        final boolean number = RefEval.isNumber(x);
        for (int i = listSize(1, 40); i > 0; i--) {
            xs.add(near(x));
        }
        if (s.chance(40)) {
            xs.set(s.draw(xs.size()), x);
        }
        final List<RNode> items = new ArrayList<>();
        for (final Object o : xs) {
            items.add(literal(o) ? lit(o) : number ? number(o) : w.field(o));
        }
        lose(items);
        return new RNode.In(subject(x), s.chance(30), items);
    }

    RNode contains() {
        final Object x = s.chance(60) ? v.plainString() : s.coin() ? (Object) s.range(0, 20) : v.date();
        final List<Object> have = new ArrayList<>();
        for (int i = listSize(0, 30); i > 0; i--) {
            have.add(near(x));
        }
        final List<RNode> items = new ArrayList<>();
        for (int i = listSize(1, 12); i > 0; i--) {
            final Object o = !have.isEmpty() && s.chance(60) ? have.get(s.draw(have.size())) : near(x);
            items.add(literal(o) ? lit(o) : w.field(o));
        }
        lose(items);
        return new RNode.Arr(subject(container(have)), s.of("CONTAINS_ANY", "CONTAINS_ALL"), items);
    }

    /** A field holding x, or one without a value. */
    private String subject(final Object x) {
        return missing > 0 && s.draw(100) < missing ? w.missing() : w.bind(x);
    }

    private void lose(final List<RNode> items) {
        if (missing > 0 && s.draw(100) < missing && !items.isEmpty()) {
            items.set(s.draw(items.size()), new RNode.Field(w.missing()));
        }
    }

    RNode.Lit bound(final Object x) {
        return lit(x);
    }

    RNode range() {
        final int a = s.range(0, 50);
        final int b = s.chance(85) ? a + s.draw(20) : s.range(0, 50);
        return new RNode.Range(subject(s.chance(70) ? (Object) s.range(0, 60) : v.number()), lit(a), s.chance(25) ? lit(BigDecimal.valueOf(b * 10L + 5, 1)) : lit(b));
    }

    RNode nullCheck() {
        final RNode f = s.coin() ? new RNode.Field(w.missing()) : w.field(v.scalar());
        final RNode n = new RNode.Field(s.of("null", "NULL", "Null"));
        final String op = s.of("=", "!=");
        return s.chance(70) ? new RNode.Cmp(op, f, n) : new RNode.Cmp(op, n, f);
    }

    /** percentage of atoms that share their fields */
    int relations = 15;

    /** Fields that several atoms are about, and their values. */
    private final List<Object[]> subjects = new ArrayList<>();

    /** An atom about a field that other atoms are about, too. */
    private RNode related() {
        if (subjects.isEmpty() || s.chance(20)) {
            final Object x = scalar();
            subjects.add(new Object[] {w.bind(x instanceof RVersion r ? r.text() : x), x});
        }
        final Object[] subject = s.of(subjects);
        final String f = (String) subject[0];
        final Object x = subject[1];
        final Object y = near(x);
        switch (s.weighted(10, 3, 2, 1, x instanceof Boolean ? 8 : 0)) {
            case 0 -> {
                final String op = x instanceof Boolean ? s.of("=", "!=") : s.of(CMP);
                final RNode r = y instanceof RVersion && literal(y) ? lit(y) : RefEval.isNumber(y) ? number(y) : leaf(y);
                return s.chance(75) ? new RNode.Cmp(op, new RNode.Field(f), r) : new RNode.Cmp(op, r, new RNode.Field(f));
            }
            case 1 -> {
                final List<RNode> items = new ArrayList<>();
                for (int i = s.range(1, 4); i > 0; i--) {
                    items.add(leaf(near(x)));
                }
                return new RNode.In(f, s.chance(30), items);
            }
            case 2 -> {
                final Object z = near(x);
                return RefEval.isNumber(x) && literal(y) && literal(z) ? new RNode.Range(f, lit(y), lit(z)) : new RNode.Cmp("!=", new RNode.Field(f), new RNode.Field("null"));
            }
            case 3 -> {
                return new RNode.Cmp(s.of("=", "!="), new RNode.Field(f), new RNode.Field("null"));
            }
            default -> {
                return new RNode.Field(f);
            }
        }
    }

    private final List<RNode> atoms = new ArrayList<>();

    /** A boolean expression without connectives, of any kind; sometimes one used before, or one that is almost the same. */
    RNode atom(final int depth) {
        if (!atoms.isEmpty() && s.chance(7)) {
            final RNode a = s.of(atoms);
            if (a instanceof RNode.Cmp c && !RefEval.isNull(c.l()) && !RefEval.isNull(c.r())) {
                return switch (s.draw(4)) {
                    case 0 -> new RNode.Cmp(s.of(CMP), c.l(), c.r());
                    case 1 -> new RNode.Cmp(c.op(), c.r(), c.l());
                    default -> a;
                };
            }
            return a instanceof RNode.In i && s.coin() ? new RNode.In(i.field(), !i.not(), i.items()) : a;
        }
        final RNode n = s.chance(relations) ? related() : another(depth);
        atoms.add(n);
        return n;
    }

    private RNode another(final int depth) {
        return switch (s.weighted(30, 12, 6, 10, 8, 6, 6, 12, missing > 0 ? 4 : 0)) {
            case 0 -> comparison();
            case 1 -> w.field(s.coin());
            case 2 -> lit(s.coin());
            case 3 -> in();
            case 4 -> contains();
            case 5 -> range();
            case 6 -> nullCheck();
            case 7 -> new RNode.Cmp(s.of(CMP), numeric(depth), numeric(depth - 1));
            default -> new RNode.Field(w.missing());
        };
    }

    RNode bool(final int depth) {
        if (depth <= 0 || s.chance(20)) {
            return atom(2);
        }
        return s.weighted(3, 3, 1) == 2 ? new RNode.Not(bool(depth - 1)) : new RNode.Bool(s.of("AND", "OR"), bool(depth - 1), bool(depth - 1));
    }

    // ------------------------------------------------------------ trees of any shape

    private RNode.Lit anyLit() {
        while (true) {
            final Object x = scalar();
            if (literal(x)) {
                return lit(x);
            }
        }
    }

    String name() {
        return w.fresh();
    }

    /** Any tree the grammar can express, whatever it means. */
    RNode any(final int depth) {
        if (!seen.isEmpty() && s.chance(4)) {
            final RNode n = s.of(seen);
            if (RNode.size(n) < 30) {
                return n;
            }
        }
        final RNode n = shape(depth);
        seen.add(n);
        return n;
    }

    /** Subtrees made before. */
    private final List<RNode> seen = new ArrayList<>();

    private RNode shape(final int depth) {
        if (depth <= 0 || s.chance(15)) {
            return s.coin() ? new RNode.Field(s.chance(3) ? "null" : name()) : anyLit();
        }
        return switch (s.weighted(20, 20, 20, 8, 8, 6, 5, 4, 4)) {
            case 0 -> new RNode.Bool(s.of("AND", "OR"), any(depth - 1), any(depth - 1));
            case 1 -> new RNode.Cmp(s.of(CMP), any(depth - 1), any(depth - 1));
            case 2 -> new RNode.Arith(s.of(ARITH), any(depth - 1), any(depth - 1));
            case 3 -> new RNode.Not(any(depth - 1));
            case 4 -> new RNode.Neg(any(depth - 1));
            case 5 -> new RNode.Fn(s.of("MIN", "MAX", "SUM", "AVG", "MEAN", "MEDIAN", "MODE", "LEN", "INT", "DAYS_ELAPSED"), anyList(depth - 1));
            case 6 -> new RNode.In(name(), s.coin(), anyList(depth - 1));
            case 7 -> new RNode.Arr(name(), s.of("CONTAINS_ANY", "CONTAINS_ALL"), anyList(depth - 1));
            default -> new RNode.Range(name(), rangeLit(), rangeLit());
        };
    }

    private RNode.Lit rangeLit() {
        while (true) {
            final Object x = v.number();
            if (literal(x)) {
                return lit(x);
            }
        }
    }

    private List<RNode> anyList(final int depth) {
        final List<RNode> l = new ArrayList<>();
        for (int i = listSize(1, 12); i > 0; i--) {
            l.add(any(s.draw(depth + 1)));
        }
        return l;
    }

    /** A long flat or one-sided chain of binary operators. */
    RNode chain(final int n) {
        RNode x = any(1);
        final String[] ops = s.of(new String[] {"AND", "OR"}, new String[] {"+", "-"}, ARITH, new String[] {"AND", "OR", "=", "+", "*", "-", "/", "%", "^", ">"});
        for (int i = 1; i < n; i++) {
            final String op = s.of(ops);
            final RNode y = any(s.chance(10) ? 1 : 0);
            final boolean left = !s.chance(10);
            final RNode a = left ? x : y;
            final RNode b = left ? y : x;
            x = op.equals("AND") || op.equals("OR") ? new RNode.Bool(op, a, b) : Arrays.asList(ARITH).contains(op) ? new RNode.Arith(op, a, b) : new RNode.Cmp(op, a, b);
        }
        return x;
    }

    static BigInteger big(final Object x) {
        return RefEval.num(x).toBigInteger();
    }
}
