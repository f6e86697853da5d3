package verif;

import static verif.Props.reg;

import java.math.BigDecimal;
import java.util.ArrayList;
import java.util.List;
import java.util.Map;

/** Expressions that say the same in two ways. The oracle is the law alone; no reference evaluation is involved. */
final class Laws {
    private Laws() {
    }

    private static RNode cmp(final String op, final RNode l, final RNode r) {
        return new RNode.Cmp(op, l, r);
    }

    private static RNode and(final RNode l, final RNode r) {
        return new RNode.Bool("AND", l, r);
    }

    private static RNode or(final RNode l, final RNode r) {
        return new RNode.Bool("OR", l, r);
    }

    private static RNode not(final RNode x) {
        return new RNode.Not(x);
    }

    private static RNode ar(final String op, final RNode l, final RNode r) {
        return new RNode.Arith(op, l, r);
    }

    private static RNode fn(final String f, final RNode... items) {
        return new RNode.Fn(f, List.of(items));
    }

    private static String mirrored(final String op) {
        return switch (op) {
            case "<" -> ">";
            case ">" -> "<";
            case "<=" -> ">=";
            case ">=" -> "<=";
            default -> op;
        };
    }

    private static String opposite(final String op) {
        return switch (op) {
            case "<" -> ">=";
            case ">" -> "<=";
            case "<=" -> ">";
            case ">=" -> "<";
            case "=" -> "!=";
            default -> "=";
        };
    }

    static void register() {
        reg("C30", 150000, 900_000, "pairs of expressions that a law makes equal, over values of all types (mixed ones included), literals, fields and sub-expressions: mirrored and negated comparisons, order and transitivity, IN "
                + "as OR of =, CONTAINS as OR and AND of single items, TO as two comparisons, order and repetition of items and elements and the kind of container, boolean algebra, arithmetic identities, "
                + "relations between the functions; non-trivial: neither side fails", c -> {
            switch (c.s.weighted(5, 4, 3, 6, 5, 5)) {
                case 0 -> comparisons(c);
                case 1 -> membership(c);
                case 2 -> order(c);
                case 3 -> algebra(c);
                case 4 -> identities(c);
                default -> functions(c);
            }
        });
    }

    /** Both sides have the same outcome; unless strict, only when neither fails. */
    private static void same(final Ctx c, final World w, final String law, final boolean strict, final RNode a, final RNode b) {
        final Map<String, Object> data = w.data();
        final String x = Printer.print(a, Printer.any(c.s));
        final String y = Printer.print(b, Printer.any(c.s));
        c.note(law + ": " + Show.text(x) + "  and  " + Show.text(y));
        c.executions += 2;
        final boolean bool = RNode.isBoolean(a) || RNode.isBoolean(b);
        final Out o = bool ? Impl.bool(x, data, null) : Impl.arith(x, data);
        final Out p = bool ? Impl.bool(y, data, null) : Impl.arith(y, data);
        c.label(law.replace(' ', '_'));
        if (!strict && (o.failed() || p.failed())) {
            return;
        }
        if (!Checks.sameNumerically(o, p)) {
            throw c.fail("the first gives " + o + "\nthe second     " + p);
        }
        c.nontrivial |= !o.failed();
    }

    /** Values of one type, near each other; or of any types. */
    private static Object[] values(final Gen g, final int n, final boolean mixed) {
        final Object[] v = new Object[n];
        v[0] = g.scalar();
        for (int i = 1; i < n; i++) {
            v[i] = mixed && g.s.coin() ? g.scalar() : g.near(v[g.s.draw(i)]);
        }
        return v;
    }

    private static RNode operand(final Gen g, final Object x) {
        return RefEval.isNumber(x) ? g.number(x) : g.leaf(x);
    }

    private static void comparisons(final Ctx c) {
        final World w = new World(c.s);
        final Gen g = new Gen(w);
        final boolean mixed = c.s.chance(50);
        final Object[] v = values(g, 2, mixed);
        final RNode x = operand(g, v[0]);
        final RNode y = operand(g, v[1]);
        c.note("data: " + w.show());
        for (final String op : Gen.CMP) {
            same(c, w, "mirrored", true, cmp(op, x, y), cmp(mirrored(op), y, x));
        }
        same(c, w, "negated equality", true, cmp("!=", x, y), not(cmp("=", x, y)));
        same(c, w, "negated order", false, not(cmp("<", x, y)), cmp(">=", x, y));
        same(c, w, "negated order", false, not(cmp(">", x, y)), cmp("<=", x, y));
        if (!mixed) {
            same(c, w, "at most", false, cmp("<=", x, y), or(cmp("<", x, y), cmp("=", x, y)));
            same(c, w, "equality from order", false, cmp("=", x, y), and(cmp("<=", x, y), cmp(">=", x, y)));
        }
        same(c, w, "itself", false, cmp("=", x, x), Gen.lit(true));
    }

    private static void membership(final Ctx c) {
        final Source s = c.s;
        final World w = new World(s);
        final Gen g = new Gen(w);
        switch (s.draw(4)) {
            case 0, 1 -> {
                final Object[] v = values(g, s.range(2, 7), s.coin());
                final String f = w.bind(v[0] instanceof RVersion r ? r.text() : v[0]);
                final List<RNode> items = new ArrayList<>();
                for (int i = 1; i < v.length; i++) {
                    items.add(operand(g, v[i]));
                }
                RNode any = cmp("=", new RNode.Field(f), items.get(0));
                for (int i = 1; i < items.size(); i++) {
                    any = or(any, cmp("=", new RNode.Field(f), items.get(i)));
                }
                final RNode in = new RNode.In(f, false, items);
                final List<RNode> shuffled = shuffle(s, items);
                c.note("data: " + w.show());
                same(c, w, "in as alternatives", true, in, any);
                same(c, w, "not in", true, new RNode.In(f, true, items), not(in));
                same(c, w, "order of items", false, in, new RNode.In(f, false, shuffled));
            }
            case 2 -> {
                final Object x = g.v.number();
                final Object lo = g.v.nearNumber(x);
                final Object hi = s.chance(70) ? g.v.nearNumber(x) : g.v.number();
                if (!Gen.literal(lo) || !Gen.literal(hi)) {
                    return;
                }
                // a number held as text may fail to compare with one end, which AND may leave out
                final boolean held = s.chance(20);
                final String f = w.bind(held ? RefEval.num(x).toPlainString() : x);
                c.note("data: " + w.show());
                same(c, w, "to as two comparisons", !held, new RNode.Range(f, Gen.lit(lo), Gen.lit(hi)), and(cmp(">=", new RNode.Field(f), Gen.lit(lo)), cmp("<=", new RNode.Field(f), Gen.lit(hi))));
            }
            default -> {
                final Object x = s.chance(50) ? g.v.plainString() : g.v.scalar();
                final List<Object> have = new ArrayList<>();
                for (int i = g.listSize(1, 10); i > 0; i--) {
                    final Object y = s.chance(20) ? g.v.scalar() : g.near(x);
                    have.add(y instanceof RVersion r ? r.text() : y);
                }
                // items of one type
                final List<RNode> items = new ArrayList<>();
                final boolean text = x instanceof String t && RefEval.kind(t) == RefEval.Kind.STR;
                final boolean whole = x instanceof Integer;
                for (int i = s.range(1, 5); i > 0; i--) {
                    final Object y = g.near(x);
                    if (!whole && !text || whole && y instanceof Integer k && k >= 0 || text && Gen.literal(y)) {
                        items.add(whole || text ? Gen.lit(y) : g.leaf(x));
                    }
                }
                if (items.isEmpty()) {
                    return;
                }
                final String f = w.bind(new ArrayList<>(have));
                final String f2 = w.bind(g.container(shuffle(s, have)));
                final boolean all = s.coin();
                final String op = all ? "CONTAINS_ALL" : "CONTAINS_ANY";
                RNode each = new RNode.Arr(f, op, List.of(items.get(0)));
                for (int i = 1; i < items.size(); i++) {
                    final RNode one = new RNode.Arr(f, all ? "CONTAINS_ANY" : "CONTAINS_ALL", List.of(items.get(i)));
                    each = all ? and(each, one) : or(each, one);
                }
                c.note("data: " + w.show());
                final RNode arr = new RNode.Arr(f, op, items);
                // items that are fields may make the list one of several types
                same(c, w, "contains item by item", text || whole, arr, each);
                final List<RNode> more = new ArrayList<>(shuffle(s, items));
                more.add(s.of(items));
                same(c, w, "order and repetition of items", false, arr, new RNode.Arr(f, op, more));
                same(c, w, "order and kind of container", false, arr, new RNode.Arr(f2, op, items));
            }
        }
    }

    private static <T> List<T> shuffle(final Source s, final List<T> l) {
        final List<T> out = new ArrayList<>(l);
        for (int i = out.size() - 1; i > 0; i--) {
            java.util.Collections.swap(out, i, s.draw(i + 1));
        }
        return out;
    }

    /** Three values of one type are in one order. */
    private static void order(final Ctx c) {
        final World w = new World(c.s);
        final Gen g = new Gen(w);
        final Object[] v = values(g, 3, false);
        if (v[0] instanceof Boolean) {
            return;
        }
        final RNode[] x = new RNode[3];
        for (int i = 0; i < 3; i++) {
            // two fields that hold the texts of versions compare as texts, so versions are literals here
            if (v[i] instanceof RVersion && !Gen.literal(v[i])) {
                return;
            }
            x[i] = v[i] instanceof RVersion ? Gen.lit(v[i]) : operand(g, v[i]);
        }
        c.note("data: " + w.show());
        final boolean[][] le = new boolean[3][3];
        for (int i = 0; i < 3; i++) {
            for (int j = 0; j < 3; j++) {
                final String t = Printer.print(cmp("<=", x[i], x[j]), Printer.plain(c.s));
                c.executions++;
                final Out o = Impl.bool(t, w.data(), null);
                if (o.failed()) {
                    return;
                }
                c.note(t + " is " + o);
                le[i][j] = (Boolean) o.value();
            }
        }
        c.label("order");
        c.nontrivial = true;
        for (int i = 0; i < 3; i++) {
            for (int j = 0; j < 3; j++) {
                if (!le[i][j] && !le[j][i]) {
                    throw c.fail("neither " + x[i] + " <= " + x[j] + " nor the other way round");
                }
                for (int k = 0; k < 3; k++) {
                    if (le[i][j] && le[j][k] && !le[i][k]) {
                        throw c.fail(x[i] + " <= " + x[j] + " <= " + x[k] + ", but not the first <= the last");
                    }
                }
            }
        }
    }

    private static RNode about(final Gen g, final RNode f, final Object x) {
        final Object y = g.near(x);
        final RNode r = y instanceof RVersion ? Gen.literal(y) ? Gen.lit(y) : g.leaf(y) : operand(g, y);
        final String op = x instanceof Boolean ? g.s.of("=", "!=") : g.s.of(Gen.CMP);
        return g.s.chance(75) ? cmp(op, f, r) : cmp(op, r, f);
    }

    private static void algebra(final Ctx c) {
        final Source s = c.s;
        final World w = new World(s);
        final Gen g = new Gen(w);
        g.missing = s.chance(50) ? 10 : 0;
        g.relations = s.chance(50) ? 80 : 15;
        final RNode a;
        final RNode b;
        if (s.chance(40)) {
            // two comparisons of one field
            final Object x = g.scalar();
            final RNode f = w.field(x instanceof RVersion r ? r.text() : x);
            a = about(g, f, x);
            b = about(g, f, x);
        } else {
            a = g.bool(s.draw(2));
            b = g.bool(s.draw(2));
        }
        final RNode d = g.bool(s.draw(2));
        c.note("data: " + w.show());
        switch (s.draw(9)) {
            case 0 -> same(c, w, "De Morgan", true, not(and(a, b)), or(not(a), not(b)));
            case 1 -> same(c, w, "De Morgan", true, not(or(a, b)), and(not(a), not(b)));
            case 2 -> same(c, w, "double negation", true, not(not(and(a, b))), and(a, b));
            case 3 -> same(c, w, "associativity", true, and(a, and(b, d)), and(and(a, b), d));
            case 4 -> same(c, w, "associativity", true, or(a, or(b, d)), or(or(a, b), d));
            case 5 -> same(c, w, "distributivity", true, and(a, or(b, d)), or(and(a, b), and(a, d)));
            case 6 -> same(c, w, "distributivity", true, or(a, and(b, d)), and(or(a, b), or(a, d)));
            case 7 -> {
                same(c, w, "absorption", true, and(a, or(a, b)), and(a, Gen.lit(true)));
                same(c, w, "absorption", true, or(a, and(a, b)), or(a, Gen.lit(false)));
            }
            default -> {
                same(c, w, "commutativity", false, and(a, b), and(b, a));
                same(c, w, "commutativity", false, or(a, b), or(b, a));
            }
        }
    }

    private static void identities(final Ctx c) {
        final Source s = c.s;
        final World w = new World(s);
        final Gen g = new Gen(w);
        if (s.chance(15)) {
            final RNode x = g.leaf(g.v.plainString());
            final RNode y = g.leaf(g.v.plainString());
            final RNode z = g.leaf(g.v.plainString());
            c.note("data: " + w.show());
            if (s.coin()) {
                // what looks like a date is a date: joined texts that do are left out
                final String all = Show.value(Impl.arith(Printer.print(ar("+", ar("+", x, y), z), Printer.plain(s)), w.data()).value());
                if (!all.matches(".*[0-9]{4}-[0-9]{2}-[0-9]{2}.*")) {
                    same(c, w, "joining is associative", true, ar("+", ar("+", x, y), z), ar("+", x, ar("+", y, z)));
                }
            } else {
                same(c, w, "joined length", true, fn("LEN", ar("+", x, y)), ar("+", fn("LEN", x), fn("LEN", y)));
            }
            return;
        }
        final Object u = g.v.number();
        final RNode x = g.number(u);
        final RNode y = g.number(s.coin() ? g.v.number() : g.v.nearNumber(u));
        final RNode z = g.number(g.v.number());
        final RNode a = g.number(g.v.wholeValue());
        final RNode b = g.number(s.chance(70) ? s.range(1, 20) : g.v.wholeValue());
        c.note("data: " + w.show());
        switch (s.draw(9)) {
            case 0 -> {
                same(c, w, "sum commutes", true, ar("+", x, y), ar("+", y, x));
                same(c, w, "product commutes", true, ar("*", x, y), ar("*", y, x));
            }
            case 1 -> same(c, w, "sums associate", false, ar("+", ar("+", x, y), z), ar("+", x, ar("+", y, z)));
            case 2 -> same(c, w, "products associate", false, ar("*", ar("*", x, y), z), ar("*", x, ar("*", y, z)));
            case 3 -> same(c, w, "products distribute", false, ar("*", x, ar("+", y, z)), ar("+", ar("*", x, y), ar("*", x, z)));
            case 4 -> {
                same(c, w, "difference as sum", false, ar("-", x, y), ar("+", x, new RNode.Neg(y)));
                same(c, w, "difference mirrored", false, ar("-", x, y), new RNode.Neg(ar("-", y, x)));
            }
            case 5 -> same(c, w, "minus twice", false, new RNode.Neg(new RNode.Neg(x)), ar("+", x, Gen.lit(0)));
            case 6 -> {
                same(c, w, "neutral elements", false, ar("*", x, Gen.lit(1)), ar("-", x, Gen.lit(0)));
                same(c, w, "zero", false, ar("-", x, x), ar("*", x, Gen.lit(0)));
                same(c, w, "sign", false, new RNode.Neg(x), ar("*", x, new RNode.Neg(Gen.lit(1))));
            }
            case 7 -> {
                // a = INT(a / b) * b + a % b
                same(c, w, "quotient and remainder", false, ar("+", ar("*", fn("INT", ar("/", a, b)), b), ar("%", a, b)), ar("+", a, Gen.lit(0)));
            }
            default -> {
                same(c, w, "order of sums", false, cmp("<", x, y), cmp("<", ar("-", x, y), Gen.lit(0)));
                same(c, w, "equality of sums", false, cmp("=", ar("+", x, z), ar("+", y, z)), and(cmp("<=", x, y), cmp(">=", x, y)));
            }
        }
    }

    private static void functions(final Ctx c) {
        final Source s = c.s;
        final World w = new World(s);
        final Gen g = new Gen(w);
        final List<Object> v = new ArrayList<>();
        for (int i = g.listSize(1, 40); i > 0; i--) {
            v.add(!v.isEmpty() && s.chance(40) ? g.v.nearNumber(v.get(s.draw(v.size()))) : s.chance(60) ? (Object) s.range(-9, 30) : g.v.number());
        }
        final List<RNode> items = new ArrayList<>();
        v.forEach(i -> items.add(g.number(i)));
        final List<RNode> negated = items.stream().map(i -> (RNode) new RNode.Neg(i)).toList();
        final String f = s.of("MIN", "MAX", "SUM", "AVG", "MEAN", "MEDIAN", "MODE", "LEN");
        final RNode list = w.field(g.container(shuffle(s, v)));
        final int cut = s.draw(items.size());
        final List<RNode> parts = new ArrayList<>();
        if (cut > 0) {
            parts.add(w.field(g.container(v.subList(0, cut))));
        }
        parts.addAll(items.subList(cut, items.size()));
        final RNode all = new RNode.Fn(f, items);
        // no intermediate result leaves the range of exact numbers
        final boolean small = v.stream().allMatch(i -> RefEval.num(i).abs().compareTo(BigDecimal.valueOf(1L << 40)) < 0);
        c.note("data: " + w.show());
        switch (s.draw(8)) {
            case 0 -> {
                if (!f.equals("MODE")) {
                    same(c, w, "order of arguments", small, all, new RNode.Fn(f, shuffle(s, items)));
                    same(c, w, "list for arguments", small, all, f.equals("LEN") && items.size() == 1 ? all : new RNode.Fn(f, List.of(list)));
                    same(c, w, "list and arguments", small, all, f.equals("LEN") && items.size() == 1 ? all : new RNode.Fn(f, parts));
                }
            }
            case 1 -> same(c, w, "AVG and MEAN", true, new RNode.Fn("AVG", items), new RNode.Fn("MEAN", items));
            case 2 -> same(c, w, "MIN and MAX", small, new RNode.Fn("MIN", items), new RNode.Neg(new RNode.Fn("MAX", negated)));
            case 3 -> {
                RNode sum = items.get(0);
                for (int i = 1; i < items.size(); i++) {
                    sum = ar("+", sum, items.get(i));
                }
                same(c, w, "SUM as +", small, new RNode.Fn("SUM", items), items.size() == 1 ? ar("+", sum, Gen.lit(0)) : sum);
            }
            case 4 -> {
                if (cut > 0) {
                    final String h = s.of("MIN", "MAX", "SUM");
                    same(c, w, "parts", small, new RNode.Fn(h, items), fn(h, new RNode.Fn(h, items.subList(0, cut)), new RNode.Fn(h, items.subList(cut, items.size()))));
                }
            }
            case 5 -> {
                final RNode x = items.get(0);
                same(c, w, "INT twice", small, fn("INT", fn("INT", x)), fn("INT", x));
                same(c, w, "INT and minus", small, fn("INT", new RNode.Neg(x)), new RNode.Neg(fn("INT", x)));
                for (final String h : List.of("MIN", "MAX", "SUM", "MEDIAN", "MODE")) {
                    same(c, w, "single", small, new RNode.Fn(h, List.of(x)), ar("+", x, Gen.lit(0)));
                }
            }
            case 6 -> {
                // MIN <= MEDIAN, MEAN <= MAX (both are cut off towards zero, hence the margins)
                final RNode min = new RNode.Fn("MIN", items);
                final RNode max = new RNode.Fn("MAX", items);
                final RNode margin = Gen.lit(new BigDecimal("0.01"));
                for (final String h : List.of("MEDIAN", "MEAN", "MODE")) {
                    final RNode m = new RNode.Fn(h, items);
                    same(c, w, "bounds", small, cmp("<=", min, ar("+", m, margin)), cmp("=", Gen.lit(1), Gen.lit(1)));
                    same(c, w, "bounds", small, cmp("<=", ar("-", m, margin), max), cmp("=", Gen.lit(1), Gen.lit(1)));
                }
            }
            default -> {
                // the least is in the list, and nothing is below it
                final RNode min = new RNode.Fn(s.of("MIN", "MAX"), items);
                RNode any = cmp("=", min, items.get(0));
                for (int i = 1; i < items.size(); i++) {
                    any = or(any, cmp("=", min, items.get(i)));
                }
                same(c, w, "extreme is one of them", small, any, cmp("=", Gen.lit(1), Gen.lit(1)));
            }
        }
    }
}
