package verif;

import static verif.Props.reg;

import com.github.sidhant92.boolparser.domain.logical.Node;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import com.github.sidhant92.boolparser.parser.antlr.CachedBoolParser;
import java.lang.ref.WeakReference;
import java.math.BigDecimal;
import java.time.LocalDate;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.HashMap;
import java.util.HashSet;
import java.util.LinkedHashMap;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Locale;
import java.util.Map;
import java.util.Set;
import java.util.SplittableRandom;
import java.util.TreeMap;

/** Size, the cache as a resource, and the entries an expression does not name. */
final class Extra {
    private Extra() {
    }

    static void register() {
        scale();
        resource();
        frame();
        renaming();
    }

    // ------------------------------------------------------------ size

    /** A size from small to max: spread over the orders of magnitude, often at a power of two or ten or at a constant of the code, give or take one. */
    static int big(final Source s, final int max) {
        final int n = switch (s.weighted(5, 3, 2, 2)) {
            case 0 -> s.range(1, 1 + s.draw(max));
            case 1 -> (1 << s.range(5, 31 - Integer.numberOfLeadingZeros(max))) + s.range(-1, 1);
            case 2 -> s.of(50, 100, 200, 250, 500, 1000, 2000, 5000, 10_000) + s.range(-1, 1);
            default -> Math.max(40, Dict.size(s, 20, max));
        };
        return Math.max(2, Math.min(max, n));
    }

    /** Positions at which something matters: ends, middle, anywhere. */
    private static int spot(final Source s, final int n) {
        return switch (s.weighted(3, 2, 1, 4)) {
            case 0 -> n - 1;
            case 1 -> 0;
            case 2 -> n / 2;
            default -> s.draw(n);
        };
    }

    private static void scale() {
        reg("C28", 4000, 40_000, "one thing made big: chains of up to 3000 operands under AND/OR, + and - or concatenation, lists of up to 40000 items, list fields of up to 70000 elements, functions of up to 70000 values, "
                + "texts of up to 140000 characters, parentheses, NOTs, functions and paths nested up to 200 deep, maps of up to 20000 entries, with what decides the outcome at the ends, in the middle or anywhere; "
                + "compared with the reference; non-trivial: the big part has at least 100 elements and the reference knows the outcome", c -> {
            final Source s = c.s;
            final World w = new World(s);
            w.nested = 10;
            w.decoys = false;
            final Gen g = new Gen(w);
            final int what = s.weighted(4, 4, 2, 4, 4, 5, 4, 3, 2);
            int n = 0;
            switch (what) {
                case 0 -> {
                    n = big(s, 3000);
                    check(c, w, logical(g, n));
                }
                case 1 -> {
                    n = big(s, 3000);
                    sum(c, g, n);
                }
                case 2 -> {
                    n = big(s, 1500);
                    RNode x = g.leaf(g.v.plainString());
                    for (int i = 1; i < n; i++) {
                        x = new RNode.Arith("+", x, i % 11 == 0 ? Gen.lit(i) : Gen.lit(i % 7 == 0 ? " " : "ab".substring(i % 2)));
                    }
                    arith(c, w, x);
                }
                case 3 -> {
                    n = big(s, s.chance(2) ? 40_000 : 5000);
                    check(c, w, in(g, n));
                }
                case 4 -> {
                    n = huge(s);
                    check(c, w, contains(g, n));
                }
                case 5 -> {
                    n = huge(s);
                    aggregate(c, g, n);
                }
                case 6 -> {
                    n = big(s, s.chance(6) ? 140_000 : s.coin() ? 60_000 : 3000);
                    text(c, g, n);
                }
                case 7 -> {
                    n = big(s, 200);
                    nested(c, g, n);
                }
                default -> {
                    n = big(s, 20_000);
                    map(c, g, n);
                }
            }
            c.label("kind_" + List.of("logical", "sum", "concatenation", "in", "contains", "aggregate", "text", "nested", "map").get(what));
            c.label("size_" + (n < 100 ? "below_100" : n < 1000 ? "below_1000" : n < 10_000 ? "below_10000" : "10000_and_more"));
            c.nontrivial &= n >= 100;
        });
    }

    private static int huge(final Source s) {
        return s.chance(8) ? s.range(30_000, 70_000) : big(s, 20_000);
    }

    private static void check(final Ctx c, final World w, final RNode n) {
        final String text = Printer.print(n, Printer.plain(c.s));
        c.note("data: " + w.show());
        c.note("expression: " + Show.text(text));
        final int m = Checks.bool(c, w.data(), text, null);
        c.nontrivial = Checks.decisive(m);
        c.label(Out.mask(m).replace(' ', '_'));
    }

    private static void arith(final Ctx c, final World w, final RNode n) {
        final String text = Printer.print(n, Printer.plain(c.s));
        c.note("data: " + w.show());
        c.note("expression: " + Show.text(text));
        final RefEval.Val v = Checks.arith(c, w.data(), text);
        c.nontrivial = !v.any && !(v.mayFail && v.v == null);
        c.label(v.any ? "open" : v.fail ? "failure" : v.mayFail ? "value_or_failure" : "value");
    }

    private static RNode logical(final Gen g, final int n) {
        final Source s = g.s;
        final World w = g.w;
        final String t = w.bind(true);
        final String f = w.bind(false);
        final String one = w.bind(1);
        final RNode[] trues = {new RNode.Field(t), new RNode.Cmp("=", new RNode.Field(one), Gen.lit(1)), new RNode.Not(new RNode.Cmp("=", new RNode.Field(one), Gen.lit(2))), new RNode.In(one, false, List.of(Gen.lit(1)))};
        final RNode[] falses = {new RNode.Field(f), new RNode.Cmp(">", new RNode.Field(one), Gen.lit(1)), new RNode.In(one, true, List.of(Gen.lit(1))), new RNode.Range(one, Gen.lit(2), Gen.lit(3))};
        final SplittableRandom r = new SplittableRandom(s.bits());
        final String mostly = s.of("AND", "OR");
        final boolean mixed = s.chance(30);
        final int[] spots = {spot(s, n), s.chance(30) ? spot(s, n) : -1};
        final RNode odd = s.chance(20) ? new RNode.Field(w.missing()) : null;
        RNode x = null;
        for (int i = 0; i < n; i++) {
            boolean neutral = mostly.equals("AND");
            RNode y = null;
            if (i == spots[0] || i == spots[1]) {
                neutral = !neutral;
                y = odd;
            }
            if (mixed && r.nextInt(10) == 0) {
                neutral = r.nextBoolean();
            }
            if (y == null) {
                y = neutral ? trues[r.nextInt(4)] : falses[r.nextInt(4)];
            }
            if (x == null) {
                x = y;
            } else {
                final String op = mixed && r.nextInt(10) == 0 ? r.nextBoolean() ? "AND" : "OR" : mostly;
                x = new RNode.Bool(op, x, y);
            }
        }
        return x;
    }

    private static void sum(final Ctx c, final Gen g, final int n) {
        final Source s = g.s;
        final World w = g.w;
        final SplittableRandom r = new SplittableRandom(s.bits());
        final int unit = s.of(10, 1000, Integer.MAX_VALUE);
        final String[] ops = s.of(new String[] {"+"}, new String[] {"+", "-"}, new String[] {"-"});
        final boolean decimals = s.chance(30);
        final String[] fs = {w.bind(s.range(-5, 50)), w.bind(g.v.number()), w.bind((long) s.range(0, 9))};
        RNode x = new RNode.Field(fs[0]);
        final int at = spot(s, n);
        for (int i = 1; i < n; i++) {
            final RNode y = r.nextInt(3) == 0 || i == at ? new RNode.Field(fs[i == at ? 1 : 2 * r.nextInt(2)])
                    : decimals && r.nextInt(4) == 0 ? Gen.lit(BigDecimal.valueOf(r.nextInt(1000), 2)) : Gen.lit(r.nextInt(unit));
            final String op = ops[r.nextInt(ops.length)];
            x = op.equals("-") && x instanceof RNode.Arith a && a.op().equals("+") ? new RNode.Arith("-", x, y) : new RNode.Arith(op, x, y);
        }
        if (s.coin()) {
            arith(c, w, x);
        } else {
            check(c, w, new RNode.Cmp(s.of(Gen.CMP), x, g.number(g.v.number())));
        }
    }

    /** n values that are all different from x and from what is near it. */
    private static List<Object> others(final Gen g, final Object x, final int n) {
        final SplittableRandom r = new SplittableRandom(g.s.bits());
        final List<Object> l = new ArrayList<>(n);
        final boolean text = x instanceof String;
        final boolean day = x instanceof LocalDate;
        final int step = g.s.of(1, 1, 3, 1000);
        final boolean mixed = g.s.chance(30);
        for (int i = 0; i < n; i++) {
            final long k = 1_000_000L + (long) i * step;
            l.add(text ? (Object) ("v" + k) : day ? LocalDate.of(2100, 1, 1).plusDays(i % 20_000) : mixed && r.nextInt(3) == 0 ? BigDecimal.valueOf(k * 10 + 5, 1) : (Object) (int) k);
        }
        return l;
    }

    private static RNode in(final Gen g, final int n) {
        final Source s = g.s;
        final Object x = s.weighted(3, 3, 1) == 0 ? g.v.number() : s.coin() ? g.v.plainString() : (Object) g.v.date();
        final List<Object> xs = others(g, x, n);
        for (int i = s.range(0, 3); i > 0; i--) {
            xs.set(spot(s, n), s.chance(60) ? x : g.near(x));
        }
        final List<RNode> items = new ArrayList<>();
        for (final Object o : xs) {
            items.add(Gen.literal(o) ? Gen.lit(o) : RefEval.isNumber(o) ? g.number(o) : g.w.field(o));
        }
        return new RNode.In(g.w.bind(x), s.chance(30), items);
    }

    private static RNode contains(final Gen g, final int n) {
        final Source s = g.s;
        final Object x = s.weighted(3, 3, 1) == 0 ? g.v.wholeValue() : s.coin() ? g.v.plainString() : (Object) g.v.date();
        final List<Object> have = others(g, x, n);
        for (int i = s.range(0, 3); i > 0; i--) {
            have.set(spot(s, n), s.chance(60) ? x : g.near(x));
        }
        final boolean all = s.coin();
        final int k = Math.max(1, Math.min(40_000 / n, big(s, 1000)));
        final List<RNode> items = new ArrayList<>();
        final SplittableRandom r = new SplittableRandom(s.bits());
        for (int i = 0; i < k; i++) {
            // items all of one kind
            final Object o = all ? have.get(r.nextInt(n)) : x instanceof String ? "q" + i : x instanceof LocalDate ? LocalDate.of(2000, 1, 1).minusDays(i) : (Object) (2_000_000_000 + i);
            items.add(Gen.literal(o) && !(o instanceof BigDecimal) ? Gen.lit(o) : Gen.lit(x instanceof String ? "v1000000" : x instanceof LocalDate ? LocalDate.of(2100, 1, 1) : (Object) 1_000_000));
        }
        items.set(spot(s, k), Gen.literal(x) ? Gen.lit(x) : RefEval.isNumber(x) ? g.number(x) : g.w.field(x));
        return new RNode.Arr(g.w.bind(g.container(have)), all ? "CONTAINS_ALL" : "CONTAINS_ANY", items);
    }

    private static void aggregate(final Ctx c, final Gen g, final int n) {
        final Source s = g.s;
        final SplittableRandom r = new SplittableRandom(s.bits());
        final String f = s.of("MIN", "MAX", "SUM", "AVG", "MEAN", "MEDIAN", "MODE", "LEN");
        final int mode = s.draw(4);
        final int unit = s.of(5, 100, Integer.MAX_VALUE);
        final List<Object> l = new ArrayList<>(n);
        for (int i = 0; i < n; i++) {
            l.add(mode == 3 && r.nextInt(5) == 0 ? BigDecimal.valueOf(r.nextInt(unit), 1) : mode == 2 ? (Object) (long) r.nextInt(unit) : mode == 1 ? (Object) (i % unit) : (Object) (r.nextInt(unit) - unit / 2));
        }
        for (int i = s.range(0, 3); i > 0; i--) {
            l.set(spot(s, n), g.v.number());
        }
        if (n > 2 && s.chance(f.equals("MODE") ? 50 : 10)) {
            // all different but for a few pairs
            final int first = s.of(0, 1, -50, 1_000_000, 1 - n);
            for (int i = 0; i < n; i++) {
                l.set(i, first + i);
            }
            if (s.chance(70)) {
                Collections.shuffle(l, new java.util.Random(s.bits()));
            }
            for (int i = s.range(2, 4); i > 0; i--) {
                l.set(spot(s, n), l.get(r.nextInt(n)));
            }
        }
        final List<RNode> items = new ArrayList<>();
        if (n <= 3000 && s.chance(40)) {
            for (final Object o : l) {
                items.add(g.number(o));
            }
        } else {
            final int cut = s.chance(70) ? 0 : s.draw(n);
            if (cut > 0) {
                items.add(g.w.field(g.container(l.subList(0, cut))));
            }
            items.add(g.w.field(g.container(l.subList(cut, n))));
        }
        final RNode x = new RNode.Fn(f, items);
        if (s.chance(70)) {
            arith(c, g.w, x);
        } else {
            check(c, g.w, new RNode.Cmp(s.of(Gen.CMP), x, g.number(g.v.number())));
        }
    }

    private static void text(final Ctx c, final Gen g, final int n) {
        final Source s = g.s;
        final World w = g.w;
        final String unit = s.of("a", "ab", "a b ", "0", " ", "\u00e9", "x,y;", "\n", g.v.word(7));
        final char[] chars = unit.repeat(n / unit.length() + 1).substring(0, n).toCharArray();
        chars[0] = 'q';
        final String x = new String(chars);
        final int at = spot(s, n);
        final String y = switch (s.draw(5)) {
            case 0 -> x;
            case 1 -> x.substring(0, at) + (char) (x.charAt(at) + 1) + x.substring(at + 1);
            case 2 -> x.substring(0, at) + x.substring(Math.min(n, at + 1));
            case 3 -> x.substring(0, at) + Character.toUpperCase(x.charAt(at)) + x.substring(at + 1);
            default -> x + s.of(" ", "a", "\u0000");
        };
        switch (s.draw(5)) {
            case 0, 1 -> check(c, w, new RNode.Cmp(s.of(Gen.CMP), g.leaf(x), g.leaf(y)));
            case 2 -> check(c, w, new RNode.In(w.bind(x), s.coin(), List.of(Gen.lit("q"), g.leaf(y))));
            case 3 -> arith(c, w, new RNode.Fn("LEN", List.of(g.leaf(x))));
            default -> arith(c, w, new RNode.Arith("+", g.leaf(x), g.leaf(y)));
        }
    }

    private static void nested(final Ctx c, final Gen g, final int n) {
        final Source s = g.s;
        final World w = g.w;
        switch (s.draw(5)) {
            case 0 -> {
                RNode x = g.bool(1);
                for (int i = 0; i < n; i++) {
                    x = new RNode.Not(x);
                }
                check(c, w, x);
            }
            case 1 -> {
                // A AND (B OR (C AND ...))
                final String[] fs = {w.bind(true), w.bind(false), w.bind(1)};
                RNode x = g.bool(1);
                final SplittableRandom r = new SplittableRandom(s.bits());
                for (int i = 0; i < n; i++) {
                    final boolean and = r.nextBoolean();
                    x = new RNode.Bool(and ? "AND" : "OR", r.nextInt(8) == 0 ? new RNode.Cmp("=", new RNode.Field(fs[2]), Gen.lit(r.nextInt(2))) : new RNode.Field(fs[and ? 0 : 1]), x);
                }
                check(c, w, x);
            }
            case 2 -> {
                RNode x = g.number(g.v.number());
                final SplittableRandom r = new SplittableRandom(s.bits());
                for (int i = 0; i < n; i++) {
                    final String f = s.of("MIN", "MAX", "SUM");
                    x = new RNode.Fn(f, r.nextBoolean() ? List.of(x) : r.nextBoolean() ? List.of(Gen.lit(r.nextInt(3)), x) : List.of(x, Gen.lit(r.nextInt(100))));
                }
                arith(c, w, x);
            }
            case 3 -> {
                RNode x = g.number(g.v.number());
                final SplittableRandom r = new SplittableRandom(s.bits());
                for (int i = 0; i < n; i++) {
                    x = new RNode.Arith(r.nextInt(3) == 0 ? "-" : "+", Gen.lit(r.nextInt(50)), x);
                }
                arith(c, w, x);
            }
            default -> {
                final StringBuilder p = new StringBuilder("p");
                for (int i = 1; i < n; i++) {
                    p.append('.').append(i % 3 == 0 ? "a" : "k" + i);
                }
                final Object v = g.v.scalar();
                w.bind(p.toString(), v);
                final String gone = p + (s.coin() ? "x" : ".x");
                final String path = s.chance(70) ? p.toString() : gone;
                if (s.chance(30)) {
                    check(c, w, new RNode.Cmp(s.of("=", "!="), new RNode.Field(path), new RNode.Field("null")));
                } else {
                    arith(c, w, new RNode.Field(path));
                }
            }
        }
    }

    private static void map(final Ctx c, final Gen g, final int n) {
        final Source s = g.s;
        final Map<String, Object> m = s.coin() ? new HashMap<>() : s.coin() ? new LinkedHashMap<>() : new TreeMap<>();
        for (int i = 0; i < n; i++) {
            m.put("k" + i, i);
        }
        final int at = spot(s, n);
        final Object v = g.v.number();
        m.put("k" + at, v);
        final RNode with = g.number(RefEval.isNumber(v) ? abs(g.v.nearNumber(v)) : v);
        final boolean inner = s.coin();
        final String pre = inner ? g.w.bind(m) + "." : "";
        final Map<String, Object> data = inner ? g.w.data() : m;
        final String key = pre + s.of("k" + at, "k" + at, "k" + n, "K" + at, "k" + s.draw(n), "k0");
        final RNode x = new RNode.Cmp(s.of(Gen.CMP), new RNode.Field(key), s.coin() ? new RNode.Field("null") : with instanceof RNode.Lit ? with : Gen.lit(at));
        final String text = Printer.print(x, Printer.plain(s));
        c.note("a map of " + n + " entries k0, k1, ... = 0, 1, ..., except k" + at + " = " + Show.value(v) + (inner ? " in field " + pre : ""));
        c.note("expression: " + Show.text(text));
        c.nontrivial = Checks.decisive(Checks.bool(c, data, text, null));
    }

    private static Object abs(final Object x) {
        return RefEval.num(x).signum() < 0 ? (Object) 0 : x;
    }

    // ------------------------------------------------------------ the cache as a resource

    private static List<WeakReference<Object>> fill(final CachedBoolParser p, final List<String> texts, final String df) {
        final List<WeakReference<Object>> out = new ArrayList<>();
        for (final String t : texts) {
            final Out o = Impl.parse(p, t, df);
            if (o.failed()) {
                throw new Violation("parsing " + Show.text(t) + " fails: " + o);
            }
            out.add(new WeakReference<>(o.value()));
        }
        return out;
    }

    private static int alive(final List<WeakReference<Object>> l) {
        int n = 0;
        for (final WeakReference<Object> r : l) {
            if (!r.refersTo(null)) {
                n++;
            }
        }
        return n;
    }

    private static long time(final Runnable r) {
        final long t = System.nanoTime();
        r.run();
        return System.nanoTime() - t;
    }

    /** Trees that may be left in buffers while a cache tidies up in the background. */
    private static final int SLACK = 40;

    private static void resource() {
        reg("C31", 240, 3000, "(a) a CachedBoolParser of size 0 to 200 parses many more distinct texts than that: after garbage collection at most that many of their trees (and 40) are still held; (b) up to as many large texts "
                + "as the cache has room for are parsed twice or more in any order, at once or after a second or more: the repetitions take a small part of the time a BoolParser needs; non-trivial: every case", c -> {
            final Source s = c.s;
            c.nontrivial = true;
            if (s.chance(40)) {
                final int size = s.of(10, 1, 2, 5, 30, 60, 100, 200, 0);
                final int n = size * 3 + s.range(200, 400);
                c.note("cache size " + size + ", " + n + " texts" );
                c.label("bound");
                final CachedBoolParser p = new CachedBoolParser(size);
                final List<String> texts = new ArrayList<>();
                final String df = s.chance(20) ? "d" : null;
                for (int i = 0; i < n; i++) {
                    texts.add("field_" + i + " = " + i + (df != null && i % 3 == 0 ? " AND > 5" : ""));
                }
                c.executions += n;
                final List<WeakReference<Object>> l = fill(p, texts, df);
                int left = 0;
                for (int i = 0; i < 60; i++) {
                    System.gc();
                    left = alive(l);
                    if (left <= size + SLACK) {
                        break;
                    }
                    pause(20 + 10 * i);
                    // more use, for a cache that tidies up when used
                    fill(p, List.of("more_" + i + " = 1", "more_" + i + " = 2"), null);
                }
                if (left > size + SLACK) {
                    throw c.fail("a CachedBoolParser(" + size + ") still holds the trees of " + left + " of " + n + " texts");
                }
                // the parser itself must stay in use until here
                Impl.parse(p, "a = 1", null);
                return;
            }
            c.label("effect");
            final int size = s.of(1, 2, 3, 8, 50);
            final int k = s.range(1, Math.min(size, 4));
            final List<String> texts = new ArrayList<>();
            final String df = s.of(null, null, "d", "");
            for (int i = 0; i < k; i++) {
                final int n = s.range(200, 500);
                final StringBuilder b = new StringBuilder("a" + i + " > 1");
                for (int j = 0; j < n; j++) {
                    b.append(j % 3 == 0 ? " AND (b + 1 = " : j % 3 == 1 ? " OR (c != " : " AND (x IN (1, 2) OR d < ").append(j).append(')');
                }
                texts.add(b.toString());
            }
            final boolean gc = s.chance(40);
            final boolean elsewhere = s.chance(40);
            final int wait = s.chance(94) ? 0 : s.of(1300, 2500, 4000);
            c.note("cache size " + size + ", default field " + df + (gc ? ", garbage is collected between the calls" : "") + (elsewhere ? ", each repetition on another thread" : "") + (wait > 0 ? ", " + wait + " milliseconds between the calls" : "") + ", texts:");
            texts.forEach(t -> c.note(t.length() + " characters: " + t.substring(0, 60) + "..."));
            long first = 0;
            long again = 0;
            for (int attempt = 0; attempt < (wait > 0 ? 3 : 6); attempt++) {
                final CachedBoolParser p = new CachedBoolParser(size);
                fill(p, texts, df);
                first = Long.MAX_VALUE;
                again = Long.MAX_VALUE;
                for (int i = 0; i < (wait > 0 ? 2 : 4); i++) {
                    c.executions += 2 * k;
                    if (wait > 0) {
                        pause(wait);
                    }
                    if (gc) {
                        System.gc();
                    }
                    final List<String> order = new ArrayList<>(texts);
                    Collections.shuffle(order, new java.util.Random(attempt * 10L + i));
                    final Runnable repeat = () -> order.forEach(t -> Impl.parse(p, new String(t.toCharArray()), df == null ? null : new String(df.toCharArray())));
                    again = Math.min(again, elsewhere ? timeElsewhere(repeat) : time(repeat));
                    first = Math.min(first, time(() -> order.forEach(t -> Impl.parse(new BoolParser(), t, df))));
                }
                if (again * 3 < first) {
                    return;
                }
            }
            throw c.fail("parsing " + k + " texts again with a CachedBoolParser(" + size + ") takes " + again / 1000 + " microseconds, without a cache " + first / 1000);
        });
    }

    private static long timeElsewhere(final Runnable r) {
        final long[] out = {Long.MAX_VALUE};
        final Throwable[] bad = {null};
        final Thread t = new Thread(null, () -> {
            try {
                out[0] = time(r);
            } catch (final Throwable e) {
                bad[0] = e;
            }
        }, "elsewhere", 16L << 20);
        t.setDaemon(true);
        t.start();
        try {
            t.join();
        } catch (final InterruptedException ex) {
            Thread.currentThread().interrupt();
        }
        if (bad[0] instanceof RuntimeException e) {
            throw e;
        }
        return out[0];
    }

    private static void pause(final long ms) {
        try {
            Thread.sleep(ms);
        } catch (final InterruptedException ex) {
            Thread.currentThread().interrupt();
        }
    }

    // ------------------------------------------------------------ entries an expression does not name

    /** Names an evaluation may look up, and the texts of literals elsewhere. */
    static void names(final RNode n, final boolean bool, final Set<String> fields, final Set<String> texts) {
        switch (n) {
            case RNode.Field f -> fields.add(f.name());
            case RNode.Lit l -> (bool ? fields : texts).add(l.value() instanceof RVersion v ? v.text() : l.value().toString());
            case RNode.Cmp c -> {
                final boolean check = (c.op().equals("=") || c.op().equals("!=")) && RefEval.isNull(c.l()) != RefEval.isNull(c.r());
                if (!check || !RefEval.isNull(c.l())) {
                    names(c.l(), false, fields, texts);
                }
                if (!check || !RefEval.isNull(c.r())) {
                    names(c.r(), false, fields, texts);
                }
            }
            case RNode.Arith c -> {
                names(c.l(), false, fields, texts);
                names(c.r(), false, fields, texts);
            }
            case RNode.Bool c -> {
                names(c.l(), true, fields, texts);
                names(c.r(), true, fields, texts);
            }
            case RNode.Neg c -> names(c.x(), false, fields, texts);
            case RNode.Not c -> names(c.x(), true, fields, texts);
            case RNode.Fn c -> c.items().forEach(i -> names(i, false, fields, texts));
            case RNode.In c -> {
                fields.add(c.field());
                c.items().forEach(i -> names(i, false, fields, texts));
            }
            case RNode.Arr c -> {
                fields.add(c.field());
                c.items().forEach(i -> names(i, false, fields, texts));
            }
            case RNode.Range c -> {
                fields.add(c.field());
                texts.add(c.lo().value().toString());
                texts.add(c.hi().value().toString());
            }
            case RNode.Empty e -> {
            }
        }
    }

    private static final String[] COMMON = {"null", "NULL", "true", "false", "TRUE", "AND", "OR", "NOT", "IN", "TO", "MIN", "MAX", "LEN", "size", "length", "value", "", " ", ".", "a.", ".a", "this", "class", "0", "1", "-1", "data", "default",
                                            "field", "null.a", "*", "**", "$", "#", "_", "?", "@", "%", "~", "$default", "__default__", "else", "root", "parent", "self", "it", "..", "/", "a.b"};

    private static final String[] SETTINGS = {"defaults", "aliases", "globals", "config", "settings", "meta", "metadata", "types", "schema", "env", "params", "fields", "values", "context", "vars", "parent", "fallback", "locale",
                                              "timezone", "zone", "type", "mode", "precision", "scale", "strict", "ignoreCase", "caseSensitive", "debug"};
    private static final String[] TYPES = {"STRING", "INTEGER", "DECIMAL", "BOOLEAN", "VERSION", "DATE", "DATETIME", "LONG", "string", "true", "TRUE", "strict", "yes", "1", "ignore", "null", "desc", "en", "UTC"};

    /** Adds entries to a copy of m that no name in fields leads to or through. */
    @SuppressWarnings("unchecked")
    private static Map<String, Object> grow(final Ctx c, final Gen g, final Map<String, Object> m, final String prefix, final Set<String> fields, final List<String> keys, final Set<String> hints) {
        final Source s = c.s;
        final Map<String, Object> out = new LinkedHashMap<>();
        if (s.coin()) {
            add(c, g, out, prefix, fields, keys, hints);
        }
        for (final Map.Entry<String, Object> e : m.entrySet()) {
            final String path = prefix + e.getKey();
            final boolean named = e.getKey().indexOf('.') < 0 && (fields.contains(path) || fields.stream().anyMatch(f -> f.startsWith(path + ".")));
            if (!named) {
                // not named: leave, drop or change
                switch (s.draw(3)) {
                    case 0 -> out.put(e.getKey(), e.getValue());
                    case 1 -> out.put(e.getKey(), More.weird(s, g.v));
                    default -> {
                    }
                }
                continue;
            }
            out.put(e.getKey(), e.getValue() instanceof Map && !fields.contains(path) ? grow(c, g, (Map<String, Object>) e.getValue(), path + ".", fields, keys, hints) : e.getValue());
        }
        add(c, g, out, prefix, fields, keys, hints);
        return s.coin() ? out : new HashMap<>(out);
    }

    private static void add(final Ctx c, final Gen g, final Map<String, Object> out, final String prefix, final Set<String> fields, final List<String> keys, final Set<String> hints) {
        final Source s = c.s;
        if (prefix.isEmpty() && s.chance(25)) {
            // a setting for every field
            final String value = s.coin() ? s.of(TYPES) : Dict.string(s);
            for (final String k : hints) {
                if (k.indexOf('.') >= 0 || !k.isEmpty() && fields.stream().noneMatch(f -> f.equals(k) || f.startsWith(k + "."))) {
                    out.putIfAbsent(k, value);
                }
            }
        }
        for (int i = s.size(0, 12); i > 0; i--) {
            final String k = keys.get(s.draw(keys.size()));
            final String path = prefix + k;
            // a key with a dot in it is never reached by a path
            if (k.indexOf('.') < 0 && fields.stream().anyMatch(f -> f.equals(path) || f.startsWith(path + ".")) || out.containsKey(k)) {
                continue;
            }
            if (k.isEmpty() && fields.stream().anyMatch(f -> f.startsWith(".") || f.contains(".."))) {
                continue;
            }
            if (s.chance(12)) {
                // what the expression names, once more, elsewhere and with another value
                final Map<String, Object> elsewhere = new HashMap<>();
                for (final String f : fields) {
                    elsewhere.put(s.chance(80) ? f : f.substring(f.lastIndexOf('.') + 1), s.coin() ? (Object) s.coin() : g.v.scalar());
                }
                out.put(k, elsewhere);
                continue;
            }
            if (s.chance(hints.contains(k) ? 70 : 4)) {
                out.put(k, s.chance(60) ? s.of(TYPES) : Dict.string(s));
                continue;
            }
            out.put(k, s.chance(30) ? More.weird(s, g.v) : s.chance(20) ? new HashMap<>(Map.of("a", 1, "b", true)) : s.chance(30) ? (Object) s.coin() : g.v.scalar());
        }
    }

    private static void frame() {
        reg("C32", 280_000, 900_000, "an expression of any kind over its data, and over the same data with entries it does not name added (texts of its literals, keywords, null, prefixes, suffixes, parts and other cases of "
                + "its names, dotted keys; at the top and in inner maps; values of every kind), changed or removed, in other kinds of maps: same outcome and value; non-trivial: the data differ and the expression "
                + "names a field", c -> {
            final Source s = c.s;
            final World w = new World(s);
            w.nested = 40;
            w.mapKinds = 0;
            final Gen g = new Gen(w);
            g.missing = s.of(0, 0, 5);
            final RNode n = switch (s.weighted(6, 4, 2)) {
                case 0 -> g.bool(s.of(0, 1, 2, 2));
                case 1 -> g.numeric(2);
                default -> g.any(2);
            };
            final Set<String> fields = new LinkedHashSet<>();
            final Set<String> texts = new LinkedHashSet<>();
            names(n, true, fields, texts);
            final List<String> keys = new ArrayList<>(Arrays.asList(COMMON));
            final Set<String> hints = new LinkedHashSet<>();
            for (final String f : new ArrayList<>(fields)) {
                for (int i = 0; i < 2; i++) {
                    keys.add(f);
                    hints.add(f + Dict.string(s));
                    hints.add(f + s.of("_type", "_type",  "Type", "_format", "_default", ".type", "_locale", "_precision", "_scale", "_null", "_exists", "_alias", "_unit", "_zone", "_list", "_op"));
                    keys.add(f + s.of("x", " ", "_", "0", "?", "[0]", "()", "[]", "!", ":", "*", "$"));
                    keys.add(s.of("$", "@", "#", "_", "$.", "this.", "*.", "data.", " ", "-", "!", "get", "is", "?", ":", "~", "^", "%", "&") + f);
                    keys.add(s.of("'", "\"", "`", "[", "{", "${", "(") + f + s.of("'", "\"", "`", "]", "}", ")"));
                    keys.add(new StringBuilder(f).reverse().toString());
                    keys.add(g.v.nearString(f));
                    keys.add(f.toUpperCase(Locale.ROOT));
                    keys.add(f.toLowerCase(Locale.ROOT));
                    keys.addAll(Arrays.asList(f.split("\\.")));
                }
                if (f.indexOf('.') > 0) {
                    keys.add(f.substring(f.indexOf('.') + 1));
                    keys.add(f.substring(0, f.lastIndexOf('.')));
                    keys.add(f.replace('.', '_'));
                }
            }
            keys.addAll(texts);
            hints.addAll(List.of(Dict.string(s), s.of(SETTINGS)));
            for (int i = s.chance(30) ? 4 : 1; i > 0; i--) {
                keys.addAll(hints);
            }
            keys.add(Dict.string(s));
            keys.add(Dict.string(s));
            keys.addAll(Arrays.asList(SETTINGS));
            final Map<String, Object> data = w.data();
            final Map<String, Object> other = grow(c, g, data, "", fields, keys, hints);
            final String text = Printer.print(n, Printer.any(s));
            c.note("expression: " + Show.text(text));
            c.note("data 1: " + Show.value(data));
            c.note("data 2: " + Show.value(other));
            c.executions += 4;
            final Out a = Impl.bool(text, data, null);
            final Out b = Impl.bool(text, other, null);
            if (a.mask() != b.mask() || a.failed() && Impl.dataNotFound(a.error()) != Impl.dataNotFound(b.error())) {
                throw c.fail("data 1: " + a + "\ndata 2: " + b);
            }
            final Out x = Impl.arith(text, data);
            final Out y = Impl.arith(text, other);
            if (!Checks.same(x, y) || x.failed() && Impl.dataNotFound(x.error()) != Impl.dataNotFound(y.error())) {
                throw c.fail("data 1: " + x + "\ndata 2: " + y);
            }
            c.nontrivial = !fields.isEmpty() && !Show.value(data).equals(Show.value(other));
            c.label(a.failed() && x.failed() ? "failing" : "evaluating");
        });
    }

    // ------------------------------------------------------------ names

    private static Object equalCopy(final Object x) {
        if (x instanceof String t) {
            return new String(t.toCharArray());
        }
        if (x instanceof BigDecimal b) {
            return new BigDecimal(b.unscaledValue(), b.scale());
        }
        // an array as an operand of its own is known by its identity
        return x instanceof Object[] ? x : More.copy(x, false);
    }

    /** Gives every occurrence of a field another name, with an equal value in other data. */
    private static class Renaming {
        private final Source s;
        private final Map<String, Object> data;
        private final World other;
        private final Map<String, List<String>> names = new LinkedHashMap<>();
        private final boolean split;

        Renaming(final Source s, final Map<String, Object> data, final World other, final boolean split) {
            this.s = s;
            this.data = data;
            this.other = other;
            this.split = split;
        }

        String of(final String name) {
            final List<String> l = names.computeIfAbsent(name, k -> new ArrayList<>());
            if (!l.isEmpty() && (!split || s.chance(30))) {
                return s.of(l);
            }
            final Object v = RefEval.lookup(data, name);
            final String n = v == null ? other.missing() : other.bind(equalCopy(v));
            l.add(n);
            return n;
        }

        List<RNode> of(final List<RNode> l) {
            return l.stream().map(this::of).toList();
        }

        RNode of(final RNode n) {
            return switch (n) {
                case RNode.Field f -> RefEval.isNull(f) ? f : new RNode.Field(of(f.name()));
                case RNode.Cmp c -> new RNode.Cmp(c.op(), of(c.l()), of(c.r()));
                case RNode.Arith c -> new RNode.Arith(c.op(), of(c.l()), of(c.r()));
                case RNode.Bool c -> new RNode.Bool(c.op(), of(c.l()), of(c.r()));
                case RNode.Neg c -> new RNode.Neg(of(c.x()));
                case RNode.Not c -> new RNode.Not(of(c.x()));
                case RNode.Fn c -> new RNode.Fn(c.name(), of(c.items()));
                case RNode.In c -> new RNode.In(of(c.field()), c.not(), of(c.items()));
                case RNode.Arr c -> new RNode.Arr(of(c.field()), c.op(), of(c.items()));
                case RNode.Range c -> new RNode.Range(of(c.field()), c.lo(), c.hi());
                default -> n;
            };
        }
    }

    private static void renaming() {
        reg("C33", 220_000, 900_000, "an expression of any kind over its data (fields used once or several times, missing ones included), and the same expression with every field renamed - at any depth, sometimes each occurrence to a name of "
                + "its own - over data that hold equal values under the new names: same outcome and value; non-trivial: at least one field has a value and a new name", c -> {
            final Source s = c.s;
            final World w = new World(s);
            w.nested = s.of(0, 20, 60);
            final Gen g = new Gen(w);
            g.missing = s.of(0, 0, 4);
            g.fields = s.of(50, 80, 100);
            g.relations = s.of(15, 60);
            RNode n = switch (s.weighted(6, 4, 1)) {
                case 0 -> g.bool(s.range(1, 2));
                case 1 -> g.numeric(2);
                default -> g.any(2);
            };
            if (s.chance(10)) {
                // the order of operands
                final RNode x = new RNode.Field(w.bind(s.chance(40) ? (Object) g.v.word(s.size(0, 4)) : s.coin() ? g.v.scalar() : g.v.number()));
                final RNode y = new RNode.Field(w.bind(s.chance(40) ? (Object) g.v.word(s.size(0, 4)) : s.coin() ? g.v.scalar() : g.v.number()));
                n = switch (s.draw(4)) {
                    case 0 -> new RNode.Cmp(s.of(Gen.CMP), x, y);
                    case 1 -> new RNode.Fn(s.of("MIN", "MAX", "SUM", "AVG", "MEDIAN", "MODE", "MEAN"), List.of(x, y));
                    default -> new RNode.Arith(s.of("+", "+", "+", "-", "*", "/", "%", "^"), x, y);
                };
            }
            if (s.chance(15)) {
                // a single field in a single place, holding what might be read as something else
                final Object v = s.of("true", "false", "TRUE", "yes", "no", "Y", "on", "1", "0", 1, 0, 1L, 0L, "5", "1.10", "1.9", "2024-02-30", "2024-01-01", "2024-01-01T10:00:00", "10:30", "null", "", " ", "[]", "1,2", "a,b",
                                      1700000000L, 1700000000000L, 0.5, BigDecimal.ONE, List.of(true), List.of(), List.of(1, 2), "$5", "50%", "-1", "007", "0x1F", "1e3", "NaN");
                final String f = w.bind(v);
                final RNode x = new RNode.Field(f);
                final RNode y = s.chance(30) ? Gen.lit(s.draw(3)) : Gen.lit(s.of("true", "false", "1.10", "1.9", "1", "5", "2024-01-01", "2024-01-02", "a", "Yes", ""));
                n = switch (s.draw(8)) {
                    case 0, 1 -> x;
                    case 2 -> new RNode.Not(x);
                    case 3 -> new RNode.Bool(s.of("AND", "OR"), x, Gen.lit(1));
                    case 4 -> new RNode.Fn(s.of("MIN", "MAX", "SUM", "AVG", "MEDIAN", "LEN", "INT", "DAYS_ELAPSED"), List.of(x));
                    case 5 -> new RNode.In(f, s.coin(), List.of(y));
                    default -> s.coin() ? new RNode.Cmp(s.of(Gen.CMP), x, y) : new RNode.Cmp(s.of(Gen.CMP), y, x);
                };
            }
            if (!w.bound.isEmpty() && s.chance(25)) {
                // one field on both sides
                final String f = s.of(new ArrayList<>(w.bound.keySet()));
                final RNode x = new RNode.Field(f);
                final RNode both = switch (s.draw(6)) {
                    case 0 -> new RNode.Cmp(s.of(Gen.CMP), x, x);
                    case 1 -> new RNode.Arith(s.of(Gen.ARITH), x, x);
                    case 2 -> new RNode.In(f, s.coin(), List.of(x));
                    case 3 -> new RNode.Arr(f, s.of("CONTAINS_ANY", "CONTAINS_ALL"), List.of(x));
                    case 4 -> new RNode.Fn(s.of("MIN", "MAX", "SUM", "AVG", "MEDIAN", "MODE", "MEAN", "LEN"), List.of(x, x));
                    default -> new RNode.Bool(s.of("AND", "OR"), x, x);
                };
                n = RNode.isBoolean(both) && s.coin() ? new RNode.Bool(s.of("AND", "OR"), both, n) : both;
            }
            final Map<String, Object> data = w.data();
            final World w2 = new World(s);
            w2.nested = s.of(0, 20, 60);
            final Renaming r = new Renaming(s, data, w2, s.coin());
            final RNode m = r.of(n);
            final Map<String, Object> other = w2.data();
            final Set<String> named = new LinkedHashSet<>();
            names(new Renaming(s, data, w2, false) {
                @Override
                String of(final String name) {
                    return "null";
                }
            }.of(n), true, named, new LinkedHashSet<>());
            named.add("null");
            if (named.stream().anyMatch(k -> RefEval.lookup(data, k) != null || RefEval.lookup(other, k) != null)) {
                // a literal where a condition stands is looked up by its text
                c.label("literal_names_a_field");
                return;
            }
            final String t1 = Printer.print(n, Printer.plain(s));
            final String t2 = Printer.print(m, Printer.plain(s));
            c.note("expression: " + Show.text(t1));
            c.note("data: " + Show.value(data));
            c.note("renamed: " + Show.text(t2));
            c.note("data: " + Show.value(other));
            c.executions += 4;
            final Out a = Impl.bool(t1, data, null);
            final Out b = Impl.bool(t2, other, null);
            if (a.mask() != b.mask() || a.failed() && Impl.dataNotFound(a.error()) != Impl.dataNotFound(b.error())) {
                throw c.fail("evaluated: " + a + "\nrenamed: " + b);
            }
            final Out x = Impl.arith(t1, data);
            final Out y = Impl.arith(t2, other);
            if (!Checks.same(x, y) || x.failed() && Impl.dataNotFound(x.error()) != Impl.dataNotFound(y.error())) {
                throw c.fail("evaluated: " + x + "\nrenamed: " + y);
            }
            c.nontrivial = r.names.keySet().stream().anyMatch(f -> RefEval.lookup(data, f) != null);
            c.label(a.failed() && x.failed() ? "failing" : "evaluating");
        });
    }
}
