package verif;

import com.github.sidhant92.boolparser.application.ArithmeticExpressionEvaluator;
import com.github.sidhant92.boolparser.application.BooleanExpressionEvaluator;
import com.github.sidhant92.boolparser.domain.FieldNode;
import com.github.sidhant92.boolparser.domain.logical.ComparisonNode;
import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import com.github.sidhant92.boolparser.parser.antlr.CachedBoolParser;
import java.io.OutputStream;
import java.io.PrintStream;
import java.lang.ref.Reference;
import java.lang.ref.WeakReference;
import java.math.BigDecimal;
import java.net.URL;
import java.net.URLClassLoader;
import java.util.AbstractMap;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Locale;
import java.util.Map;
import java.util.Properties;
import java.util.Set;
import java.util.TimeZone;
import java.util.concurrent.ForkJoinPool;
import java.util.concurrent.atomic.AtomicReference;

/** What a program that uses the library relies on around the outcomes: what failures say, what is kept, where calls can be made. */
final class Usage {
    private Usage() {
    }

    static void register() {
        missing();
        retention();
        caller();
    }

    // ------------------------------------------------------------ reads of the data

    /** A map that notes which keys it is asked for. */
    static final class Reads extends AbstractMap<String, Object> {
        private final Map<String, Object> m;
        final Set<Object> keys = new LinkedHashSet<>();

        Reads(final Map<String, Object> m) {
            this.m = m;
        }

        @Override
        public Object get(final Object key) {
            keys.add(key);
            return m.get(key);
        }

        @Override
        public boolean containsKey(final Object key) {
            keys.add(key);
            return m.containsKey(key);
        }

        @Override
        public Object getOrDefault(final Object key, final Object other) {
            keys.add(key);
            return m.getOrDefault(key, other);
        }

        @Override
        public Set<Entry<String, Object>> entrySet() {
            return m.entrySet();
        }
    }

    // ------------------------------------------------------------ missing data

    private static final Set<String> WORDS = Set.of("data", "not", "found", "for", "the", "key");

    /** True when the message names the field, as a word of its own. */
    private static boolean names(final String message, final String field) {
        final String f = field.equalsIgnoreCase("null") ? "null" : field;
        final String m = field.equalsIgnoreCase("null") ? message.toLowerCase(Locale.ROOT) : message;
        if (WORDS.contains(f.toLowerCase(Locale.ROOT))) {
            return m.endsWith(f);
        }
        for (int i = m.indexOf(f); i >= 0; i = m.indexOf(f, i + 1)) {
            final int end = i + f.length();
            if ((i == 0 || !part(m, i - 1, f.charAt(0))) && (end == m.length() || end == m.length() - 1 || !part(m, end, f.charAt(f.length() - 1)))) {
                return true;
            }
        }
        return false;
    }

    private static boolean part(final String m, final int at, final char next) {
        return RefParser.fieldChar(m.charAt(at)) && RefParser.fieldChar(next);
    }

    /** A literal, a field other than null, or an operand left out. */
    private static boolean plain(final RNode n) {
        return n instanceof RNode.Lit || n instanceof RNode.Empty || n instanceof RNode.Field && !RefEval.isNull(n);
    }

    private static Set<String> missing(final RNode n, final String df, final Map<String, Object> data) {
        final Set<String> fields = new LinkedHashSet<>();
        Extra.names(Printer.fill(n, df == null ? "null" : df), true, fields, new LinkedHashSet<>());
        fields.removeIf(f -> {
            try {
                return RefEval.lookup(data, f) != null;
            } catch (final ClassCastException e) {
                return false;
            }
        });
        return fields;
    }

    @SuppressWarnings("unchecked")
    private static boolean supply(final Map<String, Object> data, final String path, final Object value) {
        final String[] keys = path.split("\\.");
        Map<String, Object> m = data;
        for (int i = 0; i < keys.length - 1; i++) {
            final Object x = m.get(keys[i]);
            if (x != null && !(x instanceof Map)) {
                return false;
            }
            final Map<String, Object> inner = x == null ? new HashMap<>() : new HashMap<>((Map<String, Object>) x);
            m.put(keys[i], inner);
            m = inner;
        }
        if (keys.length == 0) {
            return false;
        }
        m.put(keys[keys.length - 1], value);
        return true;
    }

    private static void missing() {
        Props.reg("C34", 200_000, 700_000, "an expression of any kind, some fields of which (the default field for operands left out included) are absent, null-valued or unreachable; whenever an evaluation fails for missing data "
                + "its message names a field of the expression without a value, one in the part under AND, OR and NOT that fails; that field is given a value and the evaluation repeated until it does not fail for missing "
                + "data any more; non-trivial: a field is reported", c -> {
            final Source s = c.s;
            final World w = new World(s);
            w.nested = s.of(10, 40, 70);
            w.mapKinds = 0;
            final Gen g = new Gen(w);
            g.missing = s.of(8, 25);
            g.fields = 80;
            final boolean arith = s.chance(25);
            String df = null;
            RNode n;
            if (arith) {
                n = g.numeric(2);
            } else if (s.chance(20)) {
                df = s.chance(20) ? w.odd() : s.chance(70) ? w.missing() : w.bind(g.v.scalar());
                n = s.coin() ? new RNode.Cmp(s.of(Gen.CMP), new RNode.Empty(), g.number(g.v.number())) : new RNode.Cmp(s.of(Gen.CMP), g.number(g.v.number()), new RNode.Empty());
                if (s.coin()) {
                    n = new RNode.Bool(s.of("AND", "OR"), s.coin() ? n : g.atom(1), s.coin() ? n : g.atom(1));
                }
            } else {
                n = g.bool(s.range(0, 3));
            }
            if (s.chance(30)) {
                // a field that is certainly missing, next to one that is there
                final RNode x = new RNode.Field(w.missing());
                final RNode y = w.field(g.v.number());
                final RNode[] both = s.coin() ? new RNode[] {x, y} : new RNode[] {y, x};
                final RNode sum = new RNode.Arith(s.of(Gen.ARITH), both[0], both[1]);
                n = arith ? s.coin() ? sum : new RNode.Arith("+", n, sum) : new RNode.Bool(s.of("AND", "OR"), n, s.coin() ? new RNode.Cmp(s.of(Gen.CMP), both[0], both[1]) : new RNode.Cmp(">", sum, Gen.lit(0)));
            }
            final String text = Printer.print(n, Printer.any(s), df == null ? "" : df);
            if (df != null && !Printer.readsAs(text, df, Printer.fill(n, df))) {
                c.label("not_printable");
                return;
            }
            @SuppressWarnings("unchecked")
            final Map<String, Object> data = (Map<String, Object>) More.copy(w.data(), false);
            c.note("expression: " + Show.text(text) + (df == null ? "" : ", default field " + df));
            for (int step = 0;; step++) {
                c.note("data: " + Show.value(data));
                c.executions++;
                final Out o = arith ? Impl.arith(text, data) : Impl.bool(text, data, df);
                if (!o.failed() || !Impl.dataNotFound(o.error())) {
                    if (n instanceof RNode.Cmp x && plain(x.l()) && plain(x.r())) {
                        final Set<String> gone = missing(n, df, data);
                        if (!gone.isEmpty()) {
                            throw c.fail("it gives " + o + "\nwithout a value is " + gone);
                        }
                    }
                    c.label(o.failed() ? "fails_otherwise" : step == 0 ? "evaluates" : "evaluates_in_the_end");
                    return;
                }
                RNode part = n;
                while (!arith && (part instanceof RNode.Bool || part instanceof RNode.Not)) {
                    if (part instanceof RNode.Not x) {
                        part = x.x();
                        continue;
                    }
                    final RNode.Bool b = (RNode.Bool) part;
                    final String left = Printer.print(b.l(), Printer.plain(s), df == null ? "" : df);
                    if (df != null && !Printer.readsAs(left, df, Printer.fill(b.l(), df))) {
                        break;
                    }
                    c.executions++;
                    part = Impl.bool(left, data, df).failed() ? b.l() : b.r();
                }
                final Set<String> gone = missing(part, df, data);
                if (gone.isEmpty()) {
                    throw c.fail("it fails with: " + o + "\nalthough every field of " + Show.text(Printer.print(Printer.fill(part, df == null ? "null" : df), Printer.plain(s))) + " has a value");
                }
                if (gone.stream().anyMatch(f -> f.isBlank() || f.startsWith(".") || f.endsWith("."))) {
                    c.label("odd_name");
                    return;
                }
                final String m = String.valueOf(o.error().getMessage());
                final List<String> named = gone.stream().filter(f -> names(m, f)).toList();
                if (named.isEmpty()) {
                    throw c.fail("it fails with: " + o + "\nwhat has no value is " + gone);
                }
                c.nontrivial = true;
                c.label("missing");
                // the longest: a name may be a word within another one's path
                final String f = named.stream().max(java.util.Comparator.comparingInt(String::length)).get();
                if (step > 60 || !supply(data, f, s.coin() ? (Object) g.v.number() : s.coin() ? (Object) s.coin() : g.v.scalar())) {
                    return;
                }
            }
        });
    }

    // ------------------------------------------------------------ what is kept

    private static final int SLACK = 60;

    private static int alive(final List<WeakReference<Object>> l) {
        int n = 0;
        for (final WeakReference<Object> r : l) {
            if (!r.refersTo(null)) {
                n++;
            }
        }
        return n;
    }

    private static String uniqueText(final Source s, final Gen g, final int i, final boolean arith, final int shape) {
        final String f = "field_" + i;
        if (arith) {
            return switch (shape >= 0 ? shape % 6 : s.draw(6)) {
                case 0 -> f + " + " + i;
                case 1 -> "MAX(" + f + ", l, " + i + ")";
                case 2 -> f;
                case 3 -> "t + 'x" + i + "'";
                case 4 -> "LEN(l) * " + i + " - m.x." + f;
                default -> "d / " + i + ".5";
            };
        }
        return switch (shape >= 0 ? shape % 9 : s.draw(9)) {
            case 0 -> f + " > " + i;
            case 1 -> f + " IN (" + i + ", 5, l)";
            case 2 -> "l CONTAINS_ANY (" + i + ", 7)";
            case 3 -> "t = 'text" + i + "' OR " + f + " != null";
            case 4 -> "m.x." + f + " >= 1." + i + ".2";
            case 5 -> "d " + i + " TO " + (i + 5);
            case 6 -> "NOT (" + f + " = d) AND SUM(l, " + i + ") > 2";
            case 7 -> f + " > ";
            default -> Printer.print(g.any(2), Printer.any(s)) + " OR a" + i + " = 1";
        };
    }

    private static void retention() {
        final Prop p = Props.reg("C35", 320, 4000, "(a) a parser (cached or not) and evaluators perform 200 to 600 parses and evaluations, each of a text, default field and data of its own, some failing; afterwards, while parser and "
                + "evaluators are still in use, the data maps, values, texts, field names and trees are garbage but for a bounded number (60, plus the cache's size for what it may keep); (b) 200 to 400 parsers and evaluators "
                + "are built, used and dropped: they are garbage; non-trivial: every case", c -> {
            final Source s = c.s;
            c.nontrivial = true;
            final Map<String, List<WeakReference<Object>>> refs = new LinkedHashMap<>();
            final int size = s.chance(50) ? -1 : s.of(0, 1, 5, 20);
            final BoolExpressionParser shared = size < 0 ? new BoolParser() : new CachedBoolParser(size);
            final BooleanExpressionEvaluator be = new BooleanExpressionEvaluator(shared);
            final ArithmeticExpressionEvaluator ae = new ArithmeticExpressionEvaluator(shared);
            final boolean dropped = s.chance(30);
            final int n = dropped ? s.range(200, 400) : s.range(200, 600);
            c.note((dropped ? "new parsers and evaluators each time, " : "one parser and evaluators, ") + (size < 0 ? "no cache" : "cache of size " + size) + ", " + n + " evaluations");
            c.label(dropped ? "dropped" : size < 0 ? "uncached" : "cached");
            // what is evaluated, the shape of the expressions (-1: mixed), what fails (0: some, 1: all, 2: little), how often there is a default field
            final int[] mode = {s.draw(3), s.chance(60) ? s.draw(18) : -1, s.of(0, 0, 1, 2), s.of(5, 1, 1000)};
            c.note("shape " + mode[1] + ", " + new String[] {"some failing", "all failing", "few failing"}[mode[2]]);
            final Heap heap = new Heap();
            Map<String, Integer> half = null;
            for (int i = 0; i < n; i++) {
                c.executions += 2;
                one(c, refs, i, mode, dropped ? null : shared, be, ae, size, dropped);
                if (i == n / 2) {
                    half = heap.count(be, ae, shared);
                }
            }
            String bad = null;
            for (int i = 0; i < 40; i++) {
                System.gc();
                bad = more(half, heap.count(be, ae, shared), n / 8 + 5 + (size < 0 ? 0 : 100 + size * 60));
                if (bad != null) {
                    bad = "between evaluation " + n / 2 + " and evaluation " + n + " " + bad;
                }
                for (final Map.Entry<String, List<WeakReference<Object>>> e : refs.entrySet()) {
                    final int left = alive(e.getValue());
                    if (left > SLACK + Math.max(0, size)) {
                        bad = "after " + n + " evaluations " + left + " of " + e.getValue().size() + " " + e.getKey() + " are still held";
                    }
                }
                if (bad == null) {
                    break;
                }
                try {
                    Thread.sleep(20 + 10 * i);
                } catch (final InterruptedException ex) {
                    Thread.currentThread().interrupt();
                }
                Impl.bool(be, "more_" + i + " = 1", Map.of("more_" + i, i), null);
            }
            Reference.reachabilityFence(be);
            Reference.reachabilityFence(ae);
            Reference.reachabilityFence(shared);
            if (bad != null) {
                throw c.fail(bad);
            }
        });
        p.workers = 4;
    }

    private static String more(final Map<String, Integer> before, final Map<String, Integer> after, final int bound) {
        int grown = 0;
        final List<String> what = new ArrayList<>();
        for (final Map.Entry<String, Integer> e : after.entrySet()) {
            final int by = e.getValue() - before.getOrDefault(e.getKey(), 0);
            grown += by;
            if (by > 10) {
                what.add(by + " more of " + e.getKey());
            }
        }
        return grown > bound ? "the number of objects kept hold of grows by " + grown + ": " + what : null;
    }

    private static void one(final Ctx c, final Map<String, List<WeakReference<Object>>> refs, final int i, final int[] mode, final BoolExpressionParser shared, final BooleanExpressionEvaluator sharedBe,
                            final ArithmeticExpressionEvaluator sharedAe, final int size, final boolean dropped) {
        final Source s = c.s;
        final World w = new World(s);
        w.mapKinds = 0;
        w.decoys = false;
        final Gen g = new Gen(w);
        g.missing = 3;
        final boolean arith = mode[0] == 0 ? false : mode[0] == 1 ? i % 2 == 0 : true;
        final String text = new String(uniqueText(s, g, i, arith, mode[1]).toCharArray());
        if (i < 3) {
            c.note("text " + i + ": " + Show.text(text));
        }
        final Map<String, Object> data = new HashMap<>(w.data());
        final boolean bare = mode[2] == 1 || mode[2] == 0 && s.chance(15);
        final String t = new String(("text" + i).toCharArray());
        final BigDecimal d = new BigDecimal(i + ".25");
        final List<Object> l = new ArrayList<>(List.of(i, 5, 7));
        final Map<String, Object> inner = new HashMap<>(Map.of("field_" + i, i % 3 == 0 ? (Object) d : "1." + i + ".3"));
        if (!bare) {
            data.put("t", t);
            data.put("d", d);
            data.put("l", l);
            data.put("m", new HashMap<>(Map.of("x", inner)));
            data.put("field_" + i, i % 2 == 0 ? (Object) i : d);
        }
        final String df = i % mode[3] == 0 ? new String(("field_" + i).toCharArray()) : null;
        final BoolExpressionParser parser = shared != null ? shared : size < 0 ? new BoolParser() : new CachedBoolParser(size);
        final BooleanExpressionEvaluator be = shared != null ? sharedBe : new BooleanExpressionEvaluator(parser);
        final ArithmeticExpressionEvaluator ae = shared != null ? sharedAe : new ArithmeticExpressionEvaluator(parser);
        final Out o = arith ? Impl.arith(ae, text, data) : Impl.bool(be, text, data, df);
        keep(refs, "data maps", data);
        keep(refs, "text values", t);
        keep(refs, "number values", d);
        keep(refs, "list values", l);
        keep(refs, "inner maps", inner);
        if (o.failed()) {
            keep(refs, "failures", o.error());
        } else if (!(o.value() instanceof Boolean) && !(o.value() instanceof Integer)) {
            keep(refs, "results", o.value());
        }
        keep(refs, "texts", text);
        if (df != null) {
            keep(refs, "default fields", df);
        }
        final Out tree = Impl.parse(parser, text, df);
        if (!tree.failed()) {
            keep(refs, "trees", tree.value());
            if (tree.value() instanceof ComparisonNode x && x.getLeft() instanceof FieldNode f && f.getField() != df) {
                keep(refs, "field names of trees", f.getField());
            }
        }
        if (dropped) {
            keep(refs, "parsers", parser);
            keep(refs, "boolean evaluators", be);
            keep(refs, "arithmetic evaluators", ae);
        }
    }

    private static void keep(final Map<String, List<WeakReference<Object>>> refs, final String kind, final Object x) {
        refs.computeIfAbsent(kind, k -> new ArrayList<>()).add(new WeakReference<>(x));
    }

    // ------------------------------------------------------------ the calling thread

    private static final ThreadLocal<StringBuilder> PRINTED = new ThreadLocal<>();
    private static boolean watching;

    private static PrintStream watch(final PrintStream previous) {
        return new PrintStream(new OutputStream() {
            @Override
            public void write(final int b) {
                final StringBuilder x = PRINTED.get();
                if (x == null) {
                    previous.write(b);
                } else if (x.length() < 500) {
                    x.append((char) b);
                }
            }

            @Override
            public void write(final byte[] b, final int off, final int len) {
                final StringBuilder x = PRINTED.get();
                if (x == null) {
                    previous.write(b, off, len);
                } else if (x.length() < 500) {
                    x.append(new String(b, off, Math.min(len, 500)));
                }
            }

            @Override
            public void flush() {
                previous.flush();
            }
        }, true);
    }

    /** Replaces the standard streams once per loaded copy by ones that notice output of the code under test. */
    private static void watch() {
        synchronized (System.class) {
            if (!watching) {
                watching = true;
                System.setOut(watch(System.out));
                System.setErr(watch(System.err));
            }
        }
    }

    private record Call(String text, boolean arith, String df, Map<String, Object> data, Out want) {
        Out run(final BooleanExpressionEvaluator be, final ArithmeticExpressionEvaluator ae, final Map<String, Object> m) {
            return arith ? Impl.arith(ae, text, m) : Impl.bool(be, text, m, df);
        }
    }

    private static String differs(final Call j, final Out o) {
        if (Checks.same(j.want, o) && (!o.failed() || Impl.dataNotFound(o.error()) == Impl.dataNotFound(j.want.error()))) {
            return null;
        }
        return Show.text(j.text) + " gives " + o + "\n  expected " + j.want;
    }

    /** A map that evaluates something else when it is read. */
    private static final class Busy extends AbstractMap<String, Object> {
        private final Map<String, Object> m;
        private final Runnable task;
        private int before;

        Busy(final Map<String, Object> m, final Runnable task, final int before) {
            this.m = m;
            this.task = task;
            this.before = before;
        }

        @Override
        public Object get(final Object key) {
            if (before-- == 0) {
                task.run();
            }
            return m.get(key);
        }

        @Override
        public boolean containsKey(final Object key) {
            return m.containsKey(key);
        }

        @Override
        public Set<Entry<String, Object>> entrySet() {
            return m.entrySet();
        }
    }

    private static void caller() {
        Props.reg("C36", 45000, 400_000, "1 to 4 expressions with the outcomes fresh evaluators give on an ordinary thread, evaluated through shared ones, or ones built there, on another kind of thread: interrupted, without or with a strange context class "
                + "loader, virtual, of a fork-join pool, of lowest priority, with a handler for uncaught exceptions, or in the middle of another evaluation on the same thread (from a read of its data or its parser); or as the first uses of a freshly loaded "
                + "library; the thread's state, standard output and error, default locale and zone and system properties are compared before and after; non-trivial: every case", c -> {
            watch();
            final Source s = c.s;
            c.nontrivial = true;
            if (s.chance(1) && s.chance(20)) {
                first(c);
                return;
            }
            final List<Call> calls = new ArrayList<>();
            for (int i = s.range(1, 4); i > 0; i--) {
                final World w = new World(s);
                final Gen g = new Gen(w);
                g.missing = s.of(0, 5);
                g.fields = 80;
                final boolean arith = s.chance(40);
                final RNode n = s.chance(10) ? g.any(2) : arith ? g.numeric(2) : g.bool(2);
                String text = Printer.print(n, Printer.any(s));
                if (s.chance(6)) {
                    text = s.coin() ? text + s.of(" AND", ")", " = =", " #") : text.substring(s.draw(text.length() + 1));
                }
                if (s.chance(5)) {
                    text = "DAYS_ELAPSED(2020-0" + s.range(1, 9) + "-11) > " + s.of(5, 100, 100000);
                }
                final String df = s.chance(10) && !arith ? "q" : null;
                c.note("expression " + calls.size() + ": " + Show.text(text) + (df == null ? "" : ", default field " + df));
                c.note("  data: " + w.show());
                calls.add(new Call(text, arith, df, w.data(), arith ? Impl.arith(text, w.data()) : Impl.bool(text, w.data(), df)));
            }
            final BoolExpressionParser p = s.coin() ? new BoolParser() : new CachedBoolParser(s.of(0, 1, 100));
            final BooleanExpressionEvaluator be = new BooleanExpressionEvaluator(p);
            final ArithmeticExpressionEvaluator ae = new ArithmeticExpressionEvaluator(p);
            final boolean warm = s.coin();
            if (warm) {
                calls.forEach(j -> j.run(be, ae, j.data));
            }
            c.executions += calls.size() * 2;
            final AtomicReference<String> bad = new AtomicReference<>();
            final int where = s.weighted(25, 20, 8, 8, 30, 9);
            final boolean interrupted = where == 0 || s.chance(20);
            final int loader = where == 1 ? s.range(1, 2) : s.weighted(8, 1, 1);
            final boolean own = s.chance(30);
            final boolean cached = own && s.coin();
            final Properties before = s.chance(20) ? (Properties) System.getProperties().clone() : null;
            final Runnable body = () -> {
                try {
                    final Thread t = Thread.currentThread();
                    final ClassLoader was = t.getContextClassLoader();
                    final ClassLoader here = loader == 0 ? was : loader == 1 ? null : new ClassLoader(null) {
                    };
                    t.setContextClassLoader(here);
                    if (interrupted) {
                        t.interrupt();
                    }
                    final StringBuilder printed = new StringBuilder();
                    PRINTED.set(printed);
                    try {
                        final BooleanExpressionEvaluator be1 = own ? new BooleanExpressionEvaluator(cached ? new CachedBoolParser(3) : new BoolParser()) : be;
                        final ArithmeticExpressionEvaluator ae1 = own ? new ArithmeticExpressionEvaluator(cached ? new CachedBoolParser(3) : new BoolParser()) : ae;
                        for (final Call j : calls) {
                            final String x = differs(j, j.run(be1, ae1, j.data));
                            if (x != null) {
                                bad.compareAndSet(null, x);
                            }
                            if (t.isInterrupted() != interrupted) {
                                bad.compareAndSet(null, Show.text(j.text) + (interrupted ? " clears" : " sets") + " the thread's interrupt status");
                            }
                            if (t.getContextClassLoader() != here) {
                                bad.compareAndSet(null, Show.text(j.text) + " changes the thread's context class loader");
                            }
                        }
                    } finally {
                        PRINTED.remove();
                        t.setContextClassLoader(was);
                        Thread.interrupted();
                    }
                    if (printed.length() > 0) {
                        bad.compareAndSet(null, "something is printed: " + Show.text(printed.toString()));
                    }
                } catch (final Throwable e) {
                    bad.compareAndSet(null, String.valueOf(e.getMessage() == null ? e : e.getMessage()));
                }
            };
            switch (where) {
                case 2 -> {
                    c.label("virtual");
                    join(c, Thread.ofVirtual().unstarted(body));
                }
                case 3 -> {
                    c.label("pool");
                    ForkJoinPool.commonPool().submit(body).join();
                }
                case 4 -> {
                    c.label("within");
                    within(c, calls, be, ae, p, bad);
                }
                default -> {
                    c.label(where == 0 ? "interrupted" : where == 1 ? "loader" : "plain");
                    final Thread t = new Thread(null, body, s.of("main", "", "x", "worker-1"), 16L << 20);
                    t.setDaemon(true);
                    t.setPriority(s.of(Thread.MIN_PRIORITY, Thread.NORM_PRIORITY));
                    final Thread.UncaughtExceptionHandler h = (x, e) -> bad.compareAndSet(null, "uncaught: " + e);
                    t.setUncaughtExceptionHandler(h);
                    join(c, t);
                }
            }
            if (bad.get() != null) {
                throw c.fail((interrupted ? "on an interrupted thread, " : "") + (loader == 1 ? "without a context class loader, " : loader == 2 ? "with a strange context class loader, " : "")
                        + new String[] {"", "", "on a virtual thread, ", "in a fork-join pool, ", "in the middle of another evaluation, ", ""}[where] + bad.get());
            }
            if (!home()) {
                throw c.fail("the default locale or time zone is changed");
            }
            if (before != null && !before.equals(System.getProperties())) {
                throw c.fail("the system properties are changed");
            }
        });
    }

    /** True when the default locale and zone are still those the run was started with; restores them. */
    private static boolean home() {
        final Locale l = Locale.forLanguageTag("sv-FI");
        final TimeZone z = TimeZone.getTimeZone("Etc/GMT-5");
        if (l.equals(Locale.getDefault()) && l.equals(Locale.getDefault(Locale.Category.FORMAT)) && l.equals(Locale.getDefault(Locale.Category.DISPLAY)) && z.equals(TimeZone.getDefault())) {
            return true;
        }
        Locale.setDefault(l);
        TimeZone.setDefault(z);
        return false;
    }

    private static void join(final Ctx c, final Thread t) {
        t.start();
        try {
            t.join(90_000);
        } catch (final InterruptedException e) {
            Thread.currentThread().interrupt();
        }
        if (t.isAlive()) {
            throw c.fail("a thread has not finished after 90 s");
        }
    }

    /** Evaluations that start while another one on the same thread is under way. */
    private static void within(final Ctx c, final List<Call> calls, final BooleanExpressionEvaluator be, final ArithmeticExpressionEvaluator ae, final BoolExpressionParser p, final AtomicReference<String> bad) {
        final Source s = c.s;
        final Call outer = calls.get(0);
        final List<Call> inner = calls.size() > 1 ? calls.subList(1, calls.size()) : calls;
        final Runnable task = () -> inner.forEach(j -> {
            final String x = differs(j, j.run(be, ae, j.data));
            if (x != null) {
                bad.compareAndSet(null, "(inside) " + x);
            }
        });
        final int at = s.draw(4);
        if (s.chance(75)) {
            final Map<String, Object> m = new Busy(outer.data, task, at);
            final String x = differs(outer, outer.run(be, ae, m));
            if (x != null) {
                bad.compareAndSet(null, "(outside) " + x);
            }
            return;
        }
        // the parser evaluates while it is asked
        final BoolExpressionParser asking = new BoolExpressionParser() {
            @Override
            public io.vavr.control.Try<com.github.sidhant92.boolparser.domain.logical.Node> parseExpression(final String text, final String df) {
                task.run();
                final var r = p.parseExpression(text, df);
                task.run();
                return r;
            }

            @Override
            public io.vavr.control.Try<com.github.sidhant92.boolparser.domain.logical.Node> parseExpression(final String text) {
                return parseExpression(text, null);
            }
        };
        final String x = differs(outer, outer.run(new BooleanExpressionEvaluator(asking), new ArithmeticExpressionEvaluator(asking), outer.data));
        if (x != null) {
            bad.compareAndSet(null, "(outside) " + x);
        }
    }

    /** First uses on a thread that is interrupted or has no useful context class loader. */
    public static final class Alone implements java.util.function.BiFunction<String[], int[], String> {
        @Override
        public String apply(final String[] in, final int[] how) {
            final AtomicReference<String> bad = new AtomicReference<>();
            final Thread t = new Thread(null, () -> {
                try {
                    final Thread me = Thread.currentThread();
                    me.setContextClassLoader(how[0] == 0 ? null : how[0] == 1 ? new ClassLoader(null) {
                    } : ClassLoader.getSystemClassLoader());
                    if (how[1] == 1) {
                        me.interrupt();
                    }
                    final BoolExpressionParser p = how[2] == 0 ? new BoolParser() : new CachedBoolParser(4);
                    final BooleanExpressionEvaluator be = new BooleanExpressionEvaluator(p);
                    final ArithmeticExpressionEvaluator ae = new ArithmeticExpressionEvaluator(p);
                    for (final String line : in) {
                        final String[] f = line.split("\t");
                        final Out o = f[0].equals("B") ? Impl.bool(be, f[1], Concurrent.FIRST_DATA, null) : Impl.arith(ae, f[1], Concurrent.FIRST_DATA);
                        if (!o.toString().equals(f[2]) && !(o.failed() && f[2].equals("failure"))) {
                            bad.compareAndSet(null, Show.text(f[1]) + " gives " + o + "\n  expected " + f[2]);
                        }
                    }
                    if (me.isInterrupted() != (how[1] == 1)) {
                        bad.compareAndSet(null, "the interrupt status is changed");
                    }
                } catch (final Throwable e) {
                    bad.compareAndSet(null, String.valueOf(e.getMessage() == null ? e : e.getMessage()));
                }
            }, "alone", 4L << 20);
            t.setDaemon(true);
            t.start();
            try {
                t.join(60_000);
            } catch (final InterruptedException e) {
                return "interrupted";
            }
            return t.isAlive() ? "the thread has not finished after 60 s" : bad.get();
        }
    }

    private static void first(final Ctx c) throws Exception {
        c.label("first_use");
        final Source s = c.s;
        final List<String> lines = new ArrayList<>(Arrays.asList(Concurrent.FIRST));
        final int n = s.range(1, lines.size());
        while (lines.size() > n) {
            lines.remove(s.draw(lines.size()));
        }
        final int[] how = {s.draw(3), s.draw(2), s.draw(2)};
        lines.forEach(l -> c.note("first use: " + l.replace('\t', ' ')));
        c.note(new String[] {"no context class loader", "an empty context class loader", "the system class loader"}[how[0]] + (how[1] == 1 ? ", interrupted" : ""));
        final URLClassLoader own = (URLClassLoader) Usage.class.getClassLoader();
        final URL[] urls = own.getURLs();
        c.executions += n;
        try (URLClassLoader fresh = new URLClassLoader(urls, own.getParent())) {
            @SuppressWarnings("unchecked")
            final java.util.function.BiFunction<String[], int[], String> f = (java.util.function.BiFunction<String[], int[], String>) fresh.loadClass(Alone.class.getName()).getDeclaredConstructor().newInstance();
            final String bad = f.apply(lines.toArray(new String[0]), how);
            if (bad != null) {
                throw c.fail("first uses: " + bad);
            }
            if (!home()) {
                throw c.fail("first uses change the default locale or time zone");
            }
        }
    }
}
