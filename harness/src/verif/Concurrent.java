package verif;

import com.github.sidhant92.boolparser.application.ArithmeticExpressionEvaluator;
import com.github.sidhant92.boolparser.application.BooleanExpressionEvaluator;
import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import com.github.sidhant92.boolparser.parser.antlr.CachedBoolParser;
import java.io.File;
import java.net.URL;
import java.net.URLClassLoader;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.CyclicBarrier;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicReference;
import java.util.function.Supplier;

/** Parsers and evaluators shared between threads. */
final class Concurrent {
    static final int THREADS = 6;

    private Concurrent() {
    }

    static void register() {
        final Prop p = Props.reg("C21", 4400, 60_000, "a pool of 4 to 20 expressions (some pools are of one or two kinds of operation on values that hardly differ) with outcomes computed beforehand by fresh "
                + "evaluators; then (a) 6 threads evaluate them in generated orders through one shared parser (cached or not) and shared evaluators, (b) evaluations are interleaved deterministically: a read of "
                + "the data inside one evaluation runs another evaluation on another thread, (c) 2 to 4 threads evaluate them in a copy of the library with a scheduling point before every call and field "
                + "access, one thread running at a time and handing over where a generated seed decides, sometimes as the first uses of that copy, or (d) 6 threads build the first parsers and evaluators "
                + "of a freshly loaded library at once; non-trivial: every case", c -> {
            c.nontrivial = true;
            switch (c.s.weighted(32, 28, 35, 5)) {
                case 0 -> stress(c);
                case 1 -> handOff(c);
                case 2 -> scheduled(c);
                default -> initialise(c);
            }
        });
        p.workers = 4;
        p.attempts = 12;
    }

    private record Job(String text, boolean arith, String df, Map<String, Object> data, Out want) {
        Out run(final BooleanExpressionEvaluator be, final ArithmeticExpressionEvaluator ae) {
            return arith ? Impl.arith(ae, text, data) : Impl.bool(be, text, data, df);
        }
    }

    private static List<Job> jobs(final Ctx c) {
        final Source s = c.s;
        final List<Job> out = new ArrayList<>();
        final int worlds = s.range(1, 3);
        final int[] kinds = s.chance(45) ? s.chance(60) ? new int[] {s.draw(KINDS)} : new int[] {s.draw(KINDS), s.draw(KINDS)} : null;
        if (kinds != null) {
            c.label("few_kinds_of_operation");
        }
        for (int k = 0; k < worlds; k++) {
            final World w = new World(s);
            w.mapKinds = 0;
            w.nested = 10;
            final Gen g = new Gen(w);
            g.fields = 60;
            g.missing = kinds != null ? 0 : 2;
            final String df = w.bind(s.range(0, 20));
            final List<Object[]> texts = new ArrayList<>();
            if (kinds != null) {
                focus(g, kinds, df, texts);
            } else {
            for (int i = s.range(2, 8); i > 0; i--) {
                switch (s.weighted(4, 3, 2, 2)) {
                    case 0 -> texts.add(new Object[] {Printer.print(g.bool(s.range(1, 3)), Printer.any(s)), false, null});
                    case 1 -> texts.add(new Object[] {Printer.print(g.numeric(s.range(1, 3)), Printer.any(s)), true, null});
                    case 2 -> texts.add(new Object[] {Gen.CMP[s.draw(Gen.CMP.length)] + " " + s.range(0, 20), false, df});
                    default -> {
                        final List<Object> l = new ArrayList<>();
                        for (int j = s.range(1, 60); j > 0; j--) {
                            l.add(s.range(0, 99));
                        }
                        final RNode f = w.field(l);
                        texts.add(new Object[] {Printer.print(s.coin() ? new RNode.Fn(s.of("MIN", "MAX", "SUM", "AVG", "MEDIAN", "MODE", "LEN"), List.of(f))
                                : new RNode.Fn("SUM", List.of(f, g.numeric(2))), Printer.any(s)), true, null});
                    }
                }
            }
            }
            final Map<String, Object> data = w.data();
            c.note("data " + k + ": " + Show.value(data));
            for (final Object[] t : texts) {
                final String text = (String) t[0];
                final boolean arith = (Boolean) t[1];
                final Out want = arith ? Impl.arith(text, data) : Impl.bool(text, data, (String) t[2]);
                c.note("expression: " + Show.text(text) + (t[2] == null ? "" : " default " + t[2]) + (arith ? " arithmetic" : " boolean") + " data " + k + " is " + want);
                out.add(new Job(text, arith, (String) t[2], data, want));
            }
        }
        c.executions += out.size();
        return out;
    }

    private static final int KINDS = 14;

    /** Expressions of one or two kinds about values that hardly differ: what one evaluation leaves behind shows in another. */
    private static void focus(final Gen g, final int[] kinds, final String df, final List<Object[]> texts) {
        final Source s = g.s;
        final Object x = g.scalar();
        final String text = g.v.plainString();
        final Object number = s.chance(60) ? (Object) s.range(-20, 100) : g.v.number();
        final String op = s.of(Gen.ARITH);
        final String fn = s.of("MIN", "MAX", "SUM", "AVG", "MEAN", "MEDIAN", "MODE", "LEN", "INT");
        g.fields = s.of(0, 50, 100);
        for (int i = s.range(2, 6); i > 0; i--) {
            RNode n;
            boolean arith = true;
            String field = null;
            switch (kinds[s.draw(kinds.length)]) {
                case 0 -> n = new RNode.Arith("+", g.leaf(g.v.nearPlainString(text)), s.chance(70) ? g.leaf(g.v.nearPlainString(text)) : g.number(g.v.nearNumber(number)));
                case 1 -> n = new RNode.Arith(op, g.number(g.v.nearNumber(number)), g.number(op.equals("^") ? (Object) s.draw(5) : g.v.nearNumber(number)));
                case 2 -> n = new RNode.Neg(g.number(g.v.nearNumber(number)));
                case 3, 4 -> {
                    arith = false;
                    final RNode l = g.leaf(s.coin() ? x : g.near(x));
                    final RNode r = g.leaf(g.near(x));
                    n = new RNode.Cmp(x instanceof Boolean ? s.of("=", "!=") : s.of(Gen.CMP), l, r);
                    if (s.coin()) {
                        texts.add(new Object[] {Printer.print(new RNode.Cmp(s.of("=", "!="), r, l), Printer.any(s)), false, null});
                    }
                }
                case 5 -> {
                    arith = false;
                    n = g.in();
                }
                case 6 -> {
                    arith = false;
                    n = g.contains();
                }
                case 7 -> {
                    arith = false;
                    n = g.range();
                }
                case 8 -> {
                    if (fn.equals("LEN")) {
                        n = new RNode.Fn(fn, List.of(s.coin() ? g.leaf(g.v.nearPlainString(text)) : g.w.field(g.container(g.numbers(s.draw(6))))));
                    } else if (fn.equals("INT")) {
                        n = new RNode.Fn(fn, List.of(g.number(g.v.nearNumber(number))));
                    } else {
                        n = s.coin() ? new RNode.Fn(fn, List.of(g.w.field(g.container(g.numbers(s.range(1, 6)))))) : new RNode.Fn(fn, List.of(g.number(g.v.nearNumber(number)), g.number(g.v.nearNumber(number))));
                    }
                }
                case 9 -> {
                    arith = false;
                    n = g.nullCheck();
                }
                case 10 -> {
                    texts.add(new Object[] {Gen.CMP[s.draw(Gen.CMP.length)] + " " + s.range(0, 20), false, df});
                    continue;
                }
                case 11 -> {
                    // things to be computed among the items of lists
                    arith = false;
                    final List<RNode> items = new ArrayList<>();
                    for (int k = s.range(1, 3); k > 0; k--) {
                        items.add(switch (s.draw(3)) {
                            case 0 -> new RNode.Cmp(s.of(Gen.CMP), g.w.field(s.range(0, 3)), g.number(s.range(0, 3)));
                            case 1 -> new RNode.Arith(s.of("+", "-", "*"), g.w.field(s.range(0, 3)), g.number(s.range(0, 3)));
                            default -> new RNode.Cmp("=", g.w.field(s.coin()), g.leaf(s.coin()));
                        });
                    }
                    n = new RNode.In(g.w.bind(s.chance(60) ? (Object) s.coin() : s.range(0, 5)), s.chance(20), items);
                }
                case 12 -> {
                    // many names
                    arith = s.coin();
                    n = null;
                    for (int k = s.range(10, 90); k > 0; k--) {
                        final int v = s.draw(3);
                        final RNode f = g.w.field(v);
                        n = arith ? n == null ? f : new RNode.Arith("+", n, f) : n == null ? new RNode.Cmp("=", f, new RNode.Lit("INT", v)) : new RNode.Bool("AND", n, new RNode.Cmp("=", f, new RNode.Lit("INT", v)));
                    }
                }
                default -> {
                    arith = false;
                    n = s.coin() ? new RNode.Not(g.w.field(s.coin())) : new RNode.Bool(s.of("AND", "OR"), g.w.field(s.coin()), g.w.field(s.coin()));
                }
            }
            texts.add(new Object[] {Printer.print(n, s.coin() ? Printer.plain(s) : Printer.any(s)), arith, field});
        }
    }

    private static BoolExpressionParser parser(final Ctx c) {
        final int size = c.s.of(-1, 0, 1, 2, 4, 100);
        c.note(size < 0 ? "parser: BoolParser" : "parser: CachedBoolParser of size " + size);
        return size < 0 ? new BoolParser() : new CachedBoolParser(size);
    }

    private static String wrong(final Job j, final Out got) {
        return Checks.same(got, j.want) ? null : Show.text(j.text) + (j.df == null ? "" : " default " + j.df) + " gives " + got + "\n  alone it gives " + j.want;
    }

    // ------------------------------------------------------------ (a)

    private static void stress(final Ctx c) throws Exception {
        final List<Job> jobs = jobs(c);
        final BoolExpressionParser p = parser(c);
        final BooleanExpressionEvaluator be = new BooleanExpressionEvaluator(p);
        final ArithmeticExpressionEvaluator ae = new ArithmeticExpressionEvaluator(p);
        final int rounds = c.s.range(10, 40);
        final int stride = c.s.range(1, 5);
        final int builders = c.s.weighted(4, 3, 3);
        c.note(THREADS + " threads, " + rounds + " evaluations each" + (builders > 0 ? ", " + builders + " of them through parsers and evaluators of their own, made anew each time" : ""));
        c.label(builders > 0 ? "stress_building" : "stress");
        final AtomicReference<String> bad = new AtomicReference<>();
        parallel(c, t -> {
            if (t < builders) {
                for (int i = 0; i < rounds * 3 && bad.get() == null; i++) {
                    for (int k = 0; k < 4; k++) {
                        new ArithmeticExpressionEvaluator(p);
                        new BooleanExpressionEvaluator(i % 2 == 0 ? p : new BoolParser());
                    }
                    final BoolExpressionParser own = i % 3 == 0 ? new CachedBoolParser(2) : new BoolParser();
                    final Job j = jobs.get((t * 7 + i * stride) % jobs.size());
                    final String w = wrong(j, j.run(new BooleanExpressionEvaluator(own), new ArithmeticExpressionEvaluator(own)));
                    if (w != null) {
                        bad.compareAndSet(null, w);
                    }
                }
                return;
            }
            for (int i = 0; i < rounds && bad.get() == null; i++) {
                final Job j = jobs.get((t * 7 + i * stride) % jobs.size());
                final String w = wrong(j, j.run(be, ae));
                if (w != null) {
                    bad.compareAndSet(null, w);
                }
            }
        }, bad);
        c.executions += THREADS * rounds;
    }

    private interface Body {
        void run(int thread) throws Exception;
    }

    private static void parallel(final Ctx c, final Body body, final AtomicReference<String> bad) throws Exception {
        final CyclicBarrier start = new CyclicBarrier(THREADS);
        final List<Thread> threads = new ArrayList<>();
        for (int t = 0; t < THREADS; t++) {
            final int id = t;
            final Thread th = new Thread(null, () -> {
                try {
                    start.await();
                    body.run(id);
                } catch (final Violation v) {
                    bad.compareAndSet(null, v.getMessage());
                } catch (final Throwable e) {
                    bad.compareAndSet(null, e.toString());
                }
            }, "shared-" + t, 4L << 20);
            th.setDaemon(true);
            threads.add(th);
            th.start();
        }
        final long end = System.nanoTime() + TimeUnit.SECONDS.toNanos(60);
        for (final Thread th : threads) {
            th.join(1500);
            while (th.isAlive() && System.nanoTime() < end) {
                final long[] dead = java.lang.management.ManagementFactory.getThreadMXBean().findDeadlockedThreads();
                for (final long d : dead == null ? new long[0] : dead) {
                    if (d == th.getId()) {
                        throw c.fail("a deadlock between threads that share a parser and evaluators");
                    }
                }
                th.join(1500);
            }
            if (th.isAlive()) {
                final StringBuilder b = new StringBuilder("a thread has not finished after 60 s:");
                for (final StackTraceElement e : th.getStackTrace()) {
                    b.append("\n  at ").append(e);
                }
                throw c.fail(b.toString());
            }
        }
        if (bad.get() != null) {
            throw c.fail("on threads sharing a parser and evaluators, " + bad.get());
        }
    }

    // ------------------------------------------------------------ (b)

    /** Data whose reads hand over to another evaluation. */
    private static final class Handing extends HashMap<String, Object> {
        private final transient Supplier<Void> hook;

        Handing(final Map<String, Object> m, final Supplier<Void> hook) {
            super(m);
            this.hook = hook;
        }

        @Override
        public Object get(final Object k) {
            hook.get();
            return super.get(k);
        }

        @Override
        public boolean containsKey(final Object k) {
            hook.get();
            return super.containsKey(k);
        }

        @Override
        public Object getOrDefault(final Object k, final Object d) {
            hook.get();
            return super.getOrDefault(k, d);
        }
    }

    private static final class HandingList extends ArrayList<Object> {
        private final transient Supplier<Void> hook;

        HandingList(final List<?> l, final Supplier<Void> hook) {
            super(l);
            this.hook = hook;
        }

        @Override
        public Object get(final int i) {
            hook.get();
            return super.get(i);
        }

        @Override
        public java.util.Iterator<Object> iterator() {
            hook.get();
            return super.iterator();
        }

        @Override
        public java.util.stream.Stream<Object> stream() {
            hook.get();
            return super.stream();
        }
    }

    @SuppressWarnings("unchecked")
    private static Map<String, Object> handing(final Map<String, Object> m, final Supplier<Void> hook) {
        final Map<String, Object> out = new LinkedHashMap<>();
        m.forEach((k, v) -> out.put(k, v instanceof Map<?, ?> n ? handing((Map<String, Object>) n, hook) : v instanceof ArrayList<?> l ? new HandingList(l, hook) : v));
        return new Handing(out, hook);
    }

    private static void handOff(final Ctx c) throws Exception {
        final Source s = c.s;
        final List<Job> jobs = jobs(c);
        final BoolExpressionParser p = parser(c);
        final BooleanExpressionEvaluator be = new BooleanExpressionEvaluator(p);
        final ArithmeticExpressionEvaluator ae = new ArithmeticExpressionEvaluator(p);
        c.label("hand_off");
        final int outers = s.range(1, 4);
        for (int o = 0; o < outers; o++) {
            final Job outer = s.of(jobs);
            final int at = s.draw(6);
            final int howMany = s.range(1, 3);
            final boolean fresh = s.chance(30);
            final List<Job> inner = new ArrayList<>();
            for (int i = 0; i < howMany; i++) {
                inner.add(s.of(jobs));
            }
            final int[] reads = {0};
            final boolean[] busy = {false};
            final AtomicReference<String> bad = new AtomicReference<>();
            final List<CountDownLatch> late = new ArrayList<>();
            final Supplier<Void> hook = () -> {
                final int k = reads[0]++;
                if (busy[0] || k < at || k >= at + howMany) {
                    return null;
                }
                busy[0] = true;
                final Job j = inner.get(k - at);
                final CountDownLatch done = new CountDownLatch(1);
                final Thread th = new Thread(null, () -> {
                    try {
                        final BoolExpressionParser own = fresh ? new BoolParser() : p;
                        final String w = wrong(j, fresh ? j.run(new BooleanExpressionEvaluator(own), new ArithmeticExpressionEvaluator(own)) : j.run(be, ae));
                        if (w != null) {
                            bad.compareAndSet(null, "during an evaluation of " + Show.text(outer.text) + ", " + w);
                        }
                    } catch (final Throwable e) {
                        bad.compareAndSet(null, e.toString());
                    } finally {
                        done.countDown();
                    }
                }, "inner", 4L << 20);
                th.setDaemon(true);
                th.start();
                try {
                    // a lock around evaluations is allowed: then the other one runs afterwards
                    if (!done.await(150, TimeUnit.MILLISECONDS)) {
                        late.add(done);
                    }
                } catch (final InterruptedException e) {
                    Thread.currentThread().interrupt();
                }
                busy[0] = false;
                return null;
            };
            c.note("evaluation of " + Show.text(outer.text) + (outer.df == null ? "" : " default " + outer.df) + "; at read " + at + " of the data, on another thread" + (fresh ? " with a parser and evaluators of its own:" : ":"));
            inner.forEach(j -> c.note("    " + Show.text(j.text) + (j.df == null ? "" : " default " + j.df)));
            final Job handed = new Job(outer.text, outer.arith, outer.df, handing(outer.data, hook), outer.want);
            c.executions += 1 + howMany;
            final String w = wrong(handed, handed.run(be, ae));
            if (w != null) {
                throw c.fail("interrupted by evaluations on another thread, " + w);
            }
            for (final CountDownLatch l : late) {
                if (!l.await(60, TimeUnit.SECONDS)) {
                    throw c.fail("an evaluation has not finished after 60 s");
                }
            }
            if (bad.get() != null) {
                throw c.fail(bad.get());
            }
        }
    }

    // ------------------------------------------------------------ (c)

    /** Runs in a copy of the library with scheduling points. Arguments: the evaluations of each thread as {text, arithmetic, default field, data, failed, value}, {mode, cache size}, the scheduler and its settings. */
    public static final class Scheduled implements java.util.function.Function<Object[], String> {
        private static final int SHARED = 0;
        private static final int OWN_EVALUATORS = 1;

        @Override
        @SuppressWarnings("unchecked")
        public String apply(final Object[] in) {
            final Object[][][] work = (Object[][][]) in[0];
            final int mode = ((int[]) in[1])[0];
            final int size = ((int[]) in[1])[1];
            final java.util.function.BiFunction<long[], Runnable[], String> turns = (java.util.function.BiFunction<long[], Runnable[], String>) in[2];
            final AtomicReference<String> bad = new AtomicReference<>();
            final BoolExpressionParser p = mode > OWN_EVALUATORS ? null : parser(size);
            final BooleanExpressionEvaluator be = mode == SHARED ? new BooleanExpressionEvaluator(p) : null;
            final ArithmeticExpressionEvaluator ae = mode == SHARED ? new ArithmeticExpressionEvaluator(p) : null;
            final Runnable[] tasks = new Runnable[work.length];
            for (int t = 0; t < work.length; t++) {
                final Object[][] mine = work[t];
                tasks[t] = () -> {
                    try {
                        final BoolExpressionParser own = p != null ? p : parser(size);
                        BooleanExpressionEvaluator b = be;
                        ArithmeticExpressionEvaluator a = ae;
                        for (final Object[] j : mine) {
                            if (bad.get() != null) {
                                return;
                            }
                            if (mode != SHARED) {
                                b = (Boolean) j[1] ? b : new BooleanExpressionEvaluator(own);
                                a = (Boolean) j[1] ? new ArithmeticExpressionEvaluator(own) : a;
                            }
                            final Out o = (Boolean) j[1] ? Impl.arith(a, (String) j[0], (Map<String, Object>) j[3]) : Impl.bool(b, (String) j[0], (Map<String, Object>) j[3], (String) j[2]);
                            if (o.failed() != (Boolean) j[4] || !o.failed() && !Show.value(o.value()).equals(j[5])) {
                                bad.compareAndSet(null, Show.text((String) j[0]) + (j[2] == null ? "" : " default " + j[2]) + " gives " + o + "\n  alone it gives " + ((Boolean) j[4] ? "a failure" : j[5]));
                            }
                        }
                    } catch (final Throwable e) {
                        bad.compareAndSet(null, String.valueOf(e.getMessage() == null ? e : e.getMessage()));
                    }
                };
            }
            final String stuck = turns.apply((long[]) in[3], tasks);
            return stuck != null ? stuck : bad.get();
        }

        private static BoolExpressionParser parser(final int size) {
            return size < 0 ? new BoolParser() : new CachedBoolParser(size);
        }
    }

    private static ClassLoader woven() throws Exception {
        final URLClassLoader own = (URLClassLoader) Concurrent.class.getClassLoader();
        @SuppressWarnings("unchecked")
        final java.util.function.BiFunction<URL[], ClassLoader, URLClassLoader> weaver = (java.util.function.BiFunction<URL[], ClassLoader, URLClassLoader>) Class.forName("verifrun.Weaver", true, own)
                .getDeclaredConstructor().newInstance();
        return weaver.apply(own.getURLs(), own.getParent());
    }

    /** The copy this lane uses again and again. */
    private static java.util.function.Function<Object[], String> warm;

    @SuppressWarnings("unchecked")
    private static java.util.function.Function<Object[], String> scheduledIn(final ClassLoader l) throws Exception {
        return (java.util.function.Function<Object[], String>) l.loadClass(Scheduled.class.getName()).getDeclaredConstructor().newInstance();
    }

    private static void scheduled(final Ctx c) throws Exception {
        final Source s = c.s;
        final boolean first = s.chance(30);
        final List<Job> jobs = first && s.chance(70) ? known() : jobs(c);
        final int threads = s.range(2, 4);
        final int size = s.of(-1, -1, 1, 2, 100);
        final int mode = first ? s.weighted(0, 4, 4) : s.weighted(5, 3, 3);
        final List<Job> few = new ArrayList<>();
        for (int i = s.range(1, 4); i > 0; i--) {
            few.add(s.of(jobs));
        }
        final Object[][][] work = new Object[threads][][];
        for (int t = 0; t < threads; t++) {
            work[t] = new Object[s.range(1, 4)][];
            for (int i = 0; i < work[t].length; i++) {
                final Job j = s.of(few);
                work[t][i] = new Object[] {j.text, j.arith, j.df, j.data, j.want.failed(), j.want.failed() ? null : Show.value(j.want.value())};
                c.note("thread " + t + ": " + Show.text(j.text) + (j.df == null ? "" : " default " + j.df));
            }
            c.executions += work[t].length;
        }
        final long[] how = {s.bits(), first ? s.of(-1, -1, -1, -2, -2, -3, 1, 3, 10, 100) : s.of(-1, -1, -2, -3, 1, 2, 3, 5, 10, 30, 100, 300), 3000, s.draw(threads)};
        c.note((mode == 0 ? "one parser and evaluators" : mode == 1 ? "one parser, evaluators made anew" : "a parser for each thread, evaluators made anew") + (size < 0 ? "" : ", cache of size " + size)
                + (how[1] < 0 ? ", " + -how[1] + " switches" : ", a switch in " + how[1] + " points") + (first ? ", in a freshly loaded library" : ""));
        c.label(first ? "scheduled_first_use" : "scheduled");
        final java.util.function.Function<Object[], String> f;
        if (first) {
            f = scheduledIn(woven());
        } else {
            if (warm == null) {
                warm = scheduledIn(woven());
            }
            f = warm;
        }
        @SuppressWarnings("unchecked")
        final Object turns = Class.forName("verifrun.Turns", true, Concurrent.class.getClassLoader()).getDeclaredConstructor().newInstance();
        final String bad = f.apply(new Object[] {work, new int[] {mode, size}, turns, how});
        if (bad != null) {
            throw c.fail("on " + threads + " threads that take turns, " + bad);
        }
    }

    // ------------------------------------------------------------ (d)

    /** Runs in a freshly loaded copy of everything: the first uses of the library, on several threads at once. */
    public static final class First implements java.util.function.BiFunction<String[], int[], String> {
        @Override
        public String apply(final String[] in, final int[] unused) {
            final AtomicReference<String> bad = new AtomicReference<>();
            final Map<String, Object> data = FIRST_DATA;
            final CyclicBarrier start = new CyclicBarrier(THREADS);
            final List<Thread> threads = new ArrayList<>();
            for (int t = 0; t < THREADS; t++) {
                final int id = t;
                final Thread th = new Thread(null, () -> {
                    try {
                        start.await();
                        final BoolExpressionParser p = id % 2 == 0 ? new BoolParser() : new CachedBoolParser(4);
                        final BooleanExpressionEvaluator be = new BooleanExpressionEvaluator(p);
                        final ArithmeticExpressionEvaluator ae = new ArithmeticExpressionEvaluator(p);
                        for (int i = 0; i < in.length; i++) {
                            final String line = in[(id + i) % in.length];
                            final String[] f = line.split("\t");
                            final Out o = f[0].equals("B") ? Impl.bool(be, f[1], data, null) : Impl.arith(ae, f[1], data);
                            if (!o.toString().equals(f[2]) && !(o.failed() && f[2].equals("failure"))) {
                                bad.compareAndSet(null, Show.text(f[1]) + " gives " + o + "\n  expected " + f[2]);
                            }
                        }
                    } catch (final Throwable e) {
                        bad.compareAndSet(null, String.valueOf(e.getMessage() == null ? e : e.getMessage()));
                    }
                }, "first-" + t, 4L << 20);
                th.setDaemon(true);
                threads.add(th);
                th.start();
            }
            for (final Thread th : threads) {
                try {
                    th.join(60_000);
                } catch (final InterruptedException e) {
                    return "interrupted";
                }
                if (th.isAlive()) {
                    return "a thread has not finished after 60 s";
                }
            }
            return bad.get();
        }
    }

    static final Map<String, Object> FIRST_DATA = Map.of("a", 5, "b", true, "s", "x", "l", List.of(1, 2, 3), "d", "2024-02-29");

    private static List<Job> known() {
        final List<Job> out = new ArrayList<>();
        for (final String line : FIRST) {
            final String[] f = line.split("\t");
            final boolean arith = f[0].equals("A");
            final Object want = f[2].equals("true") || f[2].equals("false") ? (Object) Boolean.valueOf(f[2]) : f[2].equals("failure") ? null : (Object) Integer.valueOf(f[2]);
            out.add(new Job(f[1], arith, null, FIRST_DATA, new Out(want, want == null ? new IllegalStateException() : null)));
        }
        return out;
    }

    static final String[] FIRST = {"B\ta = 5\ttrue", "B\ta >= 6\tfalse", "B\ta IN (1, 5)\ttrue", "B\tNOT (a < 3) AND b\ttrue", "B\ts = 'x' OR a > 9\ttrue", "B\tl CONTAINS_ANY (3, 9)\ttrue", "B\tl CONTAINS_ALL (3, 9)\tfalse",
            "B\td = 2024-02-29\ttrue", "B\t1.2.3 < 1.2.4\ttrue", "B\ta 4 TO 6\ttrue", "A\ta + 2 * 3\t11", "A\tMIN(l)\t1", "A\tSUM(l, a)\t11", "A\tLEN(s)\t1", "A\t(a - 7)\t-2", "A\ta % 3\t2", "B\ta = null\tfalse",
            "B\t2.5 < a\ttrue", "A\t-a\t-5", "A\tMODE(1, 2, 2)\t2", "A\tMAX(l, 2)\t3", "A\tAVG(l)\t2", "A\tMEDIAN(l)\t2", "A\tMEAN(a, 7)\t6", "A\tLEN(l)\t3", "A\ta ^ 2\t25", "A\ta / 5\t1", "B\ta != 5\tfalse", "B\ta <= 4\tfalse", "A\tINT(2.75)\t2", "B\ts = 'a' AND zz\tfalse", "B\tzz > 1\tfailure"};

    private static void initialise(final Ctx c) throws Exception {
        c.label("first_use");
        final Source s = c.s;
        final List<String> lines = new ArrayList<>(List.of(FIRST));
        final int n = s.range(1, lines.size());
        while (lines.size() > n) {
            lines.remove(s.draw(lines.size()));
        }
        lines.forEach(l -> c.note("first use: " + l.replace('\t', ' ')));
        final URLClassLoader own = (URLClassLoader) Concurrent.class.getClassLoader();
        final URL[] urls = own.getURLs();
        for (final URL u : urls) {
            if (!new File(u.toURI()).exists()) {
                throw new IllegalStateException("no " + u);
            }
        }
        c.executions += THREADS * n;
        try (URLClassLoader fresh = new URLClassLoader(urls, own.getParent())) {
            @SuppressWarnings("unchecked")
            final java.util.function.BiFunction<String[], int[], String> f = (java.util.function.BiFunction<String[], int[], String>) fresh.loadClass(First.class.getName()).getDeclaredConstructor()
                    .newInstance();
            final String bad = f.apply(lines.toArray(new String[0]), null);
            if (bad != null) {
                throw c.fail("first uses on several threads at once: " + bad);
            }
        }
    }
}
