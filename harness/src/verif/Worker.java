package verif;

import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;
import java.util.concurrent.atomic.AtomicBoolean;
import java.util.concurrent.atomic.AtomicLong;
import java.util.concurrent.atomic.AtomicReference;
import java.util.function.Function;
import java.util.function.Supplier;

/** Runs cases of one property inside one loaded copy of the code under test. Speaks JDK types only. */
public final class Worker implements Function<Map<String, Object>, Map<String, Object>> {

    /** A set of 64-bit hashes. */
    private static final class Longs {
        private long[] t = new long[1 << 12];
        private int n;

        void add(final long h) {
            final long v = h == 0 ? 1 : h;
            if (n * 2 >= t.length) {
                final long[] old = t;
                t = new long[old.length * 2];
                n = 0;
                for (final long o : old) {
                    if (o != 0) {
                        add(o);
                    }
                }
            }
            int i = (int) (mix(v) & (t.length - 1));
            while (t[i] != 0) {
                if (t[i] == v) {
                    return;
                }
                i = (i + 1) & (t.length - 1);
            }
            t[i] = v;
            n++;
        }

        long[] toArray() {
            return Arrays.stream(t).filter(x -> x != 0).toArray();
        }
    }

    private static long mix(final long v) {
        long x = v * 0x9E3779B97F4A7C15L;
        x ^= x >>> 32;
        x *= 0xD6E8FEB86659FD93L;
        return x ^ x >>> 32;
    }

    private static long hash(final CharSequence s) {
        long h = 1125899906842597L;
        for (int i = 0; i < s.length(); i++) {
            h = 31 * h + s.charAt(i);
        }
        return mix(h);
    }

    static long caseSeed(final long seed, final int worker, final int index) {
        return mix(mix(seed + 1) + 31L * worker + 1_000_003L * index);
    }

    private Prop prop;

    @Override
    @SuppressWarnings("unchecked")
    public Map<String, Object> apply(final Map<String, Object> cfg) {
        final Map<String, Object> out = new HashMap<>();
        try {
            if (Dict.LONGS.isEmpty() && Dict.STRINGS.isEmpty()) {
                Dict.load((List<String>) cfg.get("dict"));
            }
            prop = Props.ALL.get((String) cfg.get("property"));
            switch ((String) cfg.get("mode")) {
                case "describe" -> describe(out);
                case "run" -> run(cfg, out);
                case "replay" -> {
                    prop.start();
                    final Case k = attempts((int[]) cfg.get("choices"), prop.attempts * 4);
                    put(out, k);
                }
                case "text" -> {
                }
                default -> throw new IllegalArgumentException("mode");
            }
        } catch (final Throwable t) {
            out.put("error", stack(t));
        }
        return out;
    }

    private static String stack(final Throwable t) {
        final java.io.StringWriter w = new java.io.StringWriter();
        t.printStackTrace(new java.io.PrintWriter(w));
        return w.toString();
    }

    private static void describe(final Map<String, Object> out) {
        for (final Prop p : Props.ALL.values()) {
            out.put(p.id, new Object[] {p.quick, p.thorough, p.workers, p.rule});
        }
    }

    private static final class Case {
        Ctx ctx;
        int[] choices;
        Violation violation;
        Throwable error;
    }

    private Case once(final Source s, final AtomicReference<Supplier<Object[]>> current) {
        final Case k = new Case();
        k.ctx = new Ctx(s);
        if (current != null) {
            current.set(() -> new Object[] {s.choices(), k.ctx.text.toString()});
        }
        try {
            prop.run(k.ctx);
        } catch (final Violation v) {
            k.violation = v;
        } catch (final Throwable t) {
            k.error = t;
        }
        k.choices = s.choices();
        return k;
    }

    private Case attempts(final int[] choices, final int n) {
        Case k = null;
        for (int i = 0; i < n; i++) {
            k = once(new Source(choices), null);
            if (k.violation != null) {
                return k;
            }
        }
        return k;
    }

    private static void put(final Map<String, Object> out, final Case k) {
        if (k.error != null) {
            out.put("error", k.ctx.text + stack(k.error));
        } else if (k.violation != null) {
            out.put("choices", k.choices);
            out.put("report", k.ctx.text + "\n" + k.violation.getMessage());
        }
    }

    @SuppressWarnings("unchecked")
    private void run(final Map<String, Object> cfg, final Map<String, Object> out) {
        final long seed = (Long) cfg.get("seed");
        final int worker = (Integer) cfg.get("worker");
        final int count = (Integer) cfg.get("count");
        final AtomicBoolean stop = (AtomicBoolean) cfg.get("stop");
        final AtomicLong progress = (AtomicLong) cfg.get("progress");
        final AtomicReference<Supplier<Object[]>> current = (AtomicReference<Supplier<Object[]>>) cfg.get("current");
        final Longs distinct = new Longs();
        final Map<String, Long> labels = new TreeMap<>();
        final List<String> samples = new ArrayList<>();
        long cases = 0;
        long nontrivial = 0;
        long executions = 0;
        int nextSample = worker;
        prop.start();
        for (int i = 0; i < count && !stop.get(); i++) {
            progress.set(i);
            final Case k = once(new Source(caseSeed(seed, worker, i)), current);
            cases++;
            executions += k.ctx.executions;
            if (k.error != null) {
                out.put("error", k.ctx.text + stack(k.error));
                stop.set(true);
                break;
            }
            if (k.violation != null) {
                stop.set(true);
                out.put("index", i);
                final Case again = attempts(k.choices, prop.attempts);
                if (again.violation == null) {
                    // depends on what ran before it in this copy of the code (or on the schedule)
                    out.put("sequence", true);
                    put(out, k);
                } else {
                    put(out, shrink(again, progress));
                }
                break;
            }
            for (final String l : k.ctx.labels) {
                labels.merge(l, 1L, Long::sum);
            }
            if (k.ctx.nontrivial) {
                nontrivial++;
                distinct.add(hash(k.ctx.text));
                if (i >= nextSample && samples.size() < 4) {
                    final String t = k.ctx.text.toString().strip();
                    samples.add(t.length() > 700 ? t.substring(0, 700) + "..." : t);
                    nextSample = i * 2 + 37 * (worker + 1);
                }
            }
        }
        current.set(null);
        out.put("cases", cases);
        out.put("nontrivial", nontrivial);
        out.put("executions", executions);
        out.put("distinct", distinct.toArray());
        out.put("labels", labels);
        out.put("samples", samples);
    }

    private Case shrink(final Case first, final AtomicLong progress) {
        Case best = first;
        final long end = System.nanoTime() + 12_000_000_000L;
        int tries = 3000 / prop.attempts;
        boolean improved = true;
        final boolean[] spent = {false};
        while (improved && !spent[0]) {
            improved = false;
            for (int size = Math.max(1, Integer.highestOneBit(best.choices.length)); size >= 1; size /= 2) {
                for (int at = best.choices.length - size; at >= 0; at -= Math.max(1, size / 2)) {
                    for (int how = 0; how < 2; how++) {
                        if (at + size > best.choices.length) {
                            continue;
                        }
                        if (tries-- <= 0 || System.nanoTime() > end) {
                            return best;
                        }
                        progress.incrementAndGet();
                        final Case k = how == 0 ? tryDelete(best.choices, at, size) : tryZero(best.choices, at, size);
                        if (k != null && smaller(k.choices, best.choices)) {
                            best = k;
                            improved = true;
                        }
                    }
                }
            }
            for (int i = 0; i < best.choices.length; i++) {
                int lo = 0;
                while (i < best.choices.length && lo < best.choices[i]) {
                    if (tries-- <= 0 || System.nanoTime() > end) {
                        return best;
                    }
                    progress.incrementAndGet();
                    final int[] c = best.choices.clone();
                    final int mid = (lo + c[i] - 1) / 2;
                    c[i] = mid;
                    final Case k = failing(c);
                    if (k != null && smaller(k.choices, best.choices)) {
                        best = k;
                        improved = true;
                    } else {
                        lo = mid + 1;
                    }
                }
            }
        }
        return best;
    }

    private Case tryDelete(final int[] c, final int at, final int n) {
        final int[] d = new int[c.length - n];
        System.arraycopy(c, 0, d, 0, at);
        System.arraycopy(c, at + n, d, at, c.length - at - n);
        return failing(d);
    }

    private Case tryZero(final int[] c, final int at, final int n) {
        final int[] d = c.clone();
        boolean changed = false;
        for (int i = at; i < at + n; i++) {
            changed |= d[i] != 0;
            d[i] = 0;
        }
        return changed ? failing(d) : null;
    }

    private Case failing(final int[] c) {
        final Case k = attempts(c, prop.attempts);
        return k.violation != null ? k : null;
    }

    private static boolean smaller(final int[] a, final int[] b) {
        if (a.length != b.length) {
            return a.length < b.length;
        }
        for (int i = 0; i < a.length; i++) {
            if (a[i] != b[i]) {
                return a[i] < b[i];
            }
        }
        return false;
    }
}
