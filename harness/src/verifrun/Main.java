package verifrun;

import java.io.ByteArrayOutputStream;
import java.io.File;
import java.io.IOException;
import java.io.OutputStream;
import java.io.PrintStream;
import java.net.URL;
import java.net.URLClassLoader;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Locale;
import java.util.Map;
import java.util.TimeZone;
import java.util.TreeMap;
import java.util.concurrent.atomic.AtomicBoolean;
import java.util.concurrent.atomic.AtomicLong;
import java.util.concurrent.atomic.AtomicReference;
import java.util.function.Function;
import java.util.function.Supplier;

/** Drives the workers of one property, reports, and writes evidence. */
public final class Main {
    private static final PrintStream OUT = System.out;
    private static final PrintStream ERR = System.err;
    private static final int HANG_SECONDS = 100;
    private static final List<String> ZONES = List.of("UTC", "Pacific/Kiritimati", "America/New_York", "Europe/Berlin", "Australia/Lord_Howe", "Asia/Kathmandu", "America/Sao_Paulo", "Pacific/Pago_Pago",
                                                      "Africa/Cairo", "Pacific/Apia");
    private static final List<String> LOCALES = List.of("tr-TR", "az", "lt", "de-DE", "ar-EG-u-nu-arab", "th-TH-u-ca-buddhist-nu-thai", "ja-JP-u-ca-japanese", "hi-IN-u-nu-deva", "fa-IR", "el");

    private static File code;
    private static List<String> dict;
    private static String property;
    private static String tier;
    private static long seed;
    private static Path replays;
    private static Path evidence;
    private static long start;

    private Main() {
    }

    private static Function<Map<String, Object>, Map<String, Object>> worker() throws Exception {
        final URLClassLoader l = new URLClassLoader(new URL[] {code.toURI().toURL()}, Main.class.getClassLoader());
        @SuppressWarnings("unchecked")
        final Function<Map<String, Object>, Map<String, Object>> f = (Function<Map<String, Object>, Map<String, Object>>) l.loadClass("verif.Worker").getDeclaredConstructor().newInstance();
        return f;
    }

    private static Map<String, Object> config(final String mode) {
        final Map<String, Object> c = new HashMap<>();
        c.put("mode", mode);
        c.put("property", property);
        c.put("dict", dict);
        return c;
    }

    /** One slice of the work: a fresh copy of the code, some cases. */
    private static final class Slice {
        final int id;
        final int count;
        final String locale;
        final AtomicLong progress = new AtomicLong(-1);
        final AtomicReference<Supplier<Object[]>> current = new AtomicReference<>();
        Map<String, Object> result;

        Slice(final int id, final int count, final String locale) {
            this.id = id;
            this.count = count;
            this.locale = locale;
        }

        void run(final AtomicBoolean stop) {
            try {
                if (locale != null) {
                    place(locale);
                }
                final Map<String, Object> c = config("run");
                c.put("seed", seed);
                c.put("worker", id);
                c.put("count", count);
                c.put("stop", stop);
                c.put("progress", progress);
                c.put("current", current);
                result = worker().apply(c);
            } catch (final Throwable t) {
                stop.set(true);
                result = new HashMap<>();
                result.put("error", t.toString() + Arrays.toString(t.getStackTrace()));
            }
        }
    }

    /** A default locale and a default time zone. */
    private static void place(final String both) {
        final int at = both.indexOf(' ');
        Locale.setDefault(Locale.forLanguageTag(both.substring(0, at)));
        TimeZone.setDefault(TimeZone.getTimeZone(both.substring(at + 1)));
    }

    public static void main(final String[] args) throws Exception {
        start = System.nanoTime();
        property = args[0];
        tier = args[1];
        seed = Long.parseLong(args[2]);
        code = new File(args[3]);
        final Path root = Path.of(args[4]);
        replays = root.resolve("replays");
        evidence = root.resolve("evidence");
        dict = Constants.of(code);
        if (property.equals("C36")) {
            place("sv-FI Etc/GMT-5");
        }
        final PrintStream nothing = new PrintStream(OutputStream.nullOutputStream());
        System.setOut(nothing);
        System.setErr(nothing);
        try {
            final Map<String, Object> all = worker().apply(config("describe"));
            if (all.containsKey("error")) {
                error((String) all.get("error"));
            }
            final Object[] p = (Object[]) all.get(property);
            if (p == null) {
                error("no such property: " + property);
            }
            if (args.length > 5) {
                replay(Path.of(args[5]));
            } else {
                run((Integer) p[tier.equals("thorough") ? 1 : 0], (Integer) p[2], (String) p[3]);
            }
        } catch (final Throwable t) {
            error(t.toString() + Arrays.toString(t.getStackTrace()));
        }
    }

    private static void error(final String what) {
        ERR.println("ERROR in the check of " + property + ": " + what);
        ERR.flush();
        Runtime.getRuntime().halt(2);
    }

    private static void finish(final int status) {
        OUT.flush();
        Runtime.getRuntime().halt(status);
    }

    // ------------------------------------------------------------ running

    private static List<Slice> slices(final int count, final int workers) {
        final List<Slice> out = new ArrayList<>();
        if (property.equals("C27")) {
            for (int i = 0; i < LOCALES.size(); i++) {
                out.add(new Slice(i, count / LOCALES.size(), LOCALES.get(i) + ' ' + ZONES.get(i)));
            }
        } else {
            for (int i = 0; i < workers; i++) {
                out.add(new Slice(i, count / workers, null));
            }
        }
        return out;
    }

    private static void run(final int planned, final int workers, final String rule) throws Exception {
        final int count = System.getenv("VERIF_CASES") == null ? planned : Integer.parseInt(System.getenv("VERIF_CASES"));
        final List<Slice> slices = slices(count, workers);
        final AtomicBoolean stop = new AtomicBoolean();
        final List<Thread> threads = new ArrayList<>();
        final List<List<Slice>> lanes = new ArrayList<>();
        if (property.equals("C27")) {
            lanes.add(slices);
        } else {
            slices.forEach(s -> lanes.add(List.of(s)));
        }
        for (final List<Slice> lane : lanes) {
            final Thread t = new Thread(null, () -> {
                for (final Slice s : lane) {
                    if (!stop.get()) {
                        s.run(stop);
                    }
                }
            }, "lane", 16L << 20);
            t.setDaemon(true);
            threads.add(t);
            t.start();
        }
        // a budget hit is no verdict: the run just stops early
        final int budget = tier.equals("thorough") ? 7200 : 600;
        final long[] last = new long[slices.size()];
        final int[] still = new int[slices.size()];
        for (int tick = 0; threads.stream().anyMatch(Thread::isAlive); tick++) {
            for (final Thread t : threads) {
                if (t.isAlive()) {
                    t.join(1000);
                    break;
                }
            }
            if (tick > budget) {
                stop.set(true);
            }
            for (int i = 0; i < slices.size(); i++) {
                final Slice s = slices.get(i);
                final Supplier<Object[]> c = s.current.get();
                if (s.result == null && c != null && s.progress.get() == last[i]) {
                    if (++still[i] > HANG_SECONDS) {
                        final Object[] k = c.get();
                        violation(s, (int) s.progress.get(), (int[]) k[0], k[1] + "\nthis has not finished after " + HANG_SECONDS + " s", false, count, rule, slices);
                    }
                } else {
                    still[i] = 0;
                    last[i] = s.progress.get();
                }
            }
        }
        for (final Slice s : slices) {
            if (s.result != null && s.result.containsKey("error")) {
                error((String) s.result.get("error"));
            }
        }
        for (final Slice s : slices) {
            if (s.result != null && s.result.containsKey("report")) {
                violation(s, (Integer) s.result.get("index"), (int[]) s.result.get("choices"), (String) s.result.get("report"), s.result.containsKey("sequence"), count, rule, slices);
            }
        }
        final String summary = writeEvidence(slices, rule, 0);
        OUT.println(property + " held: " + summary);
        finish(0);
    }

    private static void violation(final Slice s, final int index, final int[] choices, final String report, final boolean sequence, final int count, final String rule, final List<Slice> slices)
            throws IOException {
        Files.createDirectories(replays);
        final Path file = replays.resolve(property + "-" + seed + ".txt");
        final StringBuilder b = new StringBuilder();
        b.append("property ").append(property).append('\n');
        b.append("kind ").append(sequence ? "sequence" : "choices").append('\n');
        b.append("seed ").append(seed).append('\n');
        b.append("worker ").append(s.id).append('\n');
        b.append("index ").append(index).append('\n');
        if (s.locale != null) {
            b.append("locale ").append(s.locale).append('\n');
        }
        b.append("choices");
        for (final int c : choices) {
            b.append(' ').append(c);
        }
        b.append("\n\n").append(report).append('\n');
        Files.writeString(file, b.toString());
        writeEvidence(slices, rule, 1);
        OUT.println(report.length() > 6000 ? report.substring(0, 6000) + "..." : report);
        if (sequence) {
            OUT.println("(depends on the cases before it: the replay runs worker " + s.id + " up to case " + index + ")");
        }
        OUT.println("VIOLATION property=" + property + " replay=" + file);
        finish(1);
    }

    @SuppressWarnings("unchecked")
    private static String writeEvidence(final List<Slice> slices, final String rule, final int violations) throws IOException {
        long cases = 0;
        long executions = 0;
        long nontrivial = 0;
        final Map<String, Long> labels = new TreeMap<>();
        final List<String> samples = new ArrayList<>();
        int n = 0;
        for (final Slice s : slices) {
            if (s.result == null || !s.result.containsKey("cases")) {
                continue;
            }
            cases += (Long) s.result.get("cases");
            executions += (Long) s.result.get("executions");
            nontrivial += (Long) s.result.get("nontrivial");
            n += ((long[]) s.result.get("distinct")).length;
            ((Map<String, Long>) s.result.get("labels")).forEach((k, v) -> labels.merge(k, v, Long::sum));
            for (final String t : (List<String>) s.result.get("samples")) {
                if (samples.size() < 10) {
                    samples.add(t);
                }
            }
        }
        final long[] all = new long[n];
        int at = 0;
        for (final Slice s : slices) {
            if (s.result != null && s.result.containsKey("distinct")) {
                final long[] d = (long[]) s.result.get("distinct");
                System.arraycopy(d, 0, all, at, d.length);
                at += d.length;
            }
        }
        final long distinct = Arrays.stream(all).sorted().distinct().count();
        final double wall = (System.nanoTime() - start) / 1e9;
        final Map<String, Object> coverage = new LinkedHashMap<>();
        coverage.put("evaluations", cases);
        coverage.put("distinct_nontrivial", distinct);
        coverage.put("calls_into_the_code", executions);
        coverage.put("nontrivial_with_repeats", nontrivial);
        coverage.put("rule", rule);
        coverage.put("samples", samples);
        coverage.put("classes", labels);
        coverage.put("dictionary_constants", dict.size());
        final Map<String, Object> e = new LinkedHashMap<>();
        e.put("property", property);
        e.put("tier", tier);
        e.put("seed", seed);
        e.put("level", "exploration");
        e.put("coverage", coverage);
        e.put("assumptions", List.of("the reference model in /verif/harness states what the documentation and grammar mean", "generated cases only: no claim about inputs not generated"));
        e.put("wall_s", Math.round(wall * 100) / 100.0);
        e.put("violations", violations);
        Files.createDirectories(evidence);
        final StringBuilder b = new StringBuilder();
        json(b, e);
        Files.writeString(evidence.resolve(property + ".json"), b.append('\n').toString());
        return cases + " cases, " + distinct + " distinct non-trivial, " + executions + " calls, " + Math.round(wall * 10) / 10.0 + " s";
    }

    private static void json(final StringBuilder b, final Object v) {
        if (v instanceof Map<?, ?> m) {
            b.append('{');
            String sep = "";
            for (final Map.Entry<?, ?> e : m.entrySet()) {
                b.append(sep).append('\n');
                json(b, e.getKey().toString());
                b.append(": ");
                json(b, e.getValue());
                sep = ",";
            }
            b.append('}');
        } else if (v instanceof List<?> l) {
            b.append('[');
            String sep = "";
            for (final Object o : l) {
                b.append(sep).append('\n');
                json(b, o);
                sep = ",";
            }
            b.append(']');
        } else if (v instanceof String s) {
            b.append('"');
            for (int i = 0; i < s.length(); i++) {
                final char c = s.charAt(i);
                if (c == '"' || c == '\\') {
                    b.append('\\').append(c);
                } else if (c < 32 || c > 126) {
                    b.append(String.format(Locale.ROOT, "\\u%04x", (int) c));
                } else {
                    b.append(c);
                }
            }
            b.append('"');
        } else {
            b.append(v);
        }
    }

    // ------------------------------------------------------------ replay

    private static void replay(final Path file) throws Exception {
        final Map<String, String> h = new HashMap<>();
        for (final String line : Files.readAllLines(file, StandardCharsets.UTF_8)) {
            if (line.isEmpty()) {
                break;
            }
            final int sp = line.indexOf(' ');
            h.put(sp < 0 ? line : line.substring(0, sp), sp < 0 ? "" : line.substring(sp + 1));
        }
        if (h.containsKey("locale")) {
            place(h.get("locale"));
        }
        final Map<String, Object> r;
        final Object[] box = new Object[1];
        final Thread t = new Thread(null, () -> {
            try {
                if (h.get("kind").equals("sequence")) {
                    final Map<String, Object> c = config("run");
                    c.put("seed", Long.parseLong(h.get("seed")));
                    c.put("worker", Integer.parseInt(h.get("worker")));
                    c.put("count", Integer.parseInt(h.get("index")) + 1);
                    c.put("stop", new AtomicBoolean());
                    c.put("progress", new AtomicLong());
                    c.put("current", new AtomicReference<Supplier<Object[]>>());
                    box[0] = worker().apply(c);
                } else {
                    final Map<String, Object> c = config("replay");
                    c.put("choices", h.get("choices").isBlank() ? new int[0] : Arrays.stream(h.get("choices").trim().split(" ")).mapToInt(Integer::parseInt).toArray());
                    box[0] = worker().apply(c);
                }
            } catch (final Throwable e) {
                box[0] = Map.of("error", e.toString());
            }
        }, "replay", 16L << 20);
        t.setDaemon(true);
        t.start();
        t.join(HANG_SECONDS * 1000L);
        if (t.isAlive()) {
            OUT.println("the replayed case has not finished after " + HANG_SECONDS + " s");
            OUT.println("VIOLATION property=" + property + " replay=" + file);
            finish(1);
        }
        @SuppressWarnings("unchecked")
        final Map<String, Object> m = (Map<String, Object>) box[0];
        r = m;
        if (r.containsKey("error")) {
            error((String) r.get("error"));
        }
        if (r.containsKey("report")) {
            OUT.println(r.get("report"));
            OUT.println("VIOLATION property=" + property + " replay=" + file);
            finish(1);
        }
        OUT.println(property + ": the replayed case holds");
        finish(0);
    }
}
