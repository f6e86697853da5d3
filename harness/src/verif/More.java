package verif;

import static verif.Props.reg;

import com.github.sidhant92.boolparser.application.ArithmeticExpressionEvaluator;
import com.github.sidhant92.boolparser.application.BooleanExpressionEvaluator;
import com.github.sidhant92.boolparser.domain.logical.Node;
import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import com.github.sidhant92.boolparser.parser.antlr.CachedBoolParser;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collection;
import java.util.Collections;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Locale;
import java.util.Map;
import java.util.Set;
import java.util.TimeZone;

/** Properties over histories, texts, configurations and rewritings. */
final class More {
    private More() {
    }

    static void register() {
        cache();
        totality();
        malformed();
        purity();
        lexical();
        literals();
        mismatches();
        concatenation();
        substitution();
        configurations();
        Concurrent.register();
        Extra.register();
        Usage.register();
        Nodes.register();
        Trees.register();
        Laws.register();
    }

    static RNode treeOf(final Out o) {
        return Impl.canonical(Impl.tree((Node) o.value()));
    }

    // ------------------------------------------------------------ cache

    private record Entry(String text, String df) {
    }

    /** The text with one character changed, doubled, dropped, exchanged with the next, or in another case. */
    private static String neighbour(final Source s, final String t) {
        final int n = t.length();
        if (n == 0) {
            return " ";
        }
        final int i = s.draw(n);
        final char x = t.charAt(i);
        return switch (s.draw(8)) {
            case 0 -> t.substring(0, i) + x + t.substring(i);
            case 1 -> t.substring(0, i) + t.substring(i + 1);
            case 2 -> t.substring(0, i) + " " + t.substring(i);
            case 3 -> t.substring(0, i) + (Character.isUpperCase(x) ? Character.toLowerCase(x) : Character.toUpperCase(x)) + t.substring(i + 1);
            case 4 -> i + 1 < n ? t.substring(0, i) + t.charAt(i + 1) + x + t.substring(i + 2) : t + " ";
            case 5 -> t.substring(0, i) + (x == '\'' ? '"' : x == ' ' ? '\t' : (char) (x + 1)) + t.substring(i + 1);
            case 6 -> t.replace('\'', '"');
            default -> t.replace(" ", s.of("", "  ", "\n"));
        };
    }

    private static void cache() {
        reg("C17", 26000, 120_000, "a history of 5 to 80 parses and evaluations through one or two CachedBoolParsers (size 0 to 100) and long-lived evaluators over a pool of near-identical texts (default fields, "
                + "concatenation and hash collisions, case, quotes, malformed), each compared with a fresh BoolParser; non-trivial: an entry is used again", c -> {
            final Source s = c.s;
            final World w = new World(s);
            w.nested = 10;
            final Gen g = new Gen(w);
            final List<Entry> pool = new ArrayList<>();
            final String f1 = w.bind(s.range(0, 10));
            final String f2 = w.bind(s.range(0, 10));
            final String b1 = w.bind(s.coin());
            final List<String> dfs = new ArrayList<>(Arrays.asList(null, f1, f2, "", b1, f1 + f2));
            if (s.chance(20)) {
                // names that something might use to say that there is no default field
                final String n = s.of("x", "X", "null", "none", "default", "_", "a", "field", "value", "key", "defaultField", Dict.string(s));
                if (n != null && n.matches("[A-Za-z_]+") && !RefParser.KEYWORDS.contains(n.toUpperCase(Locale.ROOT))) {
                    w.bound.putIfAbsent(n, s.range(0, 10));
                    dfs.add(n);
                    final String t = s.of(">", "=", "<", "!=", ">=", "<=") + " " + s.range(0, 10);
                    pool.add(new Entry(t, n));
                    pool.add(new Entry(t, null));
                    pool.add(new Entry(t, ""));
                }
            }
            for (int i = s.range(1, 4); i > 0; i--) {
                pool.add(new Entry(Printer.print(s.chance(60) ? g.bool(2) : g.numeric(2), Printer.any(s)), null));
            }
            for (int i = s.range(1, 5); i > 0; i--) {
                final String t = s.of(">", "=", "<", "!=", ">=", "<=") + s.of(" ", "") + s.range(0, 10);
                pool.add(new Entry(t, s.of(dfs)));
                pool.add(new Entry(t, s.of(dfs)));
                if (s.chance(40)) {
                    pool.add(new Entry(f1 + " " + t, null));
                    pool.add(new Entry(" " + t, f1));
                    pool.add(new Entry("" + t, f1 + " "));
                }
            }
            if (s.chance(40)) {
                // texts and default fields that run together to the same characters
                pool.add(new Entry(b1 + " AND " + f1 + " = ", f2));
                pool.add(new Entry(b1 + " AND " + f1 + " = " + f2, null));
                pool.add(new Entry(f1 + " = " + f2, b1 + " AND "));
                pool.add(new Entry("1 < ", f1));
                pool.add(new Entry("1 < " + f1, ""));
                pool.add(new Entry("1", "< " + f1));
            }
            if (s.chance(40)) {
                // equal hash codes
                w.bound.putIfAbsent("AaAa", 1);
                w.bound.putIfAbsent("BBBB", 2);
                w.bound.putIfAbsent("AaBB", 3);
                final String t = " > " + s.range(0, 3);
                pool.add(new Entry("AaAa" + t, null));
                pool.add(new Entry("BBBB" + t, null));
                pool.add(new Entry("AaBB" + t, null));
                pool.add(new Entry(t, "AaAa"));
                pool.add(new Entry(t, "BBBB"));
                // the same in long texts, at either end
                final String fill = (" OR " + f1 + " = 11").repeat(s.range(4, 60));
                final String end = s.coin() ? "" : fill;
                for (final String k : List.of("AaAa", "BBBB", "AaBB")) {
                    pool.add(new Entry(b1 + " = true" + fill + " OR " + k + t + end, null));
                    pool.add(new Entry(k + t + fill, null));
                }
            }
            if (s.chance(50)) {
                final String t = g.v.word(3);
                final String name = w.bind(t);
                final String between = name + " = '" + t + s.of(" ", "  ", "\t", "\n", "--", ",") + t + "'";
                pool.add(new Entry(between, null));
                pool.add(new Entry(neighbour(s, between), null));
                w.bind(name + "b", t + s.of(" ", "  ", "\t", "\n", "--", ",") + t);
                for (final String b : List.of(" ", "  ", "\t", "\n")) {
                    pool.add(new Entry(name + "b = '" + t + b + t + "'", null));
                }
                pool.add(new Entry(name + " = '" + t + "'", null));
                pool.add(new Entry(name + " = '" + t.toLowerCase(Locale.ROOT) + "'", null));
                pool.add(new Entry(name + " = '" + t.toUpperCase(Locale.ROOT) + "'", null));
                pool.add(new Entry(name.toUpperCase(Locale.ROOT) + " = '" + t + "'", null));
                pool.add(new Entry(name + " = '" + t + " '", null));
                pool.add(new Entry(name + " = ' " + t + "'", null));
                pool.add(new Entry(name + " =  '" + t + "'", null));
            }
            if (s.chance(12)) {
                // long texts that differ only somewhere in the middle
                final StringBuilder pre = new StringBuilder("(" + b1);
                final StringBuilder post = new StringBuilder();
                for (int i = s.range(10, 120); i > 0; i--) {
                    (s.coin() ? pre : post).append(s.chance(90) ? " OR " : " AND ").append(s.of(b1, f1 + " = 3", f2 + " > 4", b1));
                }
                for (int i = s.range(2, 4); i > 0; i--) {
                    pool.add(new Entry(pre + ") AND " + f1 + " > " + s.draw(10) + post, null));
                }
            }
            for (int i = s.draw(3); i > 0; i--) {
                pool.add(new Entry(s.of("(", "a = ", f1 + " >", "AND", "", f1 + " = 1)", "'x", f1 + " IN ()", "((" + f1 + ")"), s.of(dfs)));
            }
            if (s.chance(10)) {
                for (int i = 0; i < 40; i++) {
                    pool.add(new Entry(f1 + " > " + i, null));
                }
            }
            for (int i = s.size(1, 12); i > 0; i--) {
                // texts that differ from another one in next to nothing
                final Entry e = s.of(pool);
                pool.add(s.chance(80) ? new Entry(neighbour(s, e.text), e.df) : new Entry(e.text, e.df == null ? s.of(" ", "a", f1) : neighbour(s, e.df)));
            }
            final Map<String, Object> d1 = w.data();
            final Map<String, Object> d2 = new HashMap<>(d1);
            for (final Map.Entry<String, Object> e : d1.entrySet()) {
                if (s.chance(40) && !(e.getValue() instanceof Map)) {
                    d2.put(e.getKey(), e.getValue() instanceof Boolean b ? (Object) !b : e.getValue() instanceof Integer i ? (Object) (i + 1) : g.v.scalar());
                }
            }
            c.note("data 1: " + Show.value(d1));
            c.note("data 2: " + Show.value(d2));
            final List<CachedBoolParser> parsers = new ArrayList<>();
            final List<BooleanExpressionEvaluator> bools = new ArrayList<>();
            final List<ArithmeticExpressionEvaluator> ariths = new ArrayList<>();
            for (int i = 0; i < (s.chance(30) ? 2 : 1); i++) {
                final boolean large = s.chance(2);
                final int size = large ? s.of(1000, 2000, 5000, 100) : s.of(100, 1, 2, 3, 5, 10, 0, 16);
                c.note("cache size " + size);
                parsers.add(new CachedBoolParser(size));
                if (large) {
                    // a cache that has been in use for long
                    final int n = s.range(50, 1500);
                    final boolean same = s.chance(30);
                    c.note("used before: " + n + (same ? " times for one text" : " texts"));
                    c.label("long_used");
                    for (int k = 0; k < n; k++) {
                        Impl.parse(parsers.get(i), same ? "> 5" : "> " + (100 + k), k % 2 == 0 ? f1 : f2);
                    }
                    c.executions += n;
                }
                bools.add(new BooleanExpressionEvaluator(parsers.get(i)));
                ariths.add(new ArithmeticExpressionEvaluator(parsers.get(i)));
            }
            final Set<Entry> seen = new java.util.HashSet<>();
            for (int i = s.size(5, 80); i > 0; i--) {
                final Entry e = pool.get(s.draw(pool.size()));
                c.nontrivial |= !seen.add(e);
                final int k = s.draw(parsers.size());
                final int what = s.weighted(5, 2, 2);
                final Map<String, Object> d = s.coin() ? d1 : d2;
                c.note("step: " + (what == 0 ? "boolean" : what == 1 ? "arithmetic" : "parse") + " " + Show.text(e.text) + " default " + e.df + (what < 2 ? d == d1 ? " data 1" : " data 2" : "")
                               + (parsers.size() > 1 ? " parser " + k : ""));
                c.executions++;
                switch (what) {
                    case 0 -> {
                        final Out got = Impl.bool(bools.get(k), e.text, d, e.df);
                        final Out want = Impl.bool(e.text, d, e.df);
                        final int m = Checks.reference(e.text, e.df, d);
                        if (got.mask() != want.mask() || m >= 0 && (got.mask() & m) == 0) {
                            throw c.fail("cached: " + got + "\nuncached: " + want + (m < 0 ? "" : "\nexpected: " + Out.mask(m)));
                        }
                    }
                    case 1 -> {
                        final Out got = Impl.arith(ariths.get(k), e.text, d);
                        final Out want = Impl.arith(e.text, d);
                        if (!Checks.same(got, want)) {
                            throw c.fail("cached: " + got + "\nuncached: " + want);
                        }
                    }
                    default -> {
                        final Out got = Impl.parse(parsers.get(k), e.text, e.df);
                        final Out want = Impl.parse(e.text, e.df);
                        if (got.failed() != want.failed() || !got.failed() && !treeOf(got).equals(treeOf(want))) {
                            throw c.fail("cached: " + (got.failed() ? got : treeOf(got)) + "\nuncached: " + (want.failed() ? want : treeOf(want)));
                        }
                    }
                }
            }
        });
    }

    // ------------------------------------------------------------ any text, any data

    static Object weird(final Source s, final Values v) {
        return switch (s.draw(22)) {
            case 0 -> null;
            case 1 -> Double.NaN;
            case 2 -> Double.POSITIVE_INFINITY;
            case 3 -> Float.NaN;
            case 4 -> 'c';
            case 5 -> new Object[] {1, null, "x"};
            case 6 -> Arrays.asList(1, null, "a", 2.5);
            case 7 -> new HashMap<>(Map.of("a", 1));
            case 8 -> new ArrayList<>();
            case 9 -> (short) 3;
            case 10 -> (byte) 3;
            case 11 -> BigInteger.ONE.shiftLeft(100);
            case 12 -> new int[] {1, 2};
            case 13 -> List.of(List.of(1, 2), List.of("a"));
            case 14 -> new java.util.Date(0);
            case 15 -> new StringBuilder("sb");
            case 16 -> Long.MIN_VALUE;
            case 17 -> -0.0d;
            case 18 -> java.time.DayOfWeek.MONDAY;
            case 19 -> Set.of("a");
            case 20 -> java.util.Optional.of(1);
            default -> v.scalar();
        };
    }

    private static final String CHARS = "abzAZ019_. \t\n'\"()=!<>&|+-*/%^,;:\\{}[]#@$~`?\u00e9\u0130\u4e2d\ud83d\ude00\u0000";

    static String garbage(final Source s, final Gen g) {
        switch (s.weighted(3, 4, 5, 2, 3)) {
            case 4 -> {
                // an operator or function applied to fields and nothing else
                final List<String> names = g.w.bound.isEmpty() ? List.of("a") : new ArrayList<>(g.w.bound.keySet());
                final java.util.function.Supplier<String> x = () -> s.chance(80) ? s.of(names) : token(s, g);
                return switch (s.weighted(5, 4, 2, 2, 1, 1, 2)) {
                    case 6 -> {
                        // operands at which loops, casts and negations go wrong
                        final java.util.function.Supplier<String> y = () -> g.w.built() ? s.of(names) : g.w.bind(s.of(-1, 0, 1, 2, -2, 10, Integer.MIN_VALUE, Integer.MAX_VALUE, Long.MIN_VALUE, Long.MAX_VALUE, 9007199254740991L, 1e18, -1e18,
                                                                                                               1e300, new BigDecimal("1e400"), new BigDecimal("-1e-400"), Double.MAX_VALUE, Double.MIN_VALUE, 0.5, -1.0, 1000000007, -999999999999L));
                        yield y.get() + " " + s.of("^", "^", "/", "%", "*", "+", "-") + " " + y.get();
                    }
                    case 0 -> s.of("MIN", "MAX", "AVG", "SUM", "MEAN", "MODE", "MEDIAN", "LEN", "INT", "DAYS_ELAPSED") + " (" + x.get() + (s.chance(25) ? ", " + x.get() : "") + ")";
                    case 1 -> x.get() + " " + s.of("=", "!=", ">", "<", ">=", "<=", "+", "-", "*", "/", "%", "^", "AND", "OR") + " " + x.get();
                    case 2 -> x.get() + " " + s.of("IN", "NOT IN", "CONTAINS_ANY", "CONTAINS_ALL") + " (" + x.get() + (s.coin() ? ", " + x.get() : "") + ")";
                    case 3 -> s.of("-", "NOT ", "") + x.get();
                    case 4 -> x.get() + " 1 TO 5";
                    default -> s.of("- ", "NOT ") + "(" + x.get() + " " + s.of("=", "+", "*") + " " + x.get() + ")";
                };
            }
            case 0 -> {
                final StringBuilder b = new StringBuilder();
                for (int i = s.size(0, 60); i > 0; i--) {
                    b.append(CHARS.charAt(s.draw(CHARS.length())));
                }
                return b.toString();
            }
            case 1 -> {
                final StringBuilder b = new StringBuilder();
                for (int i = s.size(0, 25); i > 0; i--) {
                    b.append(token(s, g)).append(s.of(" ", "", " ", " "));
                }
                return b.toString();
            }
            case 2 -> {
                final String t = Printer.print(s.coin() ? g.bool(2) : g.any(3), Printer.any(s));
                return mutate(s, g, t);
            }
            default -> {
                return Printer.print(s.coin() ? g.bool(3) : g.any(4), Printer.any(s));
            }
        }
    }

    static String token(final Source s, final Gen g) {
        return switch (s.weighted(4, 2, 2, 2, 2)) {
            case 0 -> s.of("AND", "OR", "NOT", "IN", "TO", "&&", "||", "TRUE", "false", "CONTAINS_ANY", "CONTAINS_ALL", "MIN", "MAX", "AVG", "SUM", "MEAN", "MODE", "MEDIAN", "LEN", "INT", "DAYS_ELAPSED",
                           "and", "null", "not");
            case 1 -> s.of("=", "!=", ">", "<", ">=", "<=", "+", "-", "*", "/", "%", "^", "&", "|", "!");
            case 2 -> s.of("(", ")", ",", "(", ")", "[", ";", ".");
            case 3 -> s.of("1", "0", "2.5", "1.2.3", "10.20.30", "2024-01-01", "2024-02-30", "2024-01-01 10:00:00", "99999999999999999999", "2147483648", "007", "1.", ".5", "1e5", "'a'", "\"b\"", "''", "'",
                           "\"", "2024-01-01 25:00:00", "0.0", "1.2.3.");
            default -> g.w.bound.isEmpty() ? "a" : new ArrayList<>(g.w.bound.keySet()).get(s.draw(g.w.bound.size()));
        };
    }

    private static final String[][] SIGNS = {{"'", "\u2018", "\u2019", "\u2032", "`", "\u00b4", "\u201b", "\""}, {"\"", "\u201c", "\u201d", "\u2033", "\u00ab", "\u00bb", "'"}, {"=", "==", "\uff1d", "===", ":=", "\u2261", "=~"},
        {"!=", "\u2260", "<>", "=!", "~=", "!==", "\u00ac="}, {">=", "\u2265", "=>", "\u2a7e"}, {"<=", "\u2264", "=<", "\u2a7d"}, {"<", "\uff1c", "\u2039", "&lt;"}, {">", "\uff1e", "\u203a", "&gt;"}, {"-", "\u2212", "\u2013", "\u2010", "--"},
        {"*", "\u00d7", "\u22c5", "**", "\u2217"}, {"/", "\u00f7", "\u2044", "//", "\u2215"}, {"+", "\uff0b", "++"}, {"(", "\uff08", "[", "{"}, {")", "\uff09", "]", "}"}, {",", "\uff0c", "\u3001", ";", "\u060c"}, {".", "\uff0e", "\u3002", ","},
        {" ", "\u00a0", "\u3000", "\u2003", "\u200b", "\ufeff", "\u0085", "\u000b", "\u001c"}, {"NOT ", "\u00ac", "!", "~"}, {"AND", "\u2227", "&", "&&&", "\uff21\uff2e\uff24"}, {"OR", "\u2228", "|", "|||", "XOR"}, {"IN ", "\u2208 ", "\u0130N "},
        {"^", "\u02c6", "**"}, {"%", "\uff05", "mod"}, {"1", "\uff11", "\u0661", "\u00b9"}, {"0", "\uff10", "\u0660"}, {"TO", "..", "\u2026"}, {"null", "nil", "NULL", "nu11"}, {"&&", "and", "AND"}, {"||", "or", "OR"}};

    static String mutate(final Source s, final Gen g, final String text) {
        String t = text;
        for (int i = s.range(1, 3); i > 0; i--) {
            final int n = t.length();
            final int at = s.draw(n + 1);
            t = switch (s.draw(8)) {
                case 7 -> {
                    // a character that looks like, or elsewhere means, what stands there
                    final List<String> out = new ArrayList<>();
                    for (final String[] group : SIGNS) {
                        for (final String from : group) {
                            final int where = t.indexOf(from, s.draw(n + 1));
                            if (where >= 0) {
                                for (final String to : group) {
                                    if (!to.equals(from)) {
                                        out.add(s.chance(40) ? t.replace(from, to) : t.substring(0, where) + to + t.substring(where + from.length()));
                                    }
                                }
                            }
                        }
                    }
                    yield out.isEmpty() ? t : s.of(out);
                }
                case 6 -> {
                    // what other languages skip
                    final String skipped = s.of("\ufeff", "/* x */", "// x", "# x", "-- x", "/**/", "<!-- x -->", ";", "\u200b", "\u00a0", "\u0000", "\u001a", "\\", "\f", "\u000b", "\r", "\u2028", "...", "?", ":", "$", "`",
                                                "\u3000", "\ud83d\ude00", "\ud800", "@", "{}", "[]", "()", "\\n", "&amp;", "%20", "\u00ad", "\u2003", "/*", "*/", "=", "==", "=>", "<>", "~", "!", "and;", ",", ".");
                    yield switch (s.weighted(3, 3, 2, 3)) {
                        case 0 -> skipped + t;
                        case 1 -> t + (s.coin() ? " " : "") + skipped;
                        case 2 -> t.substring(0, at) + skipped + t.substring(at);
                        default -> {
                            final int blank = t.indexOf(' ', Math.min(at, n));
                            yield blank < 0 ? t + skipped : t.substring(0, blank) + " " + skipped + t.substring(blank);
                        }
                    };
                }
                case 0 -> t.substring(0, at) + token(s, g) + t.substring(at);
                case 1 -> t.substring(0, at) + " " + token(s, g) + " " + t.substring(at);
                case 2 -> t.substring(0, at) + CHARS.charAt(s.draw(CHARS.length())) + t.substring(at);
                case 3 -> at < n ? t.substring(0, at) + t.substring(at + 1) : t;
                case 4 -> {
                    final int to = Math.min(n, at + s.draw(8));
                    yield t.substring(0, at) + t.substring(to);
                }
                default -> t.substring(0, at);
            };
        }
        return t;
    }

    private static void totality() {
        reg("C18", 400000, 3_000_000, "random characters, random tokens, mutated expressions and valid expressions, evaluated by parser, both evaluators and cached parser over data with odd values (null, NaN, nested "
                + "lists, arrays, unsupported classes), with and without default field; non-trivial: the text has at least 3 tokens", c -> {
            final Source s = c.s;
            final World w = new World(s);
            w.mapKinds = 0;
            final Gen g = new Gen(w);
            for (int i = s.draw(4); i > 0; i--) {
                w.bind(weird(s, g.v));
            }
            final String text = s.chance(1) ? null : garbage(s, g);
            final Map<String, Object> data = s.chance(2) ? null : w.data();
            final String df = s.chance(30) ? w.bound.isEmpty() ? "a" : new ArrayList<>(w.bound.keySet()).get(s.draw(w.bound.size())) : s.of(null, null, "", " ", "a.b");
            c.note("text: " + Show.value(text));
            c.note("default: " + df);
            c.note("data: " + Show.value(data));
            if (tooBig(text)) {
                return;
            }
            c.executions += 4;
            final Out p = Impl.parse(text, df);
            if (!p.failed() && !(p.value() instanceof Node)) {
                throw c.fail("parsing gives " + p);
            }
            final Out b = Impl.bool(text, data, df);
            if (!b.failed() && !(b.value() instanceof Boolean)) {
                throw c.fail("boolean evaluation gives " + b);
            }
            Impl.arith(text, data);
            final Out q = Impl.parse(new CachedBoolParser(10), text, df);
            if (p.failed() != q.failed()) {
                throw c.fail("BoolParser: " + p + "\nCachedBoolParser: " + q);
            }
            if (p.failed() && !b.failed()) {
                throw c.fail("the text does not parse (" + p + ") but evaluates to " + b);
            }
            c.label(p.failed() ? "parse_failure" : b.failed() ? "evaluation_failure" : "value");
            try {
                c.nontrivial = text != null && RefParser.lex(text).size() >= 3;
            } catch (final RefParser.Reject ex) {
                c.nontrivial = text.length() >= 3;
            }
        });
    }

    /** Nesting beyond what a default thread stack is known to hold is outside the property. */
    private static boolean tooBig(final String text) {
        if (text == null) {
            return false;
        }
        int depth = 0;
        for (int i = 0; i < text.length(); i++) {
            if (text.charAt(i) == '(') {
                depth++;
            }
        }
        return depth > 40 || text.length() > 20_000;
    }

    private static void malformed() {
        reg("C19", 400000, 3_000_000, "a valid expression with 1 to 3 token or character edits, or a random token sequence, with or without default field; the reference grammar says whether it is valid; "
                + "non-trivial: the reference rejects it and it has at least 3 tokens", c -> {
            final Source s = c.s;
            final World w = new World(s);
            w.mapKinds = 0;
            w.nested = 5;
            final Gen g = new Gen(w);
            final String text;
            if (s.chance(75)) {
                text = mutate(s, g, Printer.print(s.coin() ? g.bool(2) : g.any(s.range(1, 3)), Printer.any(s)));
            } else {
                text = garbage(s, g);
            }
            final String df = s.chance(20) ? s.of("a", "x.y", "") : null;
            if (tooBig(text)) {
                return;
            }
            c.note("text: " + Show.text(text));
            c.note("default: " + df);
            boolean rejected = false;
            String why = "";
            try {
                RefParser.parse(text, df);
            } catch (final RefParser.Reject ex) {
                rejected = true;
                why = ex.getMessage();
            } catch (final RefParser.Unspecified ex) {
                c.label("unspecified");
                return;
            }
            c.executions++;
            final Out p = Impl.parse(s.chance(20) ? new CachedBoolParser(5) : new BoolParser(), text, df);
            if (rejected != p.failed()) {
                throw c.fail(rejected ? "not a valid expression (" + why + ") but parsed as " + Impl.tree((Node) p.value()) : "a valid expression, but parsing fails: " + p);
            }
            if (rejected) {
                c.executions += 2;
                final Out b = Impl.bool(text, w.data(), df);
                if (!b.failed()) {
                    throw c.fail("not a valid expression (" + why + ") but evaluates to " + b);
                }
                if (df == null) {
                    final Out a = Impl.arith(text, w.data());
                    if (!a.failed()) {
                        throw c.fail("not a valid expression (" + why + ") but evaluates to " + a);
                    }
                }
                try {
                    c.nontrivial = RefParser.lex(text).size() >= 3;
                } catch (final RefParser.Reject ex) {
                    c.nontrivial = text.length() >= 5;
                }
            }
            c.label(rejected ? "invalid" : "valid");
        });
    }

    // ------------------------------------------------------------ purity

    @SuppressWarnings("unchecked")
    static Object copy(final Object x, final boolean frozen) {
        if (x instanceof Map<?, ?> m) {
            final Map<String, Object> out = new LinkedHashMap<>();
            ((Map<String, Object>) m).forEach((k, v) -> out.put(k, copy(v, frozen)));
            return frozen ? Collections.unmodifiableMap(out) : out;
        }
        if (x instanceof Set<?> l) {
            final Set<Object> out = new LinkedHashSet<>();
            l.forEach(v -> out.add(copy(v, frozen)));
            return frozen ? Collections.unmodifiableSet(out) : out;
        }
        if (x instanceof Collection<?> l) {
            final List<Object> out = new ArrayList<>();
            l.forEach(v -> out.add(copy(v, frozen)));
            return frozen ? Collections.unmodifiableList(out) : out;
        }
        return x instanceof Object[] a ? a.clone() : x;
    }

    /** Changes one entry of the data, somewhere. */
    @SuppressWarnings("unchecked")
    static void change(final Source s, final Gen g, final Map<String, Object> m) {
        if (m.isEmpty()) {
            m.put("a", g.scalar());
            return;
        }
        final String k = new ArrayList<>(m.keySet()).get(s.draw(m.size()));
        final Object v = m.get(k);
        if (v instanceof Map && s.chance(80)) {
            change(s, g, (Map<String, Object>) v);
        } else if (v instanceof Collection && s.chance(80)) {
            final List<Object> l = new ArrayList<>((Collection<Object>) v);
            if (l.isEmpty() || s.chance(20)) {
                l.add(s.draw(l.size() + 1), l.isEmpty() ? g.v.scalar() : g.near(s.of(l)));
            } else if (s.chance(20)) {
                l.remove(s.draw(l.size()));
            } else if (s.chance(20)) {
                Collections.reverse(l);
            } else {
                final int i = s.draw(l.size());
                l.set(i, g.near(l.get(i)));
            }
            ((Collection<Object>) v).clear();
            ((Collection<Object>) v).addAll(l);
        } else if (v instanceof Object[] a && a.length > 0 && s.chance(80)) {
            final int i = s.draw(a.length);
            a[i] = g.near(a[i]);
        } else {
            switch (s.weighted(6, 3, 1, 1)) {
                case 0 -> m.put(k, v instanceof Collection || v instanceof Map || v instanceof Object[] || v == null ? g.v.scalar() : value(g.near(v)));
                case 1 -> m.put(k, g.v.scalar());
                case 2 -> m.put(k, null);
                default -> m.remove(k);
            }
        }
    }

    private static Object value(final Object x) {
        return x instanceof RVersion r ? r.text() : x;
    }

    @SuppressWarnings("unchecked")
    private static void purity() {
        reg("C20", 35000, 160_000, "a history of 3 to 40 evaluations of boolean and arithmetic expressions on one pair of evaluators and one data map (mutable, or deeply unmodifiable) whose entries the caller changes "
                + "now and then, in place or in a copy, each compared with a fresh evaluator on fresh data; data and syntax trees are compared before and after; non-trivial: at least 3 successful evaluations", c -> {
            final Source s = c.s;
            final World w = new World(s);
            final Gen g = new Gen(w);
            g.fields = 70;
            g.missing = 2;
            final List<String> texts = new ArrayList<>();
            final int exprs = s.range(1, 8);
            for (int i = 0; i < exprs; i++) {
                texts.add(Printer.print(switch (s.weighted(4, 3, 3, 2, 2, 2)) {
                    case 5 -> g.function(2);
                    case 0 -> g.bool(2);
                    case 1 -> g.numeric(2);
                    case 2 -> {
                        final List<RNode> items = new ArrayList<>();
                        for (int k = s.range(1, 3); k > 0; k--) {
                            items.add(w.field(g.container(g.numbers(g.listSize(1, 30)))));
                        }
                        yield new RNode.Fn(s.of("MIN", "MAX", "SUM", "AVG", "MEAN", "MEDIAN", "MODE", "LEN"), items);
                    }
                    case 3 -> g.contains();
                    default -> g.in();
                }, Printer.any(s)));
            }
            Map<String, Object> pristine = (Map<String, Object>) copy(w.data(), false);
            final boolean frozen = s.coin();
            @SuppressWarnings("unchecked")
            Map<String, Object> data = (Map<String, Object>) (frozen ? copy(pristine, true) : s.coin() ? copy(pristine, false) : w.data());
            final int changes = s.of(0, 10, 30, 60);
            String before = Show.value(data);
            c.note("data" + (frozen ? " (unmodifiable): " : ": ") + before);
            final BoolExpressionParser parser = s.coin() ? new BoolParser() : new CachedBoolParser(50);
            final BooleanExpressionEvaluator be = new BooleanExpressionEvaluator(parser);
            final ArithmeticExpressionEvaluator ae = new ArithmeticExpressionEvaluator(parser);
            int ok = 0;
            if (s.chance(2)) {
                // one evaluation, many times over
                final String t = s.chance(40) ? s.of("zz > 1", "zz", "MIN (zz)", "a + ", "-'x'", "1 / 0", "true > 1", "'a' * 2", "true <= false", "1.2.3 > true", "MIN ('x')", "'a' - 1", "a CONTAINS_ANY (1)", "INT ('x')", "NOT zz", "zz IN (1)", "zz + 1") : s.of(texts);
                final boolean arith = s.coin();
                final int n = s.of(150, 300, 1100, 3000, 6000);
                c.note("before: " + (arith ? "arithmetic " : "boolean ") + Show.text(t) + ", " + n + " times");
                c.label("long_used");
                c.executions += n;
                for (int i = 0; i < n; i++) {
                    if (arith) {
                        Impl.arith(ae, t, data);
                    } else {
                        Impl.bool(be, t, data, null);
                    }
                }
            }
            for (int i = s.size(3, 40); i > 0; i--) {
                if (s.chance(changes)) {
                    final Map<String, Object> next = (Map<String, Object>) (frozen || s.coin() ? copy(data, false) : data);
                    try {
                        change(s, g, next);
                    } catch (final UnsupportedOperationException | ClassCastException | NullPointerException | ArrayStoreException ex) {
                        c.label("not_changeable");
                    }
                    c.note(next == data ? "changed in place: " + Show.value(next) : "another map: " + Show.value(next));
                    data = (Map<String, Object>) (frozen ? copy(next, true) : next);
                    pristine = (Map<String, Object>) copy(data, false);
                    before = Show.value(data);
                    c.label("changed");
                }
                final String t = s.of(texts);
                final boolean arith = s.coin();
                c.note("step: " + (arith ? "arithmetic " : "boolean ") + Show.text(t));
                c.executions++;
                final Out node = Impl.parse(parser, t, null);
                final RNode shape = node.failed() ? null : Impl.tree((Node) node.value());
                @SuppressWarnings("unchecked")
                final Map<String, Object> fresh = (Map<String, Object>) copy(pristine, false);
                final Out got = arith ? Impl.arith(ae, t, data) : Impl.bool(be, t, data, null);
                final Out want = arith ? Impl.arith(t, fresh) : Impl.bool(t, fresh, null);
                if (!Checks.same(got, want)) {
                    throw c.fail("on used evaluators" + (frozen ? " and unmodifiable data" : "") + ": " + got + "\non fresh ones: " + want);
                }
                // what is left behind in the library itself shows on fresh evaluators, too
                if (arith) {
                    final RefEval.Val ref = Checks.referenceArith(t, pristine);
                    final String why = Checks.mismatch(ref, got);
                    if (why != null) {
                        throw c.fail("on used evaluators and fresh ones: " + got + "\nexpected: " + ref + why);
                    }
                } else {
                    final int m = Checks.reference(t, null, pristine);
                    if (m >= 0 && (got.mask() & m) == 0) {
                        throw c.fail("on used evaluators and fresh ones: " + got + "\nexpected: " + Out.mask(m));
                    }
                }
                if (!got.failed()) {
                    ok++;
                }
                if (!Show.value(data).equals(before)) {
                    throw c.fail("the data became " + Show.value(data));
                }
                if (shape != null && !Impl.tree((Node) node.value()).equals(shape)) {
                    throw c.fail("the syntax tree became " + Impl.tree((Node) node.value()) + "\nfrom " + shape);
                }
            }
            c.nontrivial = ok >= 3;
            c.label(frozen ? "unmodifiable" : "mutable");
        });
    }

    // ------------------------------------------------------------ spelling

    private static void lexical() {
        reg("C22", 140000, 800_000, "an expression in plain spelling and in another one (white space of every kind or none, keywords in any case, && and ||, redundant parentheses, other quotes): same tree, same "
                + "boolean and arithmetic outcome; non-trivial: the two texts differ", c -> {
            final Source s = c.s;
            final World w = new World(s);
            final Gen g = new Gen(w);
            final RNode n = switch (s.weighted(5, 3, 3)) {
                case 0 -> g.bool(3);
                case 1 -> g.numeric(3);
                default -> g.any(3);
            };
            final String plain = Printer.print(n, Printer.plain(s));
            final Printer p = new Printer(s);
            p.keywordCase = s.draw(3);
            p.symbols = s.coin();
            p.space = s.of(1, 2, 0);
            p.redundant = s.of(0, 15, 40);
            p.quote = s.draw(3);
            final String other = Printer.print(n, p);
            c.note("data: " + w.show());
            c.note("plain: " + Show.text(plain));
            c.note("other: " + Show.text(other));
            final String df = s.chance(25) ? w.bound.isEmpty() || s.coin() ? "a" : s.of(new ArrayList<>(w.bound.keySet())) : null;
            c.note("default: " + df);
            c.executions += 6;
            final Out a = Impl.parse(plain, df);
            final Out b = Impl.parse(other, df);
            if (a.failed() != b.failed() || !a.failed() && !treeOf(a).equals(treeOf(b))) {
                throw c.fail("read as\n  " + (a.failed() ? a : treeOf(a)) + "\nand as\n  " + (b.failed() ? b : treeOf(b)));
            }
            final Out x = Impl.bool(plain, w.data(), df);
            final Out y = Impl.bool(other, w.data(), df);
            if (x.mask() != y.mask()) {
                throw c.fail("evaluates to " + x + " and to " + y);
            }
            final Out k = Impl.arith(plain, w.data());
            final Out l = Impl.arith(other, w.data());
            if (!Checks.same(k, l)) {
                throw c.fail("evaluates to " + k + " and to " + l);
            }
            c.nontrivial = !plain.equals(other);
            c.label(x.failed() && k.failed() ? "failing" : "evaluating");
        });
    }

    private static void literals() {
        reg("C23", 300000, 2_000_000, "one literal of every kind (whole numbers around the int and long limits and with leading zeros, decimals of up to 60 digits, booleans in any case, versions, dates and date-times "
                + "valid or not, text with any characters in either quotes), alone, in parentheses, as an operand and in a list; non-trivial: every case", c -> {
            final Source s = c.s;
            final World w = new World(s);
            final Values v = new Values(s);
            final String text;
            final Object want;
            switch (s.weighted(6, 4, 1, 3, 4, 6)) {
                case 0 -> {
                    final BigInteger n = s.chance(15) ? v.whole().abs().multiply(BigInteger.valueOf(s.range(1, 1000))) : s.chance(20) ? BigInteger.ONE.shiftLeft(63).add(BigInteger.valueOf(s.range(-3, 3)))
                            : v.whole().abs();
                    text = (s.chance(10) ? "000".substring(s.draw(3)) : "") + n;
                    want = n.bitLength() <= 31 ? (Object) n.intValueExact() : n.bitLength() <= 63 ? (Object) n.longValueExact() : null;
                    c.label("whole");
                }
                case 1 -> {
                    final StringBuilder b = new StringBuilder();
                    for (int i = s.size(1, 30); i > 0; i--) {
                        b.append(s.draw(10));
                    }
                    b.append('.');
                    for (int i = s.size(1, 30); i > 0; i--) {
                        b.append(s.draw(10));
                    }
                    text = b.toString();
                    want = new BigDecimal(text);
                    c.label("decimal");
                }
                case 2 -> {
                    final boolean b = s.coin();
                    final Printer p = new Printer(s);
                    p.keywordCase = s.draw(3);
                    text = p.keyword(b ? "TRUE" : "FALSE");
                    want = b;
                    c.label("boolean");
                }
                case 3 -> {
                    text = v.version(3);
                    want = new RVersion(text);
                    c.label("version");
                }
                case 4 -> {
                    final LocalDate d = v.date();
                    String t = d.toString();
                    final boolean time = s.coin();
                    if (s.chance(20)) {
                        t = String.format("%04d-%02d-%02d", d.getYear(), s.range(0, 14), s.range(0, 33));
                    }
                    if (time) {
                        t += s.chance(85) ? String.format(" %02d:%02d:%02d", s.range(0, 23), s.range(0, 59), s.range(0, 59)) : String.format(" %02d:%02d:%02d", s.range(0, 26), s.range(0, 62), s.range(0, 62));
                    }
                    text = t;
                    want = time ? RefEval.parseDateTime(t) : RefEval.parseDate(t);
                    c.label(want == null ? "no_such_date" : "date");
                }
                default -> {
                    final String t = v.string();
                    if (!Values.quotable(t)) {
                        want = t.replace("'", "");
                        text = "'" + want + "'";
                    } else {
                        want = t;
                        text = t.indexOf('\'') >= 0 || t.indexOf('"') < 0 && s.coin() ? '"' + t + '"' : "'" + t + "'";
                    }
                    c.label("text");
                }
            }
            c.nontrivial = true;
            final Map<String, Object> data = new HashMap<>();
            data.put("f", 1);
            for (final String t : List.of(text, "(" + text + ")", " " + text + "\n")) {
                c.note("expression: " + Show.text(t));
                c.executions++;
                same(c, t, want, Impl.arith(t, data));
            }
            // the operand of a comparison and the items of lists
            final String[] places = {"f = " + text, text + " != f", "f IN (" + text + ", 1)", "f CONTAINS_ANY (" + text + ")", "SUM(" + text + ", 2)"};
            final String place = s.of(places);
            c.note("expression: " + Show.text(place));
            c.executions++;
            final Out p = Impl.parse(place, null);
            if (p.failed() != (want == null)) {
                throw c.fail("parsing " + Show.text(place) + " gives " + p);
            }
            if (want != null) {
                final RNode n = Impl.tree((Node) p.value());
                final RNode l = switch (n) {
                    case RNode.Cmp x -> x.op().equals("=") ? x.r() : x.l();
                    case RNode.In x -> x.items().get(0);
                    case RNode.Arr x -> x.items().get(0);
                    case RNode.Fn x -> x.items().get(0);
                    default -> n;
                };
                if (!(l instanceof RNode.Lit x) || !kindOf(want).equals(x.kind()) || !x.value().equals(want)) {
                    throw c.fail("in " + Show.text(place) + " the literal is read as " + l + "\n  expected " + Show.value(want));
                }
                if (place.startsWith("f = ") && !Impl.comparisonType((Node) p.value()).equals(kindOf(want))) {
                    throw c.fail("in " + Show.text(place) + " the comparison is said to be of type " + Impl.comparisonType((Node) p.value()) + "\n  expected " + kindOf(want));
                }
            }
        });
    }

    private static String kindOf(final Object v) {
        return Gen.lit(v).kind();
    }

    private static void same(final Ctx c, final String t, final Object want, final Out o) {
        if (want == null) {
            if (!o.failed()) {
                throw c.fail("the literal " + Show.text(t) + " is out of range or does not exist, but evaluates to " + o);
            }
            return;
        }
        final boolean ok = !o.failed() && (want instanceof RVersion r ? o.value().toString().equals(r.text()) && !(o.value() instanceof String) : o.value().getClass() == want.getClass() && o.value().equals(want));
        if (!ok) {
            throw c.fail("the literal " + Show.text(t) + " evaluates to " + o + "\n  expected " + Show.value(want) + " (" + want.getClass().getSimpleName() + ")");
        }
    }

    // ------------------------------------------------------------ mismatches

    private static void mismatches() {
        reg("C24", 200000, 1_200_000, "operators, functions and boolean positions applied to values of types they are not for: ordering of unrelated types or booleans, arithmetic on text lists or dates, aggregates of "
                + "non-numbers, CONTAINS on scalars, non-booleans under AND OR NOT; non-trivial: the reference demands a failure or a definite answer", c -> {
            final Source s = c.s;
            final World w = new World(s);
            final Gen g = new Gen(w);
            final Object x = odd(g);
            final Object y = odd(g);
            final RNode a = Gen.literal(x) || x instanceof RVersion ? g.leaf(x) : w.field(x);
            final RNode b = Gen.literal(y) || y instanceof RVersion ? g.leaf(y) : w.field(y);
            final RNode n;
            boolean arith = false;
            switch (s.weighted(6, 4, 3, 2, 3)) {
                case 0 -> n = new RNode.Cmp(s.of(Gen.CMP), a, b);
                case 1 -> {
                    n = s.chance(15) ? new RNode.Neg(a) : new RNode.Arith(s.of("-", "*", "/", "%", "^"), a, b);
                    arith = s.coin();
                }
                case 2 -> {
                    final List<RNode> items = new ArrayList<>(List.of(a));
                    for (int i = s.draw(4); i > 0; i--) {
                        items.add(s.draw(items.size() + 1), g.number(g.v.number()));
                    }
                    n = new RNode.Fn(s.of("MIN", "MAX", "SUM", "AVG", "MEAN", "MEDIAN", "MODE", "INT", "DAYS_ELAPSED"), items);
                    arith = s.coin();
                }
                case 3 -> n = new RNode.Arr(w.bind(x instanceof RVersion r ? r.text() : x), s.of("CONTAINS_ANY", "CONTAINS_ALL"), List.of(b));
                default -> n = s.of(a, new RNode.Not(a), new RNode.Bool("AND", a, Gen.lit(true)), new RNode.Bool("OR", Gen.lit(false), a), new RNode.Bool("AND", Gen.lit(true), new RNode.Not(a)));
            }
            c.label(s.used() > 0 ? n.getClass().getSimpleName() : "");
            if (arith) {
                Props.checkArith(c, w, n);
                return;
            }
            c.note("data: " + w.show());
            RNode e = n;
            if (n instanceof RNode.Arith || n instanceof RNode.Neg || n instanceof RNode.Fn) {
                e = s.chance(30) ? n : new RNode.Cmp(s.of(Gen.CMP), n, Gen.lit(s.draw(5)));
            }
            c.nontrivial = Checks.decisive(Props.check(c, w, Props.wrap(g, e))) || true;
        });
    }

    private static Object odd(final Gen g) {
        final Source s = g.s;
        return switch (s.weighted(8, 6, 4, 4, 4, 2, 4, 1)) {
            case 7 -> {
                // no value of the language at all
                final Map<String, Object> m = s.of(List.of(new LinkedHashMap<>(), new HashMap<>(), new java.util.TreeMap<>()));
                for (int i = s.draw(4); i > 0; i--) {
                    m.put(g.v.word(3), s.coin() ? g.v.number() : g.v.scalar());
                }
                yield s.chance(85) ? m : java.util.Optional.of(g.v.number());
            }
            case 0 -> g.v.plainString();
            case 1 -> g.v.number();
            case 2 -> s.coin();
            case 3 -> g.v.date();
            case 4 -> g.v.dateTime();
            case 5 -> new RVersion(g.v.version(3));
            default -> {
                final List<Object> l = new ArrayList<>();
                for (int i = s.draw(4); i > 0; i--) {
                    l.add(g.v.scalar());
                }
                yield g.container(l);
            }
        };
    }

    // ------------------------------------------------------------ concatenation

    private static void concatenation() {
        reg("C25", 240000, 1_500_000, "+ with text on at least one side: text, numbers, booleans and versions as literals, fields and earlier concatenations, in chains of up to 30 and compared with = to the "
                + "expected text; non-trivial: the reference knows the result", c -> {
            final Source s = c.s;
            final World w = new World(s);
            final Gen g = new Gen(w);
            final RNode n = concatenated(g);
            final RefEval.Val v = new RefEval(w.bound.isEmpty() ? Map.of() : nest(w)).arith(n);
            if (s.chance(25) && !v.any && !v.fail && v.v instanceof String t && RefEval.kind(t) == RefEval.Kind.STR) {
                final RNode e = new RNode.Cmp(s.of("=", "!="), n, g.leaf(g.v.nearPlainString(t)));
                c.note("data: " + w.show());
                c.nontrivial = Checks.decisive(Props.check(c, w, e));
                return;
            }
            Props.checkArith(c, w, n);
        });
    }

    private static RNode concatenated(final Gen g) {
        final Source s = g.s;
        RNode n = g.leaf(s.chance(70) ? g.v.plainString() : piece(g));
        for (int i = s.size(1, 30); i > 0; i--) {
            final RNode p = s.chance(10) ? new RNode.Arith("+", g.leaf(g.v.plainString()), g.leaf(piece(g))) : g.leaf(piece(g));
            n = s.chance(85) ? new RNode.Arith("+", n, p) : new RNode.Arith("+", p, n);
        }
        return n;
    }

    /** The data as the reference needs it before the world is closed. */
    static Map<String, Object> nest(final World w) {
        final Map<String, Object> root = new HashMap<>();
        w.bound.forEach((p, x) -> {
            Map<String, Object> m = root;
            final String[] k = p.split("\\.");
            for (int i = 0; i < k.length - 1; i++) {
                @SuppressWarnings("unchecked")
                final Map<String, Object> next = (Map<String, Object>) m.computeIfAbsent(k[i], y -> new HashMap<String, Object>());
                m = next;
            }
            m.put(k[k.length - 1], x);
        });
        return root;
    }

    private static Object piece(final Gen g) {
        return switch (g.s.weighted(50, 25, 10, 8, 7)) {
            case 0 -> g.v.plainString();
            case 1 -> g.v.wholeValue();
            case 2 -> g.s.chance(60) ? g.v.decimal() : g.s.chance(60) ? (Object) (double) g.s.range(-20, 100) : g.v.decimalValue();
            case 3 -> g.s.coin();
            default -> new RVersion(g.v.version(3));
        };
    }

    // ------------------------------------------------------------ substitution

    private static void substitution() {
        reg("C26", 140000, 800_000, "an expression with a sub-expression (arithmetic, function or boolean) replaced by a field holding the value that sub-expression has alone: same outcome; and an arithmetic result "
                + "used in a comparison is the one the arithmetic evaluator gives; non-trivial: the sub-expression has a value and at least 3 nodes", c -> {
            final Source s = c.s;
            final World w = new World(s);
            w.decoys = false;
            w.mapKinds = 0;
            final Gen g = new Gen(w);
            final boolean bool = s.chance(30);
            final boolean text = !bool && s.chance(20);
            final RNode sub = bool ? g.bool(2) : text && s.chance(30) ? pieces(g, s.of(g.v.date().toString(), g.v.dateTime().toString().replace('T', ' '), g.v.version(3), "" + g.v.number(), "" + s.coin(), "null"))
                    : text ? new RNode.Arith("+", g.leaf(g.v.plainString()), g.leaf(s.coin() ? s.of(" ", "", "  ", "\t", "0", "\u00a0", "A") : piece(g))) : g.numeric(3);
            final String f = w.fresh();
            w.bound.put(f, 0);
            final RNode hole = new RNode.Field(f);
            final RNode context;
            if (bool) {
                context = switch (s.draw(4)) {
                    case 0 -> new RNode.Bool(s.of("AND", "OR"), hole, g.atom(1));
                    case 1 -> new RNode.Bool(s.of("AND", "OR"), g.atom(1), new RNode.Not(hole));
                    case 2 -> new RNode.Cmp(s.of("=", "!="), hole, g.leaf(s.coin()));
                    default -> new RNode.In(w.bind(s.coin()), s.coin(), List.of(hole));
                };
            } else if (text) {
                final Object own = new RefEval(nest(w)).arith(sub).v;
                final String is = own instanceof String t ? t : "";
                context = switch (s.draw(6)) {
                    case 0 -> new RNode.In(w.bind(g.v.nearPlainString(is)), s.coin(), List.of(Gen.lit("x"), hole));
                    case 1 -> new RNode.Arith("+", hole, g.leaf(piece(g)));
                    case 2 -> new RNode.Arith("+", g.leaf(g.v.plainString()), hole);
                    case 3 -> new RNode.Arr(w.bind(g.container(List.of(g.v.nearPlainString(is), g.v.nearPlainString(is)))), s.of("CONTAINS_ANY", "CONTAINS_ALL"), List.of(hole));
                    case 4 -> new RNode.Cmp(s.of(Gen.CMP), g.leaf(like(g, is)), hole);
                    default -> new RNode.Cmp(s.of(Gen.CMP), hole, g.leaf(like(g, is)));
                };
            } else {
                final RNode o = g.numeric(1);
                final RNode k = switch (s.draw(7)) {
                    case 0 -> new RNode.Arith(s.of(Gen.ARITH), hole, o);
                    case 1 -> new RNode.Arith(s.of(Gen.ARITH), o, hole);
                    case 2 -> new RNode.Fn(s.of("MIN", "MAX", "SUM", "AVG", "MEDIAN", "MODE"), List.of(o, hole, g.numeric(1)));
                    case 3 -> new RNode.Neg(hole);
                    case 4 -> new RNode.Fn("INT", List.of(hole));
                    default -> hole;
                };
                context = switch (s.draw(5)) {
                    case 0 -> k;
                    case 1 -> new RNode.In(w.bind(s.range(0, 9)), s.coin(), List.of(k, Gen.lit(1)));
                    case 2 -> new RNode.Cmp(s.of(Gen.CMP), g.numeric(1), k);
                    default -> new RNode.Cmp(s.of(Gen.CMP), k, g.number(g.v.number()));
                };
            }
            w.bound.remove(f);
            final Map<String, Object> data = nest(w);
            final String alone = Printer.print(sub, Printer.plain(s));
            c.executions++;
            final Out value = bool ? Impl.bool(alone, data, null) : Impl.arith(alone, data);
            if (value.failed()) {
                c.label("sub_fails");
                final String t = Printer.print(context.equals(hole) ? sub : plug(context, hole, sub), Printer.plain(s));
                c.note("data: " + Show.value(data));
                c.note("expression: " + Show.text(t));
                return;
            }
            w.bound.put(f, value.value());
            final Map<String, Object> with = nest(w);
            final String inlined = Printer.print(plug(context, hole, sub), Printer.any(s));
            final String bound = Printer.print(context, Printer.plain(s));
            c.note("data: " + Show.value(with));
            c.note("sub-expression: " + Show.text(alone) + " is " + value);
            c.note("inlined: " + Show.text(inlined));
            c.note("bound:   " + Show.text(bound));
            c.executions += 4;
            final Out a = Impl.bool(inlined, with, null);
            final Out b = Impl.bool(bound, with, null);
            if (a.mask() != b.mask() && !(context.equals(hole) || !RNode.isBoolean(context))) {
                throw c.fail("inlined: " + a + "\nbound: " + b);
            }
            final Out x = Impl.arith(inlined, with);
            final Out y = Impl.arith(bound, with);
            if (!RNode.isBoolean(context) && !bool && !Checks.same(x, y)) {
                throw c.fail("inlined: " + x + "\nbound: " + y);
            }
            if (!bool && RefEval.isNumber(value.value()) && RefEval.finite(value.value())) {
                // the two evaluators agree
                c.executions += 3;
                for (final String op : List.of("=", ">=", "<=")) {
                    final String t = "(" + alone + ") " + op + " " + f;
                    final Out o = Impl.bool(t, with, null);
                    if (o.mask() != RefEval.T) {
                        throw c.fail("the arithmetic evaluator gives " + value + " for " + Show.text(alone) + ", but with that value in " + f + ", " + Show.text(t) + " is " + o);
                    }
                }
            }
            c.nontrivial = RNode.size(sub) >= 3;
            c.label(bool ? "boolean" : text ? "text" : "arithmetic");
        });
    }

    /** A value that a text is, or nearly is, equal to. */
    private static Object like(final Gen g, final String t) {
        final Object x = switch (RefEval.kind(t)) {
            case DATE -> g.v.nearDate(RefEval.date(t));
            case DATETIME -> g.v.nearDateTime(RefEval.dateTime(t));
            default -> {
                if (RVersion.isNumeric(t) && t.matches("[0-9]+(\\.[0-9]+){2,}")) {
                    yield new RVersion(g.v.nearVersion(t, 3));
                }
                try {
                    yield g.v.nearNumber(new BigDecimal(t));
                } catch (final NumberFormatException ex) {
                    yield g.v.nearPlainString(t);
                }
            }
        };
        return g.s.chance(25) ? g.v.nearPlainString(t) : g.s.chance(20) ? x.toString().replace('T', ' ') : x;
    }

    /** A concatenation that makes the text. */
    private static RNode pieces(final Gen g, final String t) {
        final int at = t.length() < 2 ? t.length() : g.s.range(1, t.length() - 1);
        return new RNode.Arith("+", g.leaf(t.substring(0, at)), g.leaf(t.substring(at)));
    }

    static RNode plug(final RNode n, final RNode hole, final RNode x) {
        if (n.equals(hole)) {
            return x;
        }
        return switch (n) {
            case RNode.Cmp c -> new RNode.Cmp(c.op(), plug(c.l(), hole, x), plug(c.r(), hole, x));
            case RNode.Arith c -> new RNode.Arith(c.op(), plug(c.l(), hole, x), plug(c.r(), hole, x));
            case RNode.Bool c -> new RNode.Bool(c.op(), plug(c.l(), hole, x), plug(c.r(), hole, x));
            case RNode.Neg c -> new RNode.Neg(plug(c.x(), hole, x));
            case RNode.Not c -> new RNode.Not(plug(c.x(), hole, x));
            case RNode.Fn c -> new RNode.Fn(c.name(), c.items().stream().map(i -> plug(i, hole, x)).toList());
            case RNode.In c -> new RNode.In(c.field(), c.not(), c.items().stream().map(i -> plug(i, hole, x)).toList());
            case RNode.Arr c -> new RNode.Arr(c.field(), c.op(), c.items().stream().map(i -> plug(i, hole, x)).toList());
            default -> n;
        };
    }

    // ------------------------------------------------------------ configurations

    static final List<String> LOCALES = List.of("tr-TR", "az", "lt", "de-DE", "ar-EG-u-nu-arab", "th-TH-u-ca-buddhist-nu-thai", "ja-JP-u-ca-japanese", "hi-IN-u-nu-deva", "fa-IR", "el");
    static final List<String> ZONES = List.of("UTC", "Pacific/Kiritimati", "Pacific/Pago_Pago", "America/New_York", "Asia/Kathmandu", "Europe/Berlin", "Australia/Lord_Howe", "America/Sao_Paulo",
                                              "Africa/Cairo", "Pacific/Apia");

    /** Local times around which a clock jumps in its zone. */
    private static LocalDateTime jump(final Source s, final String id) {
        final java.time.ZoneId zone = java.time.ZoneId.of(id);
        final java.time.zone.ZoneOffsetTransition t = zone.getRules().nextTransition(LocalDate.of(s.range(1950, 2030), s.range(1, 12), 1).atStartOfDay().toInstant(java.time.ZoneOffset.UTC));
        return t == null ? LocalDate.of(2011, 12, 30).atTime(12, 0) : t.getDateTimeBefore().plusMinutes(s.of(30, 0, 1, 15, 59, 60, -1, -30, -60, 90));
    }

    private static void configurations() {
        final Prop p = new Prop("C27", 48000, 400_000, "expressions of every kind evaluated with the JVM's default locale and time zone set to one of 10 locales (Turkish, Azeri, Lithuanian, Arabic, Thai, Devanagari "
                + "digits, ...) and one of 10 zones (date-times around the jumps of their clocks among the values), the code loaded afresh under each locale, compared with the reference or the root locale; non-trivial: the expression evaluates") {
            private Locale locale = Locale.ROOT;

            @Override
            void start() {
                locale = Locale.getDefault();
            }

            @Override
            void run(final Ctx c) {
                final Source s = c.s;
                c.note("default locale: " + Locale.getDefault() + ", default time zone: " + TimeZone.getDefault().getID());
                final World w = new World(s);
                final Gen g = new Gen(w);
                final String place = s.of(ZONES);
                final RNode n = switch (s.weighted(5, 3, 2, 4, 3, 2)) {
                    case 0 -> g.bool(2);
                    case 1 -> g.numeric(2);
                    case 2 -> new RNode.Cmp(s.of(Gen.CMP), dateLeaf(g), dateLeaf(g));
                    case 3 -> {
                        final LocalDateTime t = jump(s, place);
                        final LocalDateTime u = s.chance(25) ? jump(s, place) : t.plusMinutes(s.of(30, 15, 45, 60, 1, 0, -1, -15, -30, -60));
                        final boolean day = s.chance(20);
                        final RNode a = day ? g.leaf(t.toLocalDate()) : g.leaf(t);
                        final RNode b = day ? g.leaf(u.toLocalDate()) : g.leaf(u);
                        yield s.chance(80) ? new RNode.Cmp(s.of(Gen.CMP), a, b) : new RNode.In(w.bind(day ? t.toLocalDate() : t), s.coin(), List.of(b, g.leaf(day ? jump(s, place).toLocalDate() : jump(s, place))));
                    }
                    case 4 -> concatenated(g);
                    default -> g.any(2);
                };
                final String text = Printer.print(n, Printer.any(s));
                c.note("data: " + w.show());
                c.note("expression: " + Show.text(text));
                final TimeZone zone = TimeZone.getDefault();
                final Locale here = Locale.getDefault();
                final Out[] r = new Out[6];
                c.executions += 6;
                r[0] = Impl.parse(text, null);
                r[1] = Impl.bool(text, w.data(), null);
                r[2] = Impl.arith(text, w.data());
                Locale.setDefault(Locale.ROOT);
                TimeZone.setDefault(TimeZone.getTimeZone(place));
                try {
                    r[3] = Impl.parse(text, null);
                    r[4] = Impl.bool(text, w.data(), null);
                    r[5] = Impl.arith(text, w.data());
                } finally {
                    Locale.setDefault(here);
                    TimeZone.setDefault(zone);
                }
                if (r[0].failed() || r[3].failed() || !treeOf(r[0]).equals(treeOf(r[3]))) {
                    throw c.fail("under " + here + " it is parsed as " + (r[0].failed() ? r[0] : treeOf(r[0])) + "\nunder the root locale as " + (r[3].failed() ? r[3] : treeOf(r[3])));
                }
                if (r[1].mask() != r[4].mask()) {
                    throw c.fail("under " + here + " it evaluates to " + r[1] + "\nunder the root locale and time zone " + place + " to " + r[4]);
                }
                if (!Checks.same(r[2], r[5])) {
                    throw c.fail("under " + here + " it evaluates to " + r[2] + "\nunder the root locale and time zone " + place + " to " + r[5]);
                }
                Checks.bool(c, w.data(), text, null);
                c.nontrivial = !r[1].failed() || !r[2].failed();
                c.label(here.toLanguageTag());
            }
        };
        p.workers = 1;
        Props.ALL.put(p.id, p);
    }

    private static RNode dateLeaf(final Gen g) {
        final LocalDate d = g.v.date();
        if (g.s.coin()) {
            return g.s.coin() ? g.w.field(d.toString()) : g.leaf(d);
        }
        final LocalDateTime t = g.v.dateTime();
        return g.leaf(t);
    }
}
