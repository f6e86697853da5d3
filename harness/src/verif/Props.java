package verif;

import java.math.BigDecimal;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** The properties decided against the reference model, or against the code itself under a rewriting. */
final class Props {
    static final Map<String, Prop> ALL = new LinkedHashMap<>();

    private Props() {
    }

    interface Body {
        void run(Ctx c) throws Exception;
    }

    static Prop reg(final String id, final int quick, final int thorough, final String rule, final Body body) {
        final Prop p = new Prop(id, quick, thorough, rule) {
            @Override
            void run(final Ctx c) throws Exception {
                body.run(c);
            }
        };
        ALL.put(id, p);
        return p;
    }

    static RNode field(final String f) {
        return new RNode.Field(f);
    }

    /** Sometimes puts a boolean expression under connectives that do not change what it says, or negate it. */
    static RNode wrap(final Gen g, final RNode n) {
        final Source s = g.s;
        if (!s.chance(15)) {
            return n;
        }
        return switch (s.draw(4)) {
            case 0 -> new RNode.Not(n);
            case 1 -> new RNode.Bool("AND", Gen.lit(true), n);
            case 2 -> new RNode.Bool("OR", n, Gen.lit(false));
            default -> new RNode.Bool("AND", n, n);
        };
    }

    /** Prints, evaluates and compares one boolean expression; counts it when the reference leaves one outcome. */
    static int check(final Ctx c, final World w, final RNode n) {
        final String text = Printer.print(n, Printer.any(c.s));
        c.note("expression: " + Show.text(text));
        final int m = Checks.bool(c, w.data(), text, null);
        c.label(Out.mask(m).replace(' ', '_'));
        return m;
    }

    /** All six comparisons of the two operands, in both orders. */
    static void compareAll(final Ctx c, final Gen g, final RNode l, final RNode r) {
        final World w = g.w;
        c.note("data: " + w.show());
        boolean any = false;
        for (final String op : Gen.CMP) {
            any |= Checks.decisive(check(c, w, wrap(g, new RNode.Cmp(op, l, r))));
            any |= Checks.decisive(check(c, w, wrap(g, new RNode.Cmp(op, r, l))));
        }
        c.nontrivial = any;
    }

    static {
        structure();
        connectives();
        comparisons();
        membership();
        arithmetic();
        fields();
        More.register();
    }

    private static void structure() {
        reg("C01", 260000, 1_500_000, "a random tree of every node kind (or a chain of up to 120 operators) printed with minimal, redundant or full parentheses; non-trivial: at least 4 nodes", c -> {
            final World w = new World(c.s);
            w.nested = 10;
            final Gen g = new Gen(w);
            g.fields = 60;
            final RNode n = c.s.chance(20) ? g.chain(c.s.size(2, 120)) : g.any(c.s.range(1, 5));
            final String text = Printer.print(n, Printer.any(c.s));
            c.note("expression: " + Show.text(text));
            final RNode want;
            try {
                want = RefParser.parse(text, null);
            } catch (final RefParser.Reject | RefParser.Unspecified ex) {
                throw new IllegalStateException("printed text rejected by the reference: " + text);
            }
            c.executions++;
            final Out o = Impl.parse(text, null);
            if (o.failed()) {
                throw c.fail("parsing fails: " + o);
            }
            final RNode got = Impl.canonical(Impl.tree((com.github.sidhant92.boolparser.domain.logical.Node) o.value()));
            if (!got.equals(Impl.canonical(want))) {
                throw c.fail("parsed as\n  " + got + "\nexpected\n  " + Impl.canonical(want));
            }
            c.nontrivial = RNode.size(n) >= 4;
            c.label("size_" + Integer.highestOneBit(RNode.size(n)));
        });
    }

    // ------------------------------------------------------------ connectives

    private static RNode formula(final Gen g, final List<RNode> atoms, final int depth) {
        final Source s = g.s;
        if (depth <= 0 || s.chance(15)) {
            return atoms.get(s.draw(atoms.size()));
        }
        return switch (s.weighted(45, 45, 20)) {
            case 0 -> new RNode.Bool("AND", formula(g, atoms, depth - 1), formula(g, atoms, depth - 1));
            case 1 -> new RNode.Bool("OR", formula(g, atoms, depth - 1), formula(g, atoms, depth - 1));
            default -> new RNode.Not(formula(g, atoms, depth - 1));
        };
    }

    private static int fold(final RNode n, final Map<RNode, Integer> atoms, final List<RNode> evaluated) {
        if (atoms.containsKey(n)) {
            evaluated.add(n);
        }
        return switch (n) {
            case RNode.Not x when !atoms.containsKey(n) -> {
                final int m = fold(x.x(), atoms, evaluated);
                yield m == RefEval.E ? m : m == RefEval.T ? RefEval.F : RefEval.T;
            }
            case RNode.Bool b when !atoms.containsKey(n) -> {
                final int l = fold(b.l(), atoms, evaluated);
                if (l == RefEval.E) {
                    yield l;
                }
                final boolean decided = l == (b.op().equals("AND") ? RefEval.F : RefEval.T);
                yield decided ? l : fold(b.r(), atoms, evaluated);
            }
            default -> atoms.get(n);
        };
    }

    private static void connectives() {
        reg("C02", 140000, 800_000, "a formula of AND, OR, NOT and parentheses (depth up to 6, or a chain of up to 150) over atoms of every kind, some failing; the outcome of each atom is "
                + "taken from evaluating it alone; non-trivial: at least 2 connectives", c -> {
            final World w = new World(c.s);
            final Gen g = new Gen(w);
            g.missing = c.s.chance(40) ? 8 : 0;
            g.relations = c.s.of(15, 15, 90);
            final List<RNode> atoms = new ArrayList<>();
            for (int i = c.s.range(1, 6); i > 0; i--) {
                switch (c.s.weighted(g.relations > 50 ? 10 : 40, g.relations > 50 ? 5 : 20, 25, g.relations > 50 ? 4 : 15)) {
                    case 0 -> atoms.add(w.field(c.s.coin()));
                    case 1 -> atoms.add(Gen.lit(c.s.coin()));
                    case 2 -> atoms.add(g.atom(1));
                    default -> atoms.add(switch (c.s.weighted(4, 4, 3, 1, 1)) {
                        case 0 -> new RNode.Field(w.missing());
                        case 1 -> new RNode.Cmp(">", w.field(true), Gen.lit(1));
                        case 2 -> w.field(c.s.coin() ? g.v.scalar() : c.s.of("true", "false", 1, 0, "", new ArrayList<>(), "TRUE"));
                        case 3 -> Gen.lit(c.s.range(0, 2));
                        default -> g.numeric(1);
                    });
                }
            }
            RNode n;
            if (c.s.chance(15)) {
                n = atoms.get(0);
                final int mode = c.s.draw(3);
                for (int i = c.s.size(2, 150); i > 0; i--) {
                    n = new RNode.Bool(mode == 0 ? "AND" : mode == 1 ? "OR" : c.s.of("AND", "OR"), n, atoms.get(c.s.draw(atoms.size())));
                }
            } else {
                n = formula(g, atoms, c.s.range(1, 6));
            }
            c.note("data: " + w.show());
            final Map<RNode, Integer> outcome = new java.util.HashMap<>();
            final Map<RNode, java.util.Set<Object>> reads = new java.util.HashMap<>();
            final Map<RNode, Out> alone = new java.util.HashMap<>();
            for (final RNode a : atoms) {
                final String t = Printer.print(a, Printer.plain(c.s));
                c.executions++;
                final Usage.Reads m = new Usage.Reads(w.data());
                final Out o = Impl.bool(t, m, null);
                reads.put(a, m.keys);
                alone.put(a, o);
                outcome.put(a, o.mask());
                if (a instanceof RNode.Lit l && l.value() instanceof Boolean known && o.mask() != (known ? RefEval.T : RefEval.F)) {
                    throw c.fail("the literal " + t + " evaluates to " + o);
                }
                if (a instanceof RNode.Field f && w.bound.get(f.name()) instanceof Boolean b && o.mask() != (b ? RefEval.T : RefEval.F)) {
                    throw c.fail("the boolean field " + t + " evaluates to " + o);
                }
                c.note("atom: " + Show.text(t) + " is " + o);
            }
            final String text = Printer.print(n, Printer.any(c.s));
            c.note("expression: " + Show.text(text));
            final List<RNode> evaluated = new ArrayList<>();
            final int want = fold(n, outcome, evaluated);
            c.executions++;
            final Usage.Reads m = new Usage.Reads(w.data());
            final Out o = Impl.bool(text, m, null);
            if (o.mask() != want) {
                throw c.fail("evaluates to " + o + "\n  expected " + Out.mask(want) + " from the outcomes of its parts");
            }
            evaluated.forEach(a -> m.keys.removeAll(reads.get(a)));
            if (!m.keys.isEmpty()) {
                throw c.fail("evaluates to " + o + ", but reads " + m.keys + ", which only parts that need not be evaluated read");
            }
            if (o.failed() && Impl.dataNotFound(o.error()) != Impl.dataNotFound(alone.get(evaluated.get(evaluated.size() - 1)).error())) {
                throw c.fail("fails with " + o + "\n  the part that fails, alone, with " + alone.get(evaluated.get(evaluated.size() - 1)));
            }
            c.nontrivial = RNode.size(n) >= 5;
            c.label(Out.mask(want));
        });
    }

    // ------------------------------------------------------------ comparisons

    private static void comparisons() {
        reg("C03", 80000, 500_000, "two numbers (equal, adjacent, equal in another class, or confusable by wrap-around or rounding) as literals, Integer/Long/Double/Float/BigDecimal fields, negations or "
                + "sums, or one as numeric text; all six operators in both orders; non-trivial: the reference leaves one outcome", c -> {
            final World w = new World(c.s);
            final Gen g = new Gen(w);
            final Object x = g.v.number();
            Object y = c.s.chance(85) ? g.v.nearNumber(x) : g.v.number();
            RNode l = g.number(x);
            RNode r = g.number(y);
            if (c.s.chance(8) && RefEval.num(y).precision() < 30 && Math.abs(RefEval.num(y).scale()) < 30) {
                r = w.field(c.s.coin() ? RefEval.num(y).toPlainString() : RefEval.num(y).toString());
                c.label("numeric_text");
            } else if (c.s.chance(5) && RefEval.num(y).precision() < 30 && Math.abs(RefEval.num(y).scale()) < 30) {
                // other ways to write the number
                final String t = RefEval.num(y).abs().toPlainString();
                r = w.field((RefEval.num(y).signum() < 0 ? "-" : c.s.chance(20) ? "+" : "") + "0".repeat(c.s.range(1, 3)) + t + (t.indexOf('.') >= 0 ? "0".repeat(c.s.draw(3)) : c.s.of("", ".0", ".00", "e0", "E+0")));
                c.label("numeric_text");
            } else if (c.s.chance(10)) {
                l = new RNode.Arith(c.s.of("+", "-"), l, g.number(c.s.of(0, 1, 0L)));
                c.label("computed");
            }
            c.label(x.getClass().getSimpleName() + "_" + y.getClass().getSimpleName());
            compareAll(c, g, l, r);
        });
        reg("C04", 80000, 500_000, "two strings (equal, a prefix, differing in one character, in case or in surrounding blanks, numeric-looking, keyword-like, unicode, up to 300 long) as quoted literals or "
                + "fields; all six operators in both orders; non-trivial: the reference leaves one outcome", c -> {
            final World w = new World(c.s);
            final Gen g = new Gen(w);
            final String x = g.v.plainString();
            final String y = g.v.nearPlainString(x);
            c.label(x.equals(y) ? "equal" : x.equalsIgnoreCase(y) ? "case_only" : "different");
            compareAll(c, g, g.leaf(x), g.leaf(y));
        });
        reg("C05", 80000, 500_000, "a version literal against a version literal or a string field holding a version (1 to 12 components, trailing zeros, leading zeros, components beyond the int and long "
                + "range); all six operators in both orders; non-trivial: the reference leaves one outcome", c -> {
            final World w = new World(c.s);
            final Gen g = new Gen(w);
            final String x = g.v.version(3);
            final RNode r;
            if (c.s.chance(40)) {
                r = Gen.lit(new RVersion(g.v.nearVersion(x, 3)));
            } else {
                r = w.field(g.v.nearVersion(x, 1));
            }
            compareAll(c, g, Gen.lit(new RVersion(x)), r);
        });
        reg("C06", 80000, 500_000, "two dates or two date-times (equal, or off by a second, day, month, year; leap days; years 1 to 9999, and far beyond in fields) as literals, LocalDate/LocalDateTime fields or text fields; all six "
                + "operators in both orders; non-trivial: the reference leaves one outcome", c -> {
            final World w = new World(c.s);
            final Gen g = new Gen(w);
            final RNode[] n = new RNode[2];
            if (c.s.coin()) {
                final LocalDate x = g.v.date();
                final LocalDate y = g.v.nearDate(x);
                final boolean far = c.s.chance(8);
                int i = 0;
                for (final LocalDate d : List.of(x, y)) {
                    n[i++] = far ? w.field(d.plusYears(c.s.of(0, 10_000, -10_000, 1_000_000, 9_000, -9_000))) : c.s.chance(35) ? w.field(d.toString()) : g.leaf(d);
                }
            } else {
                final LocalDateTime x = g.v.dateTime();
                final LocalDateTime y = g.v.nearDateTime(x);
                final boolean far = c.s.chance(8);
                int i = 0;
                for (final LocalDateTime d : List.of(x, y)) {
                    if (far) {
                        n[i++] = w.field(d.plusYears(c.s.of(0, 10_000, -10_000, 1_000_000, 9_000, -9_000)));
                        continue;
                    }
                    final String t = d.toString().replace('T', ' ') + (d.getSecond() == 0 ? ":00" : "");
                    n[i++] = c.s.chance(35) ? w.field(t) : c.s.chance(10) ? w.field(d.plusNanos(c.s.of(0, 1, 999_999_999))) : g.leaf(d);
                }
            }
            if (c.s.chance(15)) {
                final LocalDate d = c.s.chance(60) && n[0] instanceof RNode.Lit l && l.value() instanceof LocalDate x ? x : g.v.date();
                final int y = Math.floorMod(d.getYear(), 10_000);
                final int m = d.getMonthValue();
                final int day = d.getDayOfMonth();
                final String text = switch (c.s.draw(12)) {
                    case 0 -> String.format(java.util.Locale.ROOT, "%04d-%02d-%02d", y, 2, java.time.Year.isLeap(y) ? 30 : 29);
                    case 1 -> String.format(java.util.Locale.ROOT, "%04d-%02d-31", y, c.s.of(2, 4, 6, 9, 11));
                    case 2 -> String.format(java.util.Locale.ROOT, "%04d-%02d-%02d", y, c.s.of(0, 13, 20), day);
                    case 3 -> String.format(java.util.Locale.ROOT, "%04d-%02d-%02d", y, m, c.s.of(0, 32, 40));
                    case 4 -> String.format(java.util.Locale.ROOT, "%04d-%02d-%02d %s", y, m, day, c.s.of("24:00:00", "23:60:00", "23:59:60", "25:00:00", "10:00", "1:00:00", "10:00:00.5", "10.00.00"));
                    case 5 -> y + "-" + m + "-" + day + (m > 9 && day > 9 ? " " : "");
                    case 6 -> String.format(java.util.Locale.ROOT, "%02d-%02d-%02d", y % 100, m, day);
                    case 7 -> String.format(java.util.Locale.ROOT, "%04d-%02d-%02d", y, m, day) + c.s.of(" ", "x", "T00:00:00", "T", "-", " 10", "Z");
                    case 8 -> String.format(java.util.Locale.ROOT, "%04d%s%02d%s%02d", y, c.s.of("/", ".", ""), m, c.s.of("/", ".", ""), day);
                    case 9 -> String.format(java.util.Locale.ROOT, "%02d-%02d-%04d", day, m, y);
                    case 10 -> String.format(java.util.Locale.ROOT, "%04d-02-29 10:00:00", y % 4 == 0 ? y + 1 : y);
                    default -> c.s.of("2023-02-29", "2024-13-01", "2024-1-1", "24-01-01", "2024-01-01T00:00:00", "2024-01-01 24:00:00", "2024-04-31", "not a date", "2024-01-01 ", "", "1900-02-29", "2100-02-29");
                };
                n[1] = c.s.chance(70) || !Values.quotable(text) ? w.field(text) : Gen.lit(text);
                c.label("not_a_date");
            }
            compareAll(c, g, n[0], n[1]);
        });
        reg("C07", 120000, 800_000, "= null and != null, null on either side in any case, against present fields of every type (falsy values, empty text and lists, false, 0), fields absent at any depth, "
                + "null-valued fields, literals and computed operands; non-trivial: the reference leaves one outcome", c -> {
            final World w = new World(c.s);
            w.nested = 40;
            final Gen g = new Gen(w);
            w.bind(g.v.scalar());
            final RNode x = switch (c.s.weighted(40, 40, 6, 6, 8)) {
                case 0 -> w.field(c.s.chance(15) ? oddly(c.s) : c.s.chance(40) ? c.s.of(0, "", false, new ArrayList<>(), 0.0, "null", BigDecimal.ZERO, new Object[0], new LinkedHashMap<String, Object>(), 0L, "false")
                        : c.s.chance(20) ? g.container(g.numbers(3)) : g.v.scalar());
                case 1 -> field(w.missing());
                case 2 -> Gen.lit(c.s.coin() ? (Object) 1 : "null");
                case 3 -> g.numeric(1);
                default -> new RNode.Arith("+", field(w.missing()), Gen.lit(1));
            };
            final RNode nul = field(c.s.of("null", "NULL", "Null", "nULL"));
            c.note("data: " + w.show());
            boolean any = false;
            for (final String op : List.of("=", "!=")) {
                any |= Checks.decisive(check(c, w, wrap(g, new RNode.Cmp(op, x, nul))));
                any |= Checks.decisive(check(c, w, wrap(g, new RNode.Cmp(op, nul, x))));
            }
            c.nontrivial = any;
        });
    }

    /** Values the library knows nothing about; all of them are there. */
    private static Object oddly(final Source s) {
        return s.of(java.util.Optional.empty(), java.util.Optional.of(1), Double.NaN, Float.NaN, Double.NEGATIVE_INFINITY, 'x', (short) 0, (byte) 0, new java.util.concurrent.atomic.AtomicReference<>(), new int[0], new NoValue(),
                new Object(), java.math.BigInteger.ZERO, new java.util.concurrent.atomic.AtomicInteger(), new java.util.HashSet<>(), new java.util.TreeMap<>(), java.util.Collections.emptyList(), new StringBuilder(), "\u0000",
                "undefined", "None", "nil", " ", "\t", "N/A", "-", java.time.LocalDate.MIN, java.time.LocalDate.EPOCH, Void.class);
    }

    /** What some libraries use for null. */
    private static final class NoValue {
        @Override
        public boolean equals(final Object o) {
            return o == null || o == this;
        }

        @Override
        public int hashCode() {
            return 0;
        }

        @Override
        public String toString() {
            return "null";
        }
    }

    // ------------------------------------------------------------ IN, CONTAINS, TO

    private static void membership() {
        reg("C08", 160000, 900_000, "field [NOT] IN a list of 1 to 200 items near or equal to the field's value (numbers in every class, text, booleans, dates, versions), items being literals, fields, list fields "
                + "or sub-expressions, sometimes missing; non-trivial: the reference leaves one outcome", c -> {
            final World w = new World(c.s);
            final Gen g = new Gen(w);
            final Object x = c.s.chance(8) ? new RVersion(g.v.version(3)) : g.v.scalar();
            final boolean container = c.s.chance(4);
            final String f = c.s.chance(4) ? w.missing() : w.bind(container ? g.container(List.of(g.near(x) instanceof RVersion v ? v.text() : g.near(x))) : x instanceof RVersion r ? r.text() : x);
            final List<RNode> items = new ArrayList<>();
            final int n = g.listSize(1, 200);
            g.fields = c.s.of(10, 30, 60);
            final boolean far = c.s.coin();
            for (int i = 0; i < n; i++) {
                final Object o = far || c.s.chance(40) ? otherSame(g, x) : g.near(x);
                if (c.s.chance(6)) {
                    final List<Object> l = new ArrayList<>();
                    for (int k = c.s.size(0, 30); k > 0; k--) {
                        l.add(x instanceof RVersion ? g.v.version(3) : c.s.chance(35) ? g.near(x) : otherSame(g, x));
                    }
                    items.add(w.field(g.container(l)));
                    c.label("list_item");
                } else if (c.s.chance(3) && RefEval.isNumber(x)) {
                    items.add(new RNode.Arith("+", g.number(o), Gen.lit(0)));
                } else if (c.s.chance(1)) {
                    items.add(field(w.missing()));
                    c.label("missing_item");
                } else if (c.s.chance(container ? 30 : 1)) {
                    items.add(field(f));
                    c.label("own_item");
                } else {
                    items.add(g.number(o));
                }
            }
            if (far && c.s.coin()) {
                items.set(c.s.draw(items.size()), x instanceof RVersion ? Gen.lit(x) : g.number(RefEval.isNumber(x) ? g.v.classify(RefEval.num(x)) : x));
                c.label("planted");
            }
            c.note("data: " + w.show());
            boolean any = Checks.decisive(check(c, w, wrap(g, new RNode.In(f, false, items))));
            any |= Checks.decisive(check(c, w, wrap(g, new RNode.In(f, true, items))));
            c.nontrivial = any;
            c.label("items_" + Integer.highestOneBit(n));
        });
        reg("C09", 160000, 900_000, "CONTAINS_ANY and CONTAINS_ALL of 1 to 60 items over a list, set, linked list or (typed) array field of 0 to 200 elements, numbers in mixed classes, text, dates, booleans; "
                + "items literals, fields, list fields; sometimes a non-list or missing field; non-trivial: the reference leaves one outcome", c -> {
            final World w = new World(c.s);
            final Gen g = new Gen(w);
            final Object x = c.s.chance(45) ? g.v.plainString() : c.s.chance(50) ? g.v.number() : g.v.scalar();
            final List<Object> have = new ArrayList<>();
            final int n = g.listSize(0, 200);
            for (int i = 0; i < n; i++) {
                have.add(c.s.chance(70) ? otherSame(g, x) : c.s.chance(90) ? g.near(x) : g.v.scalar());
            }
            if (n > 0 && c.s.chance(4)) {
                // lists within the list
                for (int i = c.s.range(1, 2); i > 0; i--) {
                    have.set(c.s.draw(n), c.s.chance(80) ? new ArrayList<>(List.of(have.get(c.s.draw(n)))) : Map.of("a", have.get(c.s.draw(n))));
                }
                c.label("nested");
            }
            final List<RNode> items = new ArrayList<>();
            final int m = g.listSize(1, 60);
            final int hit = c.s.of(50, 90, 100, 5);
            for (int i = 0; i < m; i++) {
                final boolean present = !have.isEmpty() && c.s.draw(100) < hit;
                Object o = present ? have.get(c.s.draw(n)) : c.s.coin() ? otherSame(g, x) : g.near(x);
                while (o instanceof List<?> l) {
                    o = l.get(0);
                }
                if (o instanceof Map) {
                    o = x;
                }
                if (present && RefEval.isNumber(o) && RefEval.finite(o) && c.s.chance(40)) {
                    o = g.v.classify(RefEval.num(o));
                }
                items.add(c.s.chance(4) ? w.field(g.container(List.of(o, otherSame(g, x)))) : g.number(o));
            }
            if (c.s.chance(3)) {
                items.set(c.s.draw(m), g.leaf(g.v.scalar()));
            }
            final String f = c.s.chance(4) ? w.missing() : c.s.chance(4) ? w.bind(x) : w.bind(g.container(have));
            c.note("data: " + w.show());
            boolean any = Checks.decisive(check(c, w, wrap(g, new RNode.Arr(f, "CONTAINS_ANY", items))));
            any |= Checks.decisive(check(c, w, wrap(g, new RNode.Arr(f, "CONTAINS_ALL", items))));
            c.nontrivial = any;
            c.label("elements_" + Integer.highestOneBit(n));
        });
        reg("C10", 160000, 900_000, "field lo TO hi with whole, long and decimal bounds (sometimes lo > hi) and a number at, next to or away from a bound in any class, numeric text, other types or missing; "
                + "non-trivial: the reference leaves one outcome", c -> {
            final World w = new World(c.s);
            final Gen g = new Gen(w);
            RNode.Lit lo = null;
            RNode.Lit hi = null;
            while (lo == null) {
                final Object a = g.v.number();
                final Object b = c.s.chance(60) ? g.v.nearNumber(a) : g.v.number();
                if (Gen.literal(a) && Gen.literal(b)) {
                    final boolean swap = RefEval.num(a).compareTo(RefEval.num(b)) > 0 && !c.s.chance(15);
                    lo = Gen.lit(swap ? b : a);
                    hi = Gen.lit(swap ? a : b);
                }
                if (c.s.used() > 5000) {
                    lo = Gen.lit(1);
                    hi = Gen.lit(2);
                }
            }
            final Object x = switch (c.s.weighted(35, 35, 15, 8, 7)) {
                case 0 -> g.v.nearNumber(lo.value());
                case 1 -> g.v.nearNumber(hi.value());
                case 2 -> g.v.number();
                case 3 -> {
                    final BigDecimal t = RefEval.num(g.v.nearNumber(c.s.coin() ? lo.value() : hi.value()));
                    yield t.precision() < 30 && Math.abs(t.scale()) < 30 ? t.toPlainString() : "5";
                }
                default -> g.v.scalar();
            };
            final String f = c.s.chance(4) ? w.missing() : w.bind(x);
            c.note("data: " + w.show());
            c.nontrivial = Checks.decisive(check(c, w, wrap(g, new RNode.Range(f, lo, hi))));
        });
    }

    static Object otherSame(final Gen g, final Object x) {
        if (x instanceof RVersion) {
            return new RVersion(g.v.version(3));
        }
        if (RefEval.isNumber(x)) {
            return g.v.number();
        }
        if (x instanceof String) {
            return g.v.plainString();
        }
        if (x instanceof LocalDate) {
            return g.v.date();
        }
        if (x instanceof LocalDateTime) {
            return g.v.dateTime();
        }
        return g.s.coin();
    }

    // ------------------------------------------------------------ arithmetic

    private static RNode tree(final Gen g, final int depth, final String[] ops, final int kind) {
        final Source s = g.s;
        if (depth <= 0 || s.chance(20)) {
            return g.number(switch (kind) {
                case 0 -> g.v.wholeValue();
                case 1 -> g.v.decimalValue();
                case 2 -> g.v.number();
                default -> (Object) s.range(-30, 120);
            });
        }
        if (s.chance(12)) {
            return new RNode.Neg(tree(g, depth - 1, ops, kind));
        }
        return new RNode.Arith(s.of(ops), tree(g, depth - 1, ops, kind), tree(g, depth - 1, ops, kind));
    }

    static void checkArith(final Ctx c, final World w, final RNode n) {
        final String text = Printer.print(n, Printer.any(c.s));
        c.note("data: " + w.show());
        c.note("expression: " + Show.text(text));
        final RefEval.Val v = Checks.arith(c, w.data(), text);
        c.nontrivial = !v.any && !(v.mayFail && v.v == null);
        c.label(v.any ? "open" : v.fail ? "failure" : v.mayFail ? "value_or_failure" : v.v.getClass().getSimpleName());
    }

    private static void arithmetic() {
        reg("C11", 300000, 2_000_000, "a tree of + - * and unary minus (depth up to 5, or a chain of up to 60) over whole and decimal literals and fields of every number class, at the int and long boundaries; "
                + "non-trivial: the reference knows the value or that it fails", c -> {
            final World w = new World(c.s);
            final Gen g = new Gen(w);
            final int kind = c.s.weighted(4, 2, 3, 3);
            RNode n = tree(g, c.s.of(1, 1, 1, 2, 2, 3, 4, 5), new String[] {"+", "-", "*"}, kind);
            if (c.s.chance(4)) {
                for (int i = c.s.size(5, 60); i > 0; i--) {
                    n = new RNode.Arith(c.s.of("+", "-", "+", "-", "*"), n, g.number(kind == 3 ? (Object) c.s.range(0, 9) : g.v.wholeValue()));
                }
            }
            checkArith(c, w, n);
        });
        reg("C12", 300000, 2_000_000, "/, % and ^ of whole and decimal literals and fields of every number class (zero divisors, exact and inexact quotients, negative operands, large powers), alone or mixed with "
                + "+ - *; non-trivial: the reference knows the value or that it fails", c -> {
            final World w = new World(c.s);
            final Gen g = new Gen(w);
            final int kind = c.s.weighted(3, 2, 2, 5);
            final RNode n = switch (c.s.weighted(12, 6, 6, 4, 1)) {
                case 4 -> new RNode.Arith(c.s.of("/", "%"), g.number(c.s.of(Long.MIN_VALUE, Long.MIN_VALUE + 1, Long.MAX_VALUE, (long) Integer.MIN_VALUE, Integer.MIN_VALUE, Integer.MAX_VALUE)),
                        g.number(g.v.boxed(java.math.BigInteger.valueOf(c.s.of(-1L, 1L, -2L, 2L, -3L, Long.MIN_VALUE, Long.MAX_VALUE, (long) Integer.MIN_VALUE)))));
                case 0 -> tree(g, 1, new String[] {"/", "%"}, kind);
                case 1 -> new RNode.Arith("^", g.number(c.s.chance(70) ? (Object) c.s.range(-12, 40) : g.v.number()), g.number(c.s.chance(80) ? (Object) c.s.range(-3, 14) : g.v.number()));
                case 2 -> new RNode.Arith(c.s.of("/", "%"), g.number(g.v.number()), g.number(c.s.chance(25) ? c.s.of(0, 0L, 0.0, BigDecimal.ZERO, -0.0d, new BigDecimal("0.000")) : c.s.range(1, 12)));
                default -> tree(g, c.s.range(2, 3), new String[] {"/", "%", "^", "+", "*", "-"}, 3);
            };
            checkArith(c, w, n);
        });
        reg("C13", 240000, 1_500_000, "MIN MAX SUM AVG MEAN MEDIAN MODE over 1 to 200 numbers (duplicates, ties, equal values in different classes, boundary values, decimals of any scale), given as literals, fields, "
                + "list/set/array fields or nested expressions; sometimes a non-number; non-trivial: the reference knows the value or that it fails", c -> {
            final World w = new World(c.s);
            final Gen g = new Gen(w);
            final String f = c.s.of("MIN", "MAX", "SUM", "AVG", "MEAN", "MEDIAN", "MODE");
            final List<RNode> items = new ArrayList<>();
            final int style = c.s.weighted(4, 4, 3);
            final List<Object> xs;
            final int n = g.listSize(1, 200);
            if (c.s.chance(50)) {
                xs = new ArrayList<>();
                final boolean decimals = c.s.chance(40);
                for (int i = 0; i < n; i++) {
                    xs.add(decimals && c.s.coin() ? g.v.decimalBoxed(BigDecimal.valueOf(c.s.range(-40, 200), 1)) : c.s.range(-10, 50));
                }
            } else {
                xs = g.numbers(n);
            }
            if (c.s.chance(20)) {
                // one sign only
                final int sign = c.s.of(-1, 1);
                final List<Object> some = new ArrayList<>(xs);
                some.removeIf(x -> RefEval.num(x).signum() != sign);
                if (!some.isEmpty()) {
                    xs.clear();
                    xs.addAll(some);
                }
            } else if (c.s.chance(8)) {
                final int from = c.s.of(-9, -200, 1, 100, Integer.MIN_VALUE, Integer.MAX_VALUE - 5);
                final boolean wide = c.s.coin();
                for (int i = 0; i < xs.size(); i++) {
                    final int x = from + c.s.draw(6);
                    xs.set(i, wide ? (Object) (long) x : x);
                }
            }
            if (style == 0) {
                items.add(w.field(g.container(xs)));
            } else {
                for (int i = 0; i < xs.size(); i++) {
                    if (style == 2 && c.s.chance(15)) {
                        final int k = Math.min(xs.size(), i + c.s.range(1, 6));
                        items.add(w.field(g.container(xs.subList(i, k))));
                        i = k - 1;
                    } else if (style == 2 && c.s.chance(8)) {
                        items.add(g.numeric(1));
                    } else {
                        items.add(g.number(xs.get(i)));
                    }
                }
            }
            if (c.s.chance(4)) {
                items.add(c.s.draw(items.size() + 1), g.leaf(g.v.scalar()));
                c.label("maybe_not_a_number");
            }
            RNode e = new RNode.Fn(f, items);
            if (c.s.chance(10)) {
                e = new RNode.Fn(c.s.of("MAX", "MIN", "SUM"), List.of(e, Gen.lit(c.s.draw(10))));
            }
            checkArith(c, w, e);
            c.label(f);
        });
        reg("C14", 240000, 1_500_000, "LEN of text (unicode, up to 300 characters), lists, sets, arrays and scalars; INT of numbers of every class and sign far beyond the int range; DAYS_ELAPSED of date literals, "
                + "LocalDate and text fields; wrong argument types and counts; non-trivial: the reference knows the value or that it fails", c -> {
            final World w = new World(c.s);
            final Gen g = new Gen(w);
            final RNode arg;
            final String f = c.s.of("LEN", "INT", "DAYS_ELAPSED");
            switch (f) {
                case "LEN" -> arg = switch (c.s.weighted(5, 5, 2)) {
                    case 0 -> g.leaf(g.v.string());
                    case 1 -> {
                        final List<Object> l = new ArrayList<>();
                        for (int i = g.listSize(0, 300); i > 0; i--) {
                            l.add(g.v.scalar());
                        }
                        yield w.field(g.container(l));
                    }
                    default -> g.leaf(g.v.scalar());
                };
                case "INT" -> arg = c.s.chance(90) ? g.number(g.v.number()) : c.s.coin() ? g.leaf(g.v.scalar()) : g.numeric(1);
                default -> {
                    final LocalDate d = c.s.coin() ? LocalDate.now().plusDays(c.s.range(-400, 400)) : g.v.date();
                    arg = c.s.chance(90) ? c.s.chance(30) ? w.field(d.toString()) : g.leaf(d) : g.leaf(g.v.scalar());
                }
            }
            final List<RNode> items = new ArrayList<>(List.of(arg));
            if (c.s.chance(4)) {
                items.add(g.leaf(g.v.scalar()));
            }
            RNode e = new RNode.Fn(f, items);
            if (c.s.chance(15)) {
                e = new RNode.Arith(c.s.of("+", "*", "-"), e, Gen.lit(c.s.draw(5)));
            }
            final LocalDate before = LocalDate.now();
            Checks.today = before;
            try {
                checkArith(c, w, e);
            } catch (final Violation v) {
                if (LocalDate.now().equals(before)) {
                    throw v;
                }
            }
            c.label(f);
        });
    }

    // ------------------------------------------------------------ fields

    private static void fields() {
        reg("C15", 160000, 1_000_000, "fields of every type at depth 1 to 9 in mixed map classes with look-alike decoys, read alone and used in every position; the same with an absent, null-valued or unreachable field; "
                + "non-trivial: every case (a value read back or a missing field reported)", c -> {
            final World w = new World(c.s);
            w.nested = 60;
            final Gen g = new Gen(w);
            final int n = c.s.range(1, 6);
            final Map<String, Object> want = new LinkedHashMap<>();
            for (int i = 0; i < n; i++) {
                final Object x = c.s.chance(15) ? g.container(g.numbers(c.s.draw(4))) : c.s.chance(10) ? g.v.string() : c.s.chance(12) ? oddly(c.s) : g.v.scalar();
                want.put(w.bind(x), x);
            }
            final String absent = w.missing();
            final String flag = w.bind(c.s.coin());
            c.note("data: " + w.show());
            final Map<String, Object> data = w.data();
            for (final Map.Entry<String, Object> e : want.entrySet()) {
                c.executions++;
                final Out o = Impl.arith(e.getKey(), data);
                if (o.failed() || o.value() != e.getValue() && !(o.value().getClass() == e.getValue().getClass() && o.value().equals(e.getValue()))) {
                    throw c.fail("the field " + e.getKey() + " reads as " + o + "\n  expected " + Show.value(e.getValue()));
                }
            }
            final Boolean b = (Boolean) w.bound.get(flag);
            for (final String t : List.of(flag, flag + " = true", "NOT " + flag + " = false", "(" + flag + ")")) {
                Checks.bool(c, data, t, null);
            }
            c.executions++;
            if (Impl.bool(flag, data, null).mask() != (b ? RefEval.T : RefEval.F)) {
                throw c.fail("the boolean field " + flag + " does not evaluate to its value " + b);
            }
            // every use of a field without a value is reported as such
            final Object other = g.v.scalar();
            final RNode x = field(absent);
            final RNode y = Gen.literal(other) ? Gen.lit(other) : Gen.lit(1);
            final RNode one = Gen.lit(c.s.range(0, 9));
            final RNode use = switch (c.s.draw(12)) {
                case 0 -> new RNode.Cmp(c.s.of(Gen.CMP), x, y);
                case 1 -> new RNode.Cmp(c.s.of(Gen.CMP), y, x);
                case 2 -> new RNode.In(absent, c.s.coin(), List.of(y));
                case 3 -> new RNode.Arr(absent, c.s.of("CONTAINS_ANY", "CONTAINS_ALL"), List.of(y));
                case 4 -> new RNode.Range(absent, Gen.lit(1), Gen.lit(5));
                case 5 -> x;
                case 6 -> new RNode.Not(x);
                case 7 -> new RNode.Cmp(">", new RNode.Arith(c.s.of(Gen.ARITH), x, one), one);
                case 8 -> new RNode.Cmp(">", new RNode.Arith(c.s.of(Gen.ARITH), one, new RNode.Neg(x)), one);
                case 9 -> new RNode.Cmp("<", one, new RNode.Fn(c.s.of("MIN", "MAX", "SUM", "AVG", "MEAN", "MODE", "MEDIAN", "LEN", "INT", "DAYS_ELAPSED"), List.of(x)));
                case 10 -> new RNode.Cmp("<", one, new RNode.Fn(c.s.of("MIN", "MAX", "SUM"), List.of(one, x, one)));
                default -> new RNode.In(flag, c.s.coin(), List.of(Gen.lit(b), x));
            };
            final RNode whole = switch (c.s.draw(4)) {
                case 0 -> new RNode.Not(use);
                case 1 -> new RNode.Bool(b ? "AND" : "OR", field(flag), use);
                case 2 -> new RNode.Bool(c.s.of("AND", "OR"), use, field(flag));
                default -> use;
            };
            final String text = Printer.print(whole, Printer.any(c.s));
            c.note("expression: " + Show.text(text));
            c.executions++;
            final Out o = Impl.bool(text, data, null);
            if (!o.failed() || !Impl.dataNotFound(o.error())) {
                throw c.fail("the field " + absent + " has no value, but " + Show.text(text) + " gives " + o + " instead of a DataNotFoundException failure");
            }
            final RNode a = c.s.coin() ? new RNode.Arith(c.s.of(Gen.ARITH), one, x) : x;
            final String at = Printer.print(a, Printer.any(c.s));
            c.executions++;
            final Out ao = Impl.arith(at, data);
            if (!ao.failed() || !Impl.dataNotFound(ao.error())) {
                throw c.fail("the field " + absent + " has no value, but " + Show.text(at) + " gives " + ao + " instead of a DataNotFoundException failure");
            }
            c.nontrivial = true;
            c.label("depth_" + absent.split("\\.").length);
        });
        reg("C16", 140000, 800_000, "an expression with comparison and arithmetic operands, some of which are the default field and left out of the text; compared with the text that names the field, and with no default; "
                + "non-trivial: at least one operand is left out", c -> {
            final World w = new World(c.s);
            final Gen g = new Gen(w);
            final Object x = c.s.chance(50) ? g.v.number() : g.v.scalar();
            final boolean absent = c.s.chance(5);
            final String df = absent ? w.missing() : w.bind(x);
            final RNode n = defaults(g, df, x, c.s.range(0, 4));
            final RNode explicit = Printer.fill(n, df);
            c.note("data: " + w.show());
            c.note("default field: " + df);
            final String text = Printer.print(n, Printer.any(c.s), df);
            if (!Printer.readsAs(text, df, explicit)) {
                c.label("not_printable");
                return;
            }
            final String full = Printer.print(explicit, Printer.plain(c.s));
            c.note("expression: " + Show.text(text));
            c.note("explicit:   " + Show.text(full));
            c.executions += 4;
            final Out p = Impl.parse(text, df);
            final Out q = Impl.parse(full, c.s.of(null, df, "other"));
            if (p.failed() || q.failed()) {
                throw c.fail("parsing with the default field: " + p + "\n  parsing the explicit text: " + q);
            }
            final RNode a = Impl.canonical(Impl.tree((com.github.sidhant92.boolparser.domain.logical.Node) p.value()));
            final RNode b = Impl.canonical(Impl.tree((com.github.sidhant92.boolparser.domain.logical.Node) q.value()));
            if (!a.equals(b)) {
                throw c.fail("with the default field it is read as\n  " + a + "\nwith the field written out\n  " + b);
            }
            final Out u = Impl.bool(text, w.data(), df);
            final Out v = Impl.bool(full, w.data(), c.s.of(null, df, "other", ""));
            if (u.mask() != v.mask()) {
                throw c.fail("with the default field it evaluates to " + u + "\nwith the field written out to " + v);
            }
            Checks.bool(c, w.data(), text, df);
            if (!n.equals(explicit) && c.s.chance(25)) {
                odd(c, w, n, text, absent ? null : x, u);
            }
            if (!n.equals(explicit)) {
                // without a default field an operand cannot be left out
                for (final String none : Arrays.asList(null, "", "  ")) {
                    c.executions++;
                    final Out o = Impl.bool(text, w.data(), none);
                    if (!o.failed() && rejected(text)) {
                        throw c.fail("an operand is left out and there is no default field (" + none + "), yet it evaluates to " + o);
                    }
                }
                c.nontrivial = true;
            }
            c.label(Out.mask(u.mask()));
        });
    }

    /** The same with a default field whose name cannot be written in an expression. */
    private static void odd(final Ctx c, final World w, final RNode n, final String text, final Object x, final Out u) {
        final String name = w.odd();
        final Map<String, Object> data = new java.util.HashMap<>(w.data());
        if (x != null) {
            final int dot = name.indexOf('.');
            if (dot > 0) {
                data.put(name.substring(0, dot), new java.util.HashMap<>(java.util.Collections.singletonMap(name.substring(dot + 1), x instanceof RVersion r ? r.text() : x)));
            } else {
                data.put(name, x instanceof RVersion r ? r.text() : x);
            }
        }
        c.label("odd_name");
        c.note("default field: " + Show.text(name) + ", with the same value");
        c.executions += 2;
        final Out p = Impl.parse(text, name);
        if (p.failed()) {
            throw c.fail("with the default field " + Show.text(name) + " parsing gives " + p);
        }
        final RNode a = Impl.canonical(Impl.tree((com.github.sidhant92.boolparser.domain.logical.Node) p.value()));
        final RNode b = Impl.canonical(Printer.fill(n, name));
        if (!a.equals(b)) {
            throw c.fail("with the default field " + Show.text(name) + " it is read as\n  " + a + "\n  expected " + b);
        }
        final Out o = Impl.bool(text, data, name);
        if (o.mask() != u.mask() || o.failed() && Impl.dataNotFound(o.error()) != Impl.dataNotFound(u.error())) {
            throw c.fail("with the default field " + Show.text(name) + " it evaluates to " + o + "\nwith the plain name to " + u);
        }
    }

    private static boolean rejected(final String text) {
        try {
            RefParser.parse(text, null);
            return false;
        } catch (final RefParser.Reject ex) {
            return true;
        } catch (final RefParser.Unspecified ex) {
            return false;
        }
    }

    private static RNode self(final Gen g, final String df) {
        return g.s.chance(70) ? new RNode.Empty() : field(df);
    }

    private static RNode defaults(final Gen g, final String df, final Object x, final int depth) {
        final Source s = g.s;
        if (depth > 0 && s.chance(75)) {
            return s.chance(20) ? new RNode.Not(defaults(g, df, x, depth - 1))
                    : new RNode.Bool(s.of("AND", "OR"), defaults(g, df, x, depth - 1), s.chance(25) ? g.atom(1) : defaults(g, df, x, depth - 1));
        }
        final Object y = g.near(x);
        final RNode o = g.number(y);
        return switch (s.weighted(60, 12, 15, 8, 5)) {
            case 0 -> new RNode.Cmp(s.of(Gen.CMP), self(g, df), o);
            case 1 -> new RNode.Cmp(s.of(Gen.CMP), o, self(g, df));
            case 2 -> new RNode.Cmp(s.of(Gen.CMP), new RNode.Arith(s.of("+", "*", "/", "^", "%"), self(g, df), Gen.lit(s.range(1, 5))), g.number(s.range(-5, 50)));
            case 3 -> new RNode.Cmp(s.of("=", "!="), self(g, df), field("null"));
            default -> new RNode.Cmp(s.of(Gen.CMP), self(g, df), self(g, df));
        };
    }
}
