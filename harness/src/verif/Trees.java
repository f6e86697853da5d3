package verif;

import static verif.Props.reg;

import com.github.sidhant92.boolparser.application.ArithmeticExpressionEvaluator;
import com.github.sidhant92.boolparser.application.BooleanExpressionEvaluator;
import com.github.sidhant92.boolparser.constant.DataType;
import com.github.sidhant92.boolparser.constant.FunctionType;
import com.github.sidhant92.boolparser.constant.LogicalOperationType;
import com.github.sidhant92.boolparser.constant.Operator;
import com.github.sidhant92.boolparser.domain.FieldNode;
import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticFunctionNode;
import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticNode;
import com.github.sidhant92.boolparser.domain.arithmetic.UnaryNode;
import com.github.sidhant92.boolparser.domain.logical.ArrayNode;
import com.github.sidhant92.boolparser.domain.logical.BooleanNode;
import com.github.sidhant92.boolparser.domain.logical.ComparisonNode;
import com.github.sidhant92.boolparser.domain.logical.InNode;
import com.github.sidhant92.boolparser.domain.logical.Node;
import com.github.sidhant92.boolparser.domain.logical.NumericRangeNode;
import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import com.github.sidhant92.boolparser.parser.antlr.CachedBoolParser;
import io.vavr.control.Try;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.math.BigDecimal;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.util.ArrayList;
import java.util.Collections;
import java.util.LinkedList;
import java.util.List;
import java.util.Map;

/** The evaluators with other parsers than the library's, and syntax trees as values. */
final class Trees {
    private Trees() {
    }

    /** The public builders are not there (any more): nothing to say. */
    private static final class NoBuilder extends RuntimeException {
        NoBuilder(final Throwable cause) {
            super(cause);
        }
    }

    private static Node build(final Class<?> type, final Object... namesAndValues) {
        try {
            final Object b = type.getMethod("builder").invoke(null);
            for (int i = 0; i < namesAndValues.length; i += 2) {
                Method set = null;
                for (final Method m : b.getClass().getMethods()) {
                    if (m.getName().equals(namesAndValues[i]) && m.getParameterCount() == 1) {
                        set = m;
                    }
                }
                if (set == null) {
                    throw new NoSuchMethodException(type + " " + namesAndValues[i]);
                }
                set.setAccessible(true);
                set.invoke(b, namesAndValues[i + 1]);
            }
            final Method build = b.getClass().getMethod("build");
            build.setAccessible(true);
            return (Node) build.invoke(b);
        } catch (final ReflectiveOperationException | RuntimeException ex) {
            throw new NoBuilder(ex);
        }
    }

    private static Operator operator(final String symbol) {
        return Operator.valueOf(switch (symbol) {
            case "=" -> "EQUALS";
            case "!=" -> "NOT_EQUAL";
            case ">" -> "GREATER_THAN";
            case ">=" -> "GREATER_THAN_EQUAL";
            case "<" -> "LESS_THAN";
            case "<=" -> "LESS_THAN_EQUAL";
            case "+" -> "ADD";
            case "-" -> "SUBTRACT";
            case "*" -> "MULTIPLY";
            case "/" -> "DIVIDE";
            case "%" -> "MODULUS";
            case "^" -> "EXPONENT";
            default -> symbol;
        });
    }

    private static List<Node> listOf(final Source s, final List<Node> l) {
        return switch (s.draw(4)) {
            case 0 -> List.copyOf(l);
            case 1 -> Collections.unmodifiableList(l);
            case 2 -> new LinkedList<>(l);
            default -> l;
        };
    }

    /** The same tree made anew. */
    static Node copy(final Source s, final Node n) {
        return switch (n) {
            case ComparisonNode c -> build(ComparisonNode.class, "left", copy(s, c.getLeft()), "right", copy(s, c.getRight()), "operator", c.getOperator(), "dataType", c.getDataType());
            case ArithmeticNode a -> build(ArithmeticNode.class, "left", copy(s, a.getLeft()), "right", a.getRight() == null ? null : copy(s, a.getRight()), "operator", a.getOperator());
            case ArithmeticFunctionNode f -> build(ArithmeticFunctionNode.class, "functionType", f.getFunctionType(), "items", copies(s, f.getItems()));
            case UnaryNode u -> build(UnaryNode.class, "dataType", u.getDataType(), "value", u.getValue());
            case FieldNode f -> build(FieldNode.class, "field", new String(f.getField().toCharArray()));
            case BooleanNode b -> build(BooleanNode.class, "left", copy(s, b.getLeft()), "right", b.getRight() == null ? null : copy(s, b.getRight()), "operator", b.getOperator());
            case InNode i -> build(InNode.class, "field", i.getField(), "items", copies(s, i.getItems()));
            case ArrayNode a -> build(ArrayNode.class, "field", a.getField(), "operator", a.getOperator(), "items", copies(s, a.getItems()));
            case NumericRangeNode r -> build(NumericRangeNode.class, "field", r.getField(), "fromValue", r.getFromValue(), "toValue", r.getToValue(), "fromDataType", r.getFromDataType(), "toDataType",
                                             r.getToDataType());
            default -> throw new NoBuilder(null);
        };
    }

    private static List<Node> copies(final Source s, final List<Node> l) {
        final List<Node> out = new ArrayList<>();
        l.forEach(n -> out.add(copy(s, n)));
        return listOf(s, out);
    }

    private static DataType type(final Object v) {
        return DataType.valueOf(v instanceof Integer ? "INTEGER" : v instanceof Long ? "LONG" : v instanceof BigDecimal ? "DECIMAL" : v instanceof Boolean ? "BOOLEAN" : v instanceof LocalDate ? "DATE"
                : v instanceof LocalDateTime ? "DATETIME" : "STRING");
    }

    /** The library's tree for a reference tree, whatever values it has. */
    static Node of(final Source s, final RNode n) {
        return switch (n) {
            case RNode.Cmp c -> build(ComparisonNode.class, "left", of(s, c.l()), "right", of(s, c.r()), "operator", operator(c.op()), "dataType",
                                      c.r() instanceof RNode.Lit l && !(l.value() instanceof RVersion) ? type(l.value()) : DataType.STRING);
            case RNode.Arith a -> build(ArithmeticNode.class, "left", of(s, a.l()), "right", of(s, a.r()), "operator", operator(a.op()));
            case RNode.Neg x -> build(ArithmeticNode.class, "left", of(s, x.x()), "operator", Operator.UNARY);
            case RNode.Not x -> build(BooleanNode.class, "left", of(s, x.x()), "operator", LogicalOperationType.NOT);
            case RNode.Bool b -> build(BooleanNode.class, "left", of(s, b.l()), "right", of(s, b.r()), "operator", LogicalOperationType.valueOf(b.op()));
            case RNode.Fn f -> build(ArithmeticFunctionNode.class, "functionType", FunctionType.valueOf(f.name()), "items", all(s, f.items()));
            case RNode.Field f -> build(FieldNode.class, "field", f.name());
            case RNode.Lit l -> {
                if (l.value() instanceof RVersion) {
                    throw new NoBuilder(null);
                }
                yield build(UnaryNode.class, "dataType", type(l.value()), "value", l.value());
            }
            case RNode.In i -> {
                final Node in = build(InNode.class, "field", i.field(), "items", all(s, i.items()));
                yield i.not() ? build(BooleanNode.class, "left", in, "operator", LogicalOperationType.NOT) : in;
            }
            case RNode.Arr a -> build(ArrayNode.class, "field", a.field(), "operator", operator(a.op()), "items", all(s, a.items()));
            case RNode.Range r -> build(NumericRangeNode.class, "field", r.field(), "fromValue", r.lo().value(), "toValue", r.hi().value(), "fromDataType", type(r.lo().value()), "toDataType",
                                        type(r.hi().value()));
            case RNode.Empty e -> throw new NoBuilder(null);
        };
    }

    private static List<Node> all(final Source s, final List<RNode> l) {
        final List<Node> out = new ArrayList<>();
        l.forEach(n -> out.add(of(s, n)));
        return listOf(s, out);
    }

    /** The tree with some fields of values replaced by the values themselves, also ones no literal can spell. */
    private static RNode inline(final Gen g, final RNode n, final boolean bool) {
        return switch (n) {
            case RNode.Field f -> {
                final Object v = g.w.bound.get(f.name());
                final boolean can = v instanceof Integer || v instanceof Long || v instanceof BigDecimal || v instanceof String || v instanceof LocalDate || v instanceof LocalDateTime;
                yield can && !bool && g.s.chance(70) ? Gen.lit(v) : n;
            }
            case RNode.Cmp c -> new RNode.Cmp(c.op(), inline(g, c.l(), false), inline(g, c.r(), false));
            case RNode.Arith c -> new RNode.Arith(c.op(), inline(g, c.l(), false), inline(g, c.r(), false));
            case RNode.Bool c -> new RNode.Bool(c.op(), inline(g, c.l(), true), inline(g, c.r(), true));
            case RNode.Neg c -> new RNode.Neg(inline(g, c.x(), false));
            case RNode.Not c -> new RNode.Not(inline(g, c.x(), true));
            case RNode.Fn c -> new RNode.Fn(c.name(), c.items().stream().map(i -> inline(g, i, false)).toList());
            case RNode.In c -> new RNode.In(c.field(), c.not(), c.items().stream().map(i -> inline(g, i, false)).toList());
            case RNode.Arr c -> new RNode.Arr(c.field(), c.op(), c.items().stream().map(i -> inline(g, i, false)).toList());
            default -> n;
        };
    }

    /** A parser that answers what it is told to. */
    private static final class Stub implements BoolExpressionParser {
        Try<Node> answer;
        final List<String> texts = new ArrayList<>();
        final List<String> defaults = new ArrayList<>();

        @Override
        public Try<Node> parseExpression(final String expression) {
            return parseExpression(expression, null);
        }

        @Override
        public Try<Node> parseExpression(final String expression, final String defaultField) {
            texts.add(expression);
            defaults.add(defaultField);
            return answer;
        }
    }

    private static void asked(final Ctx c, final Stub p, final String text, final String df) {
        if (p.texts.isEmpty()) {
            throw c.fail("the evaluator did not ask its parser");
        }
        for (int i = 0; i < p.texts.size(); i++) {
            final String d = p.defaults.get(i);
            if (!text.equals(p.texts.get(i)) || !(df == null || df.isEmpty() ? d == null || d.isEmpty() : df.equals(d))) {
                throw c.fail("the evaluator was given " + Show.text(text) + " with default field " + df + ", but asked its parser for " + Show.text(p.texts.get(i)) + " with default field " + d);
            }
        }
        p.texts.clear();
        p.defaults.clear();
    }

    private static boolean causedBy(final Throwable t, final Throwable cause) {
        for (Throwable x = t; x != null; x = x.getCause()) {
            if (x == cause) {
                return true;
            }
        }
        return false;
    }

    static void register() {
        reg("C29", 100000, 600_000, "(a) evaluators over a parser that returns rebuilt or hand-built trees (also with values no literal spells, in every kind of list), different trees for one text, or failures, against the "
                + "text the tree stands for or the reference; what the parser is asked for; also after parts of a tree were replaced; (b) trees from BoolParser changed by their setters, then the text parsed again; (c) the calls with and without default "
                + "field argument; non-trivial: at least 3 nodes and an evaluation that succeeds, or (b)", c -> {
            try {
                one(c);
            } catch (final NoBuilder ex) {
                c.label("not_buildable");
                c.nontrivial = false;
            }
        });
    }

    private static void one(final Ctx c) {
        final Source s = c.s;
        final World w = new World(s);
        final Gen g = new Gen(w);
        g.missing = s.chance(10) ? 5 : 0;
        switch (s.weighted(5, 4, 3, 3, 3)) {
            case 4 -> grafted(c, g);
            case 0 -> rebuilt(c, g);
            case 1 -> handMade(c, g);
            case 2 -> fresh(c, g);
            default -> overloads(c, g);
        }
    }

    private static void rebuilt(final Ctx c, final Gen g) {
        final Source s = c.s;
        final int n = s.range(1, 3);
        final List<RNode> trees = new ArrayList<>();
        final List<String> texts = new ArrayList<>();
        for (int i = 0; i < n; i++) {
            trees.add(s.weighted(3, 2, 1) == 0 ? g.bool(2) : s.coin() ? g.numeric(2) : g.any(2));
            texts.add(Printer.print(trees.get(i), Printer.any(s)));
        }
        final Map<String, Object> data = g.w.data();
        c.note("data: " + Show.value(data));
        final Stub p = new Stub();
        final BooleanExpressionEvaluator be = new BooleanExpressionEvaluator(p);
        final ArithmeticExpressionEvaluator ae = new ArithmeticExpressionEvaluator(p);
        final String asked = s.of("the text", "", "(", "a = 1", texts.get(0));
        final String df = s.of(null, null, "d", "a.b", "");
        c.label("rebuilt");
        for (int i = s.range(1, 6); i > 0; i--) {
            final int k = s.draw(n);
            if (s.chance(10)) {
                final Throwable t = new IllegalStateException("no tree today");
                p.answer = Try.failure(t);
                c.note("step: the parser fails");
                c.executions += 2;
                for (final Out o : List.of(Impl.bool(be, asked, data, df), Impl.arith(ae, asked, data))) {
                    if (!o.failed() || !causedBy(o.error(), t)) {
                        throw c.fail("the parser fails with " + t + ", but the evaluation gives " + o);
                    }
                }
                askedTwice(c, p, asked, df);
                continue;
            }
            final Out parsed = Impl.parse(texts.get(k), null);
            if (parsed.failed()) {
                throw c.fail("parsing " + Show.text(texts.get(k)) + " fails: " + parsed);
            }
            p.answer = Try.success(copy(s, (Node) parsed.value()));
            final boolean arith = s.coin();
            c.note("step: " + (arith ? "arithmetic" : "boolean") + ", the tree of " + Show.text(texts.get(k)) + " made anew");
            c.executions += 2;
            final Out got = arith ? Impl.arith(ae, asked, data) : Impl.bool(be, asked, data, df);
            final Out want = arith ? Impl.arith(texts.get(k), data) : Impl.bool(texts.get(k), data, null);
            if (!Checks.same(got, want)) {
                throw c.fail("from the tree: " + got + "\nfrom the text: " + want);
            }
            asked(c, p, asked, arith ? null : df);
            c.nontrivial |= !got.failed() && RNode.size(trees.get(k)) >= 3;
        }
    }

    /** After one boolean and one arithmetic evaluation. */
    private static void askedTwice(final Ctx c, final Stub p, final String text, final String df) {
        for (int i = 0; i < p.texts.size(); i++) {
            final String d = p.defaults.get(i);
            if (!text.equals(p.texts.get(i)) || d != null && !d.isEmpty() && !d.equals(df)) {
                throw c.fail("the evaluator was given " + Show.text(text) + " with default field " + df + ", but asked its parser for " + Show.text(p.texts.get(i)) + " with default field " + d);
            }
        }
        p.texts.clear();
        p.defaults.clear();
    }

    private static void handMade(final Ctx c, final Gen g) {
        final Source s = c.s;
        final boolean bool = s.chance(60);
        final RNode raw = bool ? s.chance(20) ? range(g) : g.bool(2) : g.numeric(2);
        final RNode n = inline(g, raw, bool);
        final Map<String, Object> data = g.w.data();
        c.note("data: " + Show.value(data));
        c.note("tree: " + n);
        final Stub p = new Stub();
        p.answer = Try.success(of(s, n));
        c.label("hand_made");
        c.executions++;
        if (bool) {
            final int m = new RefEval(data).bool(n);
            final Out o = Impl.bool(new BooleanExpressionEvaluator(p), "the tree", data, null);
            if ((o.mask() & m) == 0) {
                throw c.fail("the tree evaluates to " + o + "\n  expected " + Out.mask(m));
            }
            c.nontrivial = !o.failed() && RNode.size(n) >= 3;
        } else {
            final RefEval.Val v = new RefEval(data).arith(n);
            final Out o = Impl.arith(new ArithmeticExpressionEvaluator(p), "the tree", data);
            final String why = Checks.mismatch(v, o);
            if (why != null) {
                throw c.fail("the tree evaluates to " + o + "\n  expected " + v + why);
            }
            c.nontrivial = !o.failed() && RNode.size(n) >= 3;
        }
    }

    private static RNode range(final Gen g) {
        final Object x = g.v.number();
        final Object lo = whole(g, g.v.nearNumber(x));
        final Object hi = whole(g, g.v.nearNumber(x));
        return new RNode.Range(g.w.bind(x), Gen.lit(lo), Gen.lit(hi));
    }

    /** The bounds a range node may have: Integer, Long or BigDecimal, of any sign. */
    private static Object whole(final Gen g, final Object x) {
        return x instanceof Integer || x instanceof Long || x instanceof BigDecimal ? x : RefEval.num(x);
    }

    private record Slot(java.util.function.Consumer<Node> put, boolean bool, boolean item) {
    }

    private static void set(final Node n, final String setter, final Node value) {
        try {
            n.getClass().getMethod(setter, Node.class).invoke(n, value);
        } catch (final ReflectiveOperationException ex) {
            throw new NoBuilder(ex);
        }
    }

    private static void slots(final Node n, final List<Slot> out) {
        switch (n) {
            case BooleanNode b -> {
                out.add(new Slot(x -> set(b, "setLeft", x), true, false));
                slots(b.getLeft(), out);
                if (b.getRight() != null) {
                    out.add(new Slot(x -> set(b, "setRight", x), true, false));
                    slots(b.getRight(), out);
                }
            }
            case ArithmeticNode a -> {
                out.add(new Slot(x -> set(a, "setLeft", x), false, false));
                slots(a.getLeft(), out);
                if (a.getRight() != null) {
                    out.add(new Slot(x -> set(a, "setRight", x), false, false));
                    slots(a.getRight(), out);
                }
            }
            case ComparisonNode c -> {
                slots(c.getLeft(), out);
                slots(c.getRight(), out);
            }
            case ArithmeticFunctionNode f -> items(f.getItems(), out);
            case InNode i -> items(i.getItems(), out);
            case ArrayNode a -> items(a.getItems(), out);
            default -> {
            }
        }
    }

    private static void items(final List<Node> l, final List<Slot> out) {
        for (int i = 0; i < l.size(); i++) {
            final int at = i;
            out.add(new Slot(n -> l.set(at, n), false, true));
            slots(l.get(i), out);
        }
    }

    /** A tree of which parts are replaced between two evaluations by the same evaluator. */
    private static void grafted(final Ctx c, final Gen g) {
        final Source s = c.s;
        final boolean arith = s.chance(40);
        final Node t = of(s, arith ? g.numeric(2) : g.bool(2));
        final Stub p = new Stub();
        p.answer = Try.success(t);
        final BooleanExpressionEvaluator be = new BooleanExpressionEvaluator(p);
        final ArithmeticExpressionEvaluator ae = new ArithmeticExpressionEvaluator(p);
        c.label("grafted");
        c.note("tree: " + Impl.tree(t));
        int done = 0;
        final int rounds = s.range(2, 4);
        final List<RNode> grafts = new ArrayList<>();
        for (int i = 0; i < rounds; i++) {
            grafts.add(g.bool(1));
            grafts.add(g.leaf(g.v.scalar()));
            grafts.add(g.numeric(1));
        }
        final Map<String, Object> data = g.w.data();
        for (int i = 0; i < rounds; i++) {
            c.executions += 2;
            final Out got = arith ? Impl.arith(ae, "the tree", data) : Impl.bool(be, "the tree", data, null);
            final Stub q = new Stub();
            q.answer = Try.success(copy(s, t));
            final Out want = arith ? Impl.arith(new ArithmeticExpressionEvaluator(q), "the tree", data) : Impl.bool(new BooleanExpressionEvaluator(q), "the tree", data, null);
            if (!Checks.same(got, want)) {
                c.note("data: " + Show.value(data));
                throw c.fail("after " + done + " changes the tree evaluates to " + got + "\n  made anew: " + want);
            }
            c.nontrivial |= done > 0 && !got.failed();
            final List<Slot> slots = new ArrayList<>();
            slots(t, slots);
            if (slots.isEmpty()) {
                return;
            }
            final Slot at = s.of(slots);
            final RNode n = grafts.get(3 * i + (at.bool() ? 0 : at.item() ? 1 : 2));
            try {
                at.put().accept(of(s, n));
                done++;
                c.note("changed by " + n + " to: " + Impl.tree(t));
            } catch (final UnsupportedOperationException ex) {
                // an unmodifiable list
            }
        }
    }

    // ------------------------------------------------------------ trees belong to the caller

    /** Calls the setters of every node of the tree and empties its lists, as far as they allow it. */
    private static int spoil(final Node n, final int depth) {
        int done = 0;
        if (n == null || depth > 50) {
            return 0;
        }
        for (final Method m : n.getClass().getMethods()) {
            if (m.getName().startsWith("get") && m.getParameterCount() == 0) {
                try {
                    final Object x = m.invoke(n);
                    if (x instanceof Node k) {
                        done += spoil(k, depth + 1);
                    } else if (x instanceof List<?> l) {
                        for (final Object k : l) {
                            done += k instanceof Node q ? spoil(q, depth + 1) : 0;
                        }
                        l.clear();
                        done++;
                    }
                } catch (final ReflectiveOperationException | RuntimeException ex) {
                    // an unmodifiable list
                }
            }
        }
        for (final Method m : n.getClass().getMethods()) {
            if (m.getName().startsWith("set") && m.getParameterCount() == 1) {
                final Class<?> t = m.getParameterTypes()[0];
                try {
                    m.invoke(n, t.isEnum() ? t.getEnumConstants()[0] : null);
                    done++;
                } catch (final InvocationTargetException | IllegalAccessException | RuntimeException ex) {
                    // refused
                }
            }
        }
        return done;
    }

    private static void fresh(final Ctx c, final Gen g) {
        final Source s = c.s;
        final RNode n = s.coin() ? g.bool(2) : s.coin() ? g.numeric(2) : g.any(2);
        final String text = Printer.print(n, Printer.any(s));
        final BoolParser p = new BoolParser();
        c.note("data: " + g.w.show());
        c.note("expression: " + Show.text(text));
        c.label("changed_tree");
        c.executions += 5;
        final Out a = Impl.parse(p, text, null);
        final Out before = Impl.bool(text, g.w.data(), null);
        if (a.failed()) {
            throw c.fail("parsing fails: " + a);
        }
        final RNode shape = More.treeOf(a);
        final int changes = spoil((Node) a.value(), 0);
        c.note("changes made to the first tree: " + changes);
        for (final BoolParser q : List.of(p, new BoolParser())) {
            final Out b = Impl.parse(q, text, null);
            if (b.failed() || !More.treeOf(b).equals(shape)) {
                throw c.fail("after the tree of an earlier parse was changed, the text is read as " + (b.failed() ? b : More.treeOf(b)) + "\n  before: " + shape);
            }
        }
        final Out after = Impl.bool(new BooleanExpressionEvaluator(p), text, g.w.data(), null);
        if (before.mask() != after.mask()) {
            throw c.fail("after the tree of an earlier parse was changed, the text evaluates to " + after + "\n  before: " + before);
        }
        c.nontrivial = changes > 0 && RNode.size(n) >= 3;
    }

    // ------------------------------------------------------------ calls with and without default field

    private static void overloads(final Ctx c, final Gen g) {
        final Source s = c.s;
        final String text = s.chance(80) ? Printer.print(s.coin() ? g.bool(2) : g.any(2), Printer.any(s)) : More.garbage(s, g);
        final Map<String, Object> data = g.w.data();
        c.note("data: " + Show.value(data));
        c.note("expression: " + Show.text(text));
        c.label("overloads");
        c.executions += 6;
        final BoolExpressionParser p = s.coin() ? new BoolParser() : new CachedBoolParser(5);
        final BooleanExpressionEvaluator e = new BooleanExpressionEvaluator(p);
        final Out a = Impl.call("parsing", () -> p.parseExpression(text));
        final Out b = Impl.bool(e, text, data, null);
        for (final String df : new String[] {null, ""}) {
            final Out x = Impl.call("parsing", () -> p.parseExpression(text, df));
            if (a.failed() != x.failed() || !a.failed() && !More.treeOf(a).equals(More.treeOf(x))) {
                throw c.fail("parseExpression(text): " + (a.failed() ? a : More.treeOf(a)) + "\nparseExpression(text, " + Show.value(df) + "): " + (x.failed() ? x : More.treeOf(x)));
            }
            final Out y = Impl.call("evaluating", () -> e.evaluate(text, data, df));
            if (b.mask() != y.mask()) {
                throw c.fail("evaluate(text, data): " + b + "\nevaluate(text, data, " + Show.value(df) + "): " + y);
            }
        }
        c.nontrivial = !b.failed();
    }
}
