package verif;

import com.github.sidhant92.boolparser.application.ArithmeticExpressionEvaluator;
import com.github.sidhant92.boolparser.application.BooleanExpressionEvaluator;
import com.github.sidhant92.boolparser.constant.DataType;
import com.github.sidhant92.boolparser.constant.Operator;
import com.github.sidhant92.boolparser.domain.FieldNode;
import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticFunctionNode;
import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticNode;
import com.github.sidhant92.boolparser.domain.arithmetic.UnaryNode;
import com.github.sidhant92.boolparser.domain.logical.ArrayNode;
import com.github.sidhant92.boolparser.domain.logical.BooleanNode;
import com.github.sidhant92.boolparser.domain.logical.ComparisonNode;
import com.github.sidhant92.boolparser.domain.logical.InNode;
import com.github.sidhant92.boolparser.domain.logical.Node;
import com.github.sidhant92.boolparser.domain.logical.NumericRangeNode;
import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import com.github.sidhant92.boolparser.parser.antlr.CachedBoolParser;
import java.lang.reflect.Method;
import java.math.BigDecimal;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.util.ArrayList;
import java.util.Collections;
import java.util.Comparator;
import java.util.List;
import java.util.Map;
import org.apache.maven.artifact.versioning.ComparableVersion;

/** Returned trees as programs use them: walked by their node types, and changed by whoever asked for them. */
final class Nodes {
    private Nodes() {
    }

    // ------------------------------------------------------------ walking

    /** The tree as a program sees it that goes by what each node says it is. */
    static RNode walk(final Node n) {
        part(n, "node", "a tree");
        part(n.getTokenType(), "node type", n);
        return switch (n.getTokenType().name()) {
            case "BOOLEAN" -> {
                final BooleanNode b = (BooleanNode) n;
                part(b.getOperator(), "operator", n);
                part(b.getLeft(), "operand", n);
                if (b.getOperator().name().equals("NOT")) {
                    if (b.getRight() != null) {
                        throw new Violation("the NOT of " + walk(b.getLeft()) + " has a second operand: " + walk(b.getRight()));
                    }
                    final RNode x = walk(b.getLeft());
                    yield new RNode.Not(x);
                }
                part(b.getRight(), "right operand", n);
                yield new RNode.Bool(b.getOperator().name(), walk(b.getLeft()), walk(b.getRight()));
            }
            case "COMPARISON" -> {
                final ComparisonNode c = (ComparisonNode) n;
                part(c.getDataType(), "data type", n);
                final String op = Impl.symbol(part(c.getOperator(), "operator", n));
                final RNode l = walk(part(c.getLeft(), "left operand", n));
                final RNode r = walk(part(c.getRight(), "right operand", n));
                final boolean check = (op.equals("=") || op.equals("!=")) && (RefEval.isNull(l) || RefEval.isNull(r));
                if (c.isNullCheck() != check) {
                    throw new Violation("the comparison " + l + " " + op + " " + r + " says of itself that it is " + (check ? "no " : "a ") + "null check");
                }
                yield new RNode.Cmp(op, l, r);
            }
            case "NUMERIC_RANGE" -> {
                final NumericRangeNode r = (NumericRangeNode) n;
                yield new RNode.Range(part(r.getField(), "field", n), literal(r.getFromDataType(), r.getFromValue(), n), literal(r.getToDataType(), r.getToValue(), n));
            }
            case "IN" -> {
                final InNode i = (InNode) n;
                yield new RNode.In(part(i.getField(), "field", n), false, items(i.getItems(), n));
            }
            case "ARRAY" -> {
                final ArrayNode a = (ArrayNode) n;
                yield new RNode.Arr(part(a.getField(), "field", n), Impl.symbol(part(a.getOperator(), "operator", n)), items(a.getItems(), n));
            }
            case "UNARY" -> {
                final UnaryNode u = (UnaryNode) n;
                yield literal(u.getDataType(), u.getValue(), n);
            }
            case "FIELD" -> {
                final FieldNode f = (FieldNode) n;
                if (f.isNull() != part(f.getField(), "name", n).equalsIgnoreCase("null")) {
                    throw new Violation("the field " + f.getField() + " says of itself that it is " + (f.isNull() ? "null" : "not null"));
                }
                yield new RNode.Field(f.getField());
            }
            case "ARITHMETIC" -> {
                final ArithmeticNode a = (ArithmeticNode) n;
                part(a.getOperator(), "operator", n);
                part(a.getLeft(), "operand", n);
                yield a.getOperator() == Operator.UNARY ? new RNode.Neg(walk(a.getLeft())) : new RNode.Arith(Impl.symbol(a.getOperator()), walk(a.getLeft()), walk(part(a.getRight(), "right operand", n)));
            }
            case "ARITHMETIC_FUNCTION" -> {
                final ArithmeticFunctionNode f = (ArithmeticFunctionNode) n;
                yield new RNode.Fn(part(f.getFunctionType(), "function", n).name(), items(f.getItems(), n));
            }
            default -> throw new Violation("a node says it is " + n.getTokenType());
        };
    }

    private static <T> T part(final T x, final String what, final Object n) {
        if (x == null) {
            throw new Violation("a " + n.getClass().getSimpleName() + " has no " + what);
        }
        return x;
    }

    private static List<RNode> items(final List<Node> l, final Node n) {
        final List<RNode> out = new ArrayList<>();
        part(l, "items", n).forEach(i -> out.add(walk(part(i, "item", n))));
        return out;
    }

    private static RNode.Lit literal(final DataType t, final Object v, final Node n) {
        part(v, "value", n);
        final boolean fits = switch (part(t, "data type", n).name()) {
            case "INTEGER" -> v instanceof Integer;
            case "LONG" -> v instanceof Long;
            case "DECIMAL" -> v instanceof BigDecimal;
            case "BOOLEAN" -> v instanceof Boolean;
            case "VERSION" -> v instanceof ComparableVersion;
            case "DATE" -> v instanceof LocalDate;
            case "DATETIME" -> v instanceof LocalDateTime;
            default -> v instanceof String;
        };
        if (!fits) {
            throw new Violation("a literal of type " + t + " holds the " + v.getClass().getSimpleName() + " " + v);
        }
        return switch (t.name()) {
            case "INTEGER" -> new RNode.Lit("INT", v);
            case "LONG" -> new RNode.Lit("LONG", v);
            case "DECIMAL" -> new RNode.Lit("DEC", v);
            case "VERSION" -> new RNode.Lit("VER", new RVersion(v.toString()));
            case "BOOLEAN" -> new RNode.Lit("BOOL", v);
            case "DATE" -> new RNode.Lit("DATE", v);
            case "DATETIME" -> new RNode.Lit("DATETIME", v);
            default -> new RNode.Lit("STR", v);
        };
    }

    // ------------------------------------------------------------ changing

    /** Calls setters of the nodes and changes their lists, as far as they have any and allow it; true when something was done. */
    private static boolean scramble(final Source s, final Node n, final int intensity) {
        if (n == null) {
            return false;
        }
        final List<Object> below = new ArrayList<>();
        boolean done = false;
        final Method[] methods = n.getClass().getMethods();
        java.util.Arrays.sort(methods, Comparator.comparing(Method::getName));
        try {
            for (final Method m : methods) {
                if (m.getName().startsWith("get") && m.getParameterCount() == 0) {
                    final Object x = m.invoke(n);
                    if (x instanceof Node || x instanceof List) {
                        below.add(x);
                    }
                }
            }
            for (final Object x : below) {
                if (x instanceof Node b) {
                    done |= scramble(s, b, intensity);
                } else {
                    @SuppressWarnings("unchecked") final List<Node> l = (List<Node>) x;
                    for (final Node b : new ArrayList<>(l)) {
                        done |= scramble(s, b, intensity);
                    }
                    if (s.draw(100) < intensity) {
                        try {
                            switch (s.draw(4)) {
                                case 0 -> l.clear();
                                case 1 -> l.add(new FieldNode("strange"));
                                case 2 -> Collections.reverse(l);
                                default -> l.set(0, new FieldNode("strange"));
                            }
                            done = true;
                        } catch (final UnsupportedOperationException | IndexOutOfBoundsException e) {
                            // not allowed, or nothing there
                        }
                    }
                }
            }
            for (final Method m : methods) {
                if (m.getName().startsWith("set") && m.getParameterCount() == 1 && s.draw(100) < intensity) {
                    final Class<?> t = m.getParameterTypes()[0];
                    if (t.isEnum()) {
                        m.invoke(n, s.of((Object[]) t.getEnumConstants()));
                    } else if (t == Node.class) {
                        m.invoke(n, s.chance(25) ? null : new FieldNode("strange"));
                    } else if (!t.isPrimitive()) {
                        m.invoke(n, (Object) null);
                    }
                    done = true;
                }
            }
        } catch (final ReflectiveOperationException e) {
            throw new IllegalStateException(e);
        }
        return done;
    }

    private record Kept(String text, String df, Node node, RNode tree, BoolExpressionParser by) {
    }

    static void register() {
        Props.reg("C37", 90_000, 500_000, "1 to 4 expressions (sharing parts, with and without a default field) parsed by parsers of both kinds; each tree is walked by what its nodes say they are and compared with the reference; then some of the "
                + "trees are changed through setters and lists, after which all others, parsing and evaluating anew are compared with before; non-trivial: a tree was changed", c -> {
            final Source s = c.s;
            final World w = new World(s);
            w.nested = 10;
            final Gen g = new Gen(w);
            g.fields = 60;
            final List<RNode> nodes = new ArrayList<>();
            for (int i = s.range(1, 3); i > 0; i--) {
                RNode n = s.chance(20) ? g.chain(s.size(2, 30)) : s.chance(65) ? g.bool(s.range(1, 3)) : g.numeric(s.range(1, 3));
                if (!nodes.isEmpty() && s.chance(40)) {
                    final RNode o = s.of(nodes);
                    n = RNode.isBoolean(o) ? new RNode.Bool(s.of("AND", "OR"), o, RNode.isBoolean(n) ? n : new RNode.Cmp(">", n, Gen.lit(1))) : RNode.isBoolean(n) ? n : new RNode.Arith(s.of(Gen.ARITH), o, n);
                }
                nodes.add(n);
            }
            final List<String> texts = new ArrayList<>();
            nodes.forEach(n -> texts.add(Printer.print(n, Printer.any(s))));
            final String df = s.chance(30) ? w.bind(s.range(0, 9)) : null;
            if (df != null) {
                texts.add(s.of("> 5", "= 3 OR < 1", "NOT (>= 2)", "5 <", "!= 4 AND (> 1 OR < 9)"));
            }
            final Map<String, Object> data = w.data();
            c.note("data: " + w.show());
            final List<BoolExpressionParser> parsers = new ArrayList<>(List.of(new BoolParser(), new CachedBoolParser(s.of(100, 1, 2))));
            if (s.coin()) {
                parsers.add(s.coin() ? new BoolParser() : new CachedBoolParser(10));
            }
            // what is right, from nobody's tree
            final List<Out> bools = new ArrayList<>();
            final List<Out> ariths = new ArrayList<>();
            for (final String t : texts) {
                bools.add(Impl.bool(t, data, df));
                ariths.add(Impl.arith(t, data));
            }
            final List<Kept> kept = new ArrayList<>();
            for (int i = s.range(2, 7); i > 0; i--) {
                final String t = s.of(texts);
                kept.add(get(c, t, df, parsers.get(s.draw(parsers.size()))));
            }
            final List<Kept> changed = new ArrayList<>();
            for (int i = s.range(1, 2); i > 0; i--) {
                final Kept k = kept.get(s.draw(kept.size()));
                c.note("changed: the tree " + kept.indexOf(k) + " of " + Show.text(k.text));
                if (scramble(s, k.node, s.of(100, 50, 20))) {
                    changed.add(k);
                    c.nontrivial = true;
                }
            }
            // a cached parser gives the same tree to all who ask it for it; it is then as they leave it
            for (final Kept k : kept) {
                if (changed.stream().noneMatch(x -> x == k || x.by == k.by && k.by instanceof CachedBoolParser && x.text.equals(k.text)) && !walked(k.node).equals(k.tree)) {
                    throw c.fail("after a change to another tree, the tree of " + Show.text(k.text) + " got before reads\n  " + walked(k.node) + "\ninstead of\n  " + k.tree);
                }
            }
            for (int i = 0; i < texts.size(); i++) {
                final String t = texts.get(i);
                final List<BoolExpressionParser> clean = new ArrayList<>();
                parsers.stream().filter(p -> !(p instanceof CachedBoolParser) || changed.stream().noneMatch(x -> x.by == p)).forEach(clean::add);
                clean.add(s.coin() ? new BoolParser() : new CachedBoolParser(3));
                final BoolExpressionParser p = s.of(clean);
                get(c, t, df, p);
                c.executions += 2;
                final Out b = Impl.bool(new BooleanExpressionEvaluator(p), t, data, df);
                final Out a = Impl.arith(new ArithmeticExpressionEvaluator(p), t, data);
                if (b.mask() != bools.get(i).mask() || !Checks.same(a, ariths.get(i))) {
                    throw c.fail("after a change to a tree, " + Show.text(t) + " gives " + b + " and " + a + "\nbefore: " + bools.get(i) + " and " + ariths.get(i));
                }
            }
            c.label(changed.isEmpty() ? "unchanged" : "changed");
        });
    }

    private static RNode walked(final Node n) {
        try {
            return Impl.canonical(walk(n));
        } catch (final ClassCastException e) {
            throw new Violation("a node is not what its node type says: " + e.getMessage());
        }
    }

    private static Kept get(final Ctx c, final String t, final String df, final BoolExpressionParser p) {
        c.executions++;
        final Out o = Impl.parse(p, t, df);
        c.note("parsed: " + Show.text(t) + " default " + df + " by a " + p.getClass().getSimpleName());
        if (o.failed()) {
            throw c.fail("parsing fails: " + o);
        }
        final RNode want;
        try {
            want = Impl.canonical(RefParser.parse(t, df));
        } catch (final RefParser.Reject | RefParser.Unspecified ex) {
            throw new IllegalStateException("printed text rejected by the reference: " + t);
        }
        final RNode got = walked((Node) o.value());
        if (!got.equals(want)) {
            throw c.fail("walked by node types, the tree reads\n  " + got + "\nexpected\n  " + want);
        }
        return new Kept(t, df, (Node) o.value(), got, p);
    }
}
