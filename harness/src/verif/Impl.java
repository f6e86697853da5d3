package verif;

import com.github.sidhant92.boolparser.application.ArithmeticExpressionEvaluator;
import com.github.sidhant92.boolparser.application.BooleanExpressionEvaluator;
import com.github.sidhant92.boolparser.constant.Operator;
import com.github.sidhant92.boolparser.domain.FieldNode;
import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticFunctionNode;
import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticNode;
import com.github.sidhant92.boolparser.domain.arithmetic.UnaryNode;
import com.github.sidhant92.boolparser.domain.logical.ArrayNode;
import com.github.sidhant92.boolparser.domain.logical.BooleanNode;
import com.github.sidhant92.boolparser.domain.logical.ComparisonNode;
import com.github.sidhant92.boolparser.domain.logical.InNode;
import com.github.sidhant92.boolparser.domain.logical.Node;
import com.github.sidhant92.boolparser.domain.logical.NumericRangeNode;
import com.github.sidhant92.boolparser.exception.DataNotFoundException;
import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import io.vavr.control.Try;
import java.util.ArrayList;
import java.util.List;
import java.util.Map;
import java.util.concurrent.Callable;

/** The code under test, through its public interface. */
final class Impl {
    private Impl() {
    }

    static Out call(final String what, final Callable<Try<?>> c) {
        final Try<?> t;
        try {
            t = c.call();
        } catch (final Throwable e) {
            if (e instanceof Violation v) {
                throw v;
            }
            throw new Violation(what + " threw " + e.getClass().getName() + " instead of returning a Try (" + e.getMessage() + ")");
        }
        if (t == null) {
            throw new Violation(what + " returned null");
        }
        if (t.isFailure()) {
            return new Out(null, t.getCause());
        }
        if (t.get() == null) {
            throw new Violation(what + " returned a success without a value");
        }
        return new Out(t.get(), null);
    }

    static Out parse(final BoolExpressionParser p, final String text, final String df) {
        return call("parsing " + Show.value(text), () -> df == null ? p.parseExpression(text) : p.parseExpression(text, df));
    }

    static Out parse(final String text, final String df) {
        return parse(new BoolParser(), text, df);
    }

    static Out bool(final BooleanExpressionEvaluator e, final String text, final Map<String, Object> data, final String df) {
        return call("evaluating " + Show.value(text), () -> df == null ? e.evaluate(text, data) : e.evaluate(text, data, df));
    }

    static Out bool(final String text, final Map<String, Object> data, final String df) {
        return bool(new BooleanExpressionEvaluator(new BoolParser()), text, data, df);
    }

    static Out arith(final ArithmeticExpressionEvaluator e, final String text, final Map<String, Object> data) {
        return call("evaluating " + Show.value(text), () -> e.evaluate(text, data));
    }

    static Out arith(final String text, final Map<String, Object> data) {
        return arith(new ArithmeticExpressionEvaluator(new BoolParser()), text, data);
    }

    static boolean dataNotFound(final Throwable t) {
        return t instanceof DataNotFoundException;
    }

    // ---------------------------------------------------------------- syntax trees

    static String symbol(final Operator o) {
        return switch (o.name()) {
            case "EQUALS" -> "=";
            case "NOT_EQUAL" -> "!=";
            case "GREATER_THAN" -> ">";
            case "GREATER_THAN_EQUAL" -> ">=";
            case "LESS_THAN" -> "<";
            case "LESS_THAN_EQUAL" -> "<=";
            case "ADD" -> "+";
            case "SUBTRACT" -> "-";
            case "MULTIPLY" -> "*";
            case "DIVIDE" -> "/";
            case "MODULUS" -> "%";
            case "EXPONENT" -> "^";
            default -> o.name();
        };
    }

    private static RNode.Lit lit(final String type, final Object v) {
        return switch (type) {
            case "INTEGER" -> new RNode.Lit("INT", v);
            case "LONG" -> new RNode.Lit("LONG", v);
            case "DECIMAL" -> new RNode.Lit("DEC", v);
            case "VERSION" -> new RNode.Lit("VER", new RVersion(v.toString()));
            case "BOOLEAN" -> new RNode.Lit("BOOL", v);
            case "DATE" -> new RNode.Lit("DATE", v);
            case "DATETIME" -> new RNode.Lit("DATETIME", v);
            default -> new RNode.Lit("STR", v);
        };
    }

    /** The kind of literal a comparison says it is about. */
    static String comparisonType(final Node n) {
        return n instanceof ComparisonNode c && c.getDataType() != null ? lit(c.getDataType().name(), c.getDataType().name().equals("VERSION") ? "1.2.3" : null).kind() : "none";
    }

    private static List<RNode> list(final List<Node> l) {
        final List<RNode> out = new ArrayList<>();
        l.forEach(n -> out.add(tree(n)));
        return out;
    }

    static RNode tree(final Node n) {
        return switch (n) {
            case null -> throw new Violation("the syntax tree has a missing node");
            case ComparisonNode c -> new RNode.Cmp(symbol(c.getOperator()), tree(c.getLeft()), tree(c.getRight()));
            case ArithmeticNode a -> a.getOperator() == Operator.UNARY ? new RNode.Neg(tree(a.getLeft()))
                    : new RNode.Arith(symbol(a.getOperator()), tree(a.getLeft()), tree(a.getRight()));
            case ArithmeticFunctionNode f -> new RNode.Fn(f.getFunctionType().name(), list(f.getItems()));
            case UnaryNode u -> lit(u.getDataType().name(), u.getValue());
            case FieldNode f -> new RNode.Field(f.getField());
            case BooleanNode b -> switch (b.getOperator().name()) {
                case "NOT" -> {
                    final RNode x = tree(b.getLeft());
                    yield x instanceof RNode.In in && !in.not() ? new RNode.In(in.field(), true, in.items()) : new RNode.Not(x);
                }
                default -> new RNode.Bool(b.getOperator().name(), tree(b.getLeft()), tree(b.getRight()));
            };
            case InNode i -> new RNode.In(i.getField(), false, list(i.getItems()));
            case ArrayNode a -> new RNode.Arr(a.getField(), symbol(a.getOperator()), list(a.getItems()));
            case NumericRangeNode r -> new RNode.Range(r.getField(), lit(r.getFromDataType().name(), r.getFromValue()), lit(r.getToDataType().name(), r.getToValue()));
            default -> throw new Violation("unknown node " + n.getClass().getName());
        };
    }

    /** The tree form both sides are compared in: NOT (x IN ..) is x NOT IN .., and the operand of NOT is named by its text. */
    static RNode canonical(final RNode n) {
        return switch (n) {
            case RNode.Not x -> {
                final RNode c = canonical(x.x());
                if (c instanceof RNode.In in && !in.not()) {
                    yield new RNode.In(in.field(), true, in.items());
                }
                yield new RNode.Not(c instanceof RNode.Field f ? new RNode.Lit("STR", f.name()) : c);
            }
            case RNode.Cmp c -> new RNode.Cmp(c.op(), canonical(c.l()), canonical(c.r()));
            case RNode.Arith c -> new RNode.Arith(c.op(), canonical(c.l()), canonical(c.r()));
            case RNode.Neg c -> new RNode.Neg(canonical(c.x()));
            case RNode.Bool c -> new RNode.Bool(c.op(), canonical(c.l()), canonical(c.r()));
            case RNode.Fn c -> new RNode.Fn(c.name(), canonical(c.items()));
            case RNode.In c -> new RNode.In(c.field(), c.not(), canonical(c.items()));
            case RNode.Arr c -> new RNode.Arr(c.field(), c.op(), canonical(c.items()));
            default -> n;
        };
    }

    private static List<RNode> canonical(final List<RNode> l) {
        return l.stream().map(Impl::canonical).toList();
    }
}
