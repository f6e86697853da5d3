package verif;

import java.util.List;

/** Expression trees of the reference model. */
public sealed interface RNode {
    /** kind: INT, LONG, DEC, VER, BOOL, DATE, DATETIME, STR; value: the Java value (RVersion for versions). */
    record Lit(String kind, Object value) implements RNode {}

    record Field(String name) implements RNode {}

    /** op: = != > >= < <= */
    record Cmp(String op, RNode l, RNode r) implements RNode {}

    /** op: + - * / % ^ */
    record Arith(String op, RNode l, RNode r) implements RNode {}

    record Neg(RNode x) implements RNode {}

    record Not(RNode x) implements RNode {}

    /** op: AND OR */
    record Bool(String op, RNode l, RNode r) implements RNode {}

    /** name in upper case */
    record Fn(String name, List<RNode> items) implements RNode {}

    record In(String field, boolean not, List<RNode> items) implements RNode {}

    /** op: CONTAINS_ANY CONTAINS_ALL */
    record Arr(String field, String op, List<RNode> items) implements RNode {}

    record Range(String field, Lit lo, Lit hi) implements RNode {}

    /** An operand left out; only inside the reference parser. */
    record Empty() implements RNode {}

    static boolean isBoolean(final RNode n) {
        return n instanceof Cmp || n instanceof Not || n instanceof Bool || n instanceof In || n instanceof Arr || n instanceof Range;
    }

    static int depth(final RNode n) {
        return switch (n) {
            case Cmp c -> 1 + Math.max(depth(c.l()), depth(c.r()));
            case Arith c -> 1 + Math.max(depth(c.l()), depth(c.r()));
            case Bool c -> 1 + Math.max(depth(c.l()), depth(c.r()));
            case Neg c -> 1 + depth(c.x());
            case Not c -> 1 + depth(c.x());
            case Fn c -> 1 + c.items().stream().mapToInt(RNode::depth).max().orElse(0);
            case In c -> 1 + c.items().stream().mapToInt(RNode::depth).max().orElse(0);
            case Arr c -> 1 + c.items().stream().mapToInt(RNode::depth).max().orElse(0);
            default -> 1;
        };
    }

    static int size(final RNode n) {
        return switch (n) {
            case Cmp c -> 1 + size(c.l()) + size(c.r());
            case Arith c -> 1 + size(c.l()) + size(c.r());
            case Bool c -> 1 + size(c.l()) + size(c.r());
            case Neg c -> 1 + size(c.x());
            case Not c -> 1 + size(c.x());
            case Fn c -> 1 + c.items().stream().mapToInt(RNode::size).sum();
            case In c -> 1 + c.items().stream().mapToInt(RNode::size).sum();
            case Arr c -> 1 + c.items().stream().mapToInt(RNode::size).sum();
            default -> 1;
        };
    }
}
