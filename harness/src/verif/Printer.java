package verif;

import java.math.BigDecimal;
import java.util.ArrayList;
import java.util.List;
import java.util.Locale;

/** Writes a tree as expression text, in many equivalent ways. */
final class Printer {
    /** 0: upper, 1: lower, 2: any case */
    int keywordCase;
    boolean symbols;
    /** 0: single spaces, 1: any white space, 2: only where needed */
    int space;
    /** percentage of operands put in redundant parentheses */
    int redundant;
    /** parentheses around every compound operand */
    boolean full;
    int quote;

    private final Source s;
    private final List<String> out = new ArrayList<>();
    private int open;

    Printer(final Source s) {
        this.s = s;
    }

    static Printer plain(final Source s) {
        return new Printer(s);
    }

    static Printer any(final Source s) {
        final Printer p = new Printer(s);
        p.keywordCase = s.weighted(5, 2, 2);
        p.symbols = s.chance(25);
        p.space = s.weighted(6, 2, 2);
        p.redundant = s.weighted(7, 2, 1) * 12;
        p.quote = s.draw(3);
        p.full = s.chance(10);
        return p;
    }

    /** Text that the reference parser reads back as n (with Empty operands standing for the default field). */
    static String print(final RNode n, final Printer p, final String defaultField) {
        final RNode want = fill(n, defaultField);
        String text = p.write(n);
        if (readsAs(text, defaultField, want)) {
            return text;
        }
        p.full = true;
        p.redundant = 0;
        text = p.write(n);
        if (readsAs(text, defaultField, want)) {
            return text;
        }
        p.space = 0;
        return p.write(n);
    }

    static String print(final RNode n, final Printer p) {
        return print(n, p, null);
    }

    static boolean readsAs(final String text, final String defaultField, final RNode want) {
        try {
            return RefParser.parse(text, defaultField).equals(want);
        } catch (final RefParser.Reject | RefParser.Unspecified ex) {
            return false;
        }
    }

    static RNode fill(final RNode n, final String df) {
        return switch (n) {
            case RNode.Empty e -> new RNode.Field(df);
            case RNode.Cmp c -> new RNode.Cmp(c.op(), fill(c.l(), df), fill(c.r(), df));
            case RNode.Arith c -> new RNode.Arith(c.op(), fill(c.l(), df), fill(c.r(), df));
            case RNode.Neg c -> new RNode.Neg(fill(c.x(), df));
            case RNode.Not c -> new RNode.Not(fill(c.x(), df));
            case RNode.Bool c -> new RNode.Bool(c.op(), fill(c.l(), df), fill(c.r(), df));
            case RNode.Fn c -> new RNode.Fn(c.name(), c.items().stream().map(x -> fill(x, df)).toList());
            case RNode.In c -> new RNode.In(c.field(), c.not(), c.items().stream().map(x -> fill(x, df)).toList());
            case RNode.Arr c -> new RNode.Arr(c.field(), c.op(), c.items().stream().map(x -> fill(x, df)).toList());
            default -> n;
        };
    }

    private String write(final RNode n) {
        out.clear();
        open = 0;
        expr(n);
        final StringBuilder b = new StringBuilder();
        if (space == 1 && s.chance(30)) {
            b.append(blank());
        }
        for (int i = 0; i < out.size(); i++) {
            if (i > 0) {
                final String a = out.get(i - 1);
                final String c = out.get(i);
                final boolean needed = RefParser.fieldChar(a.charAt(a.length() - 1)) && RefParser.fieldChar(c.charAt(0));
                switch (space) {
                    case 0 -> {
                        if (!a.equals("(") && !c.equals(")") && !c.equals(",")) {
                            b.append(' ');
                        }
                    }
                    case 1 -> {
                        if (needed || s.coin()) {
                            b.append(blank());
                        }
                    }
                    default -> {
                        if (needed) {
                            b.append(' ');
                        }
                    }
                }
            }
            b.append(out.get(i));
        }
        if (space == 1 && s.chance(30)) {
            b.append(blank());
        }
        return b.toString();
    }

    private String blank() {
        final StringBuilder b = new StringBuilder();
        final int n = s.chance(3) ? 30 : 1 + s.draw(3);
        for (int i = 0; i < n; i++) {
            b.append(s.of(" ", " ", "\t", "\n", "\r\n", "\f"));
        }
        return b.toString();
    }

    String keyword(final String k) {
        if (keywordCase == 0) {
            return k;
        }
        if (keywordCase == 1) {
            return k.toLowerCase(Locale.ROOT);
        }
        final StringBuilder b = new StringBuilder();
        for (final char c : k.toCharArray()) {
            b.append(s.coin() ? Character.toLowerCase(c) : c);
        }
        return b.toString();
    }

    private static int precedence(final RNode n) {
        return switch (n) {
            case RNode.Cmp c -> 14;
            case RNode.Arith a -> RefParser.PRECEDENCE.get(a.op());
            case RNode.Bool b -> 5;
            default -> 99;
        };
    }

    private static boolean atom(final RNode n) {
        return n instanceof RNode.Lit || n instanceof RNode.Field || n instanceof RNode.Fn || n instanceof RNode.Empty;
    }

    private void operand(final RNode n, final boolean needed) {
        final boolean extra = !(n instanceof RNode.Empty) && redundant > 0 && s.draw(100) < redundant;
        final boolean p = needed || full && !atom(n) || extra;
        if (p && (needed || full || open < 6)) {
            final int times = extra && open < 6 && s.chance(20) ? 2 : 1;
            for (int i = 0; i < times; i++) {
                out.add("(");
            }
            open++;
            expr(n);
            open--;
            for (int i = 0; i < times; i++) {
                out.add(")");
            }
        } else {
            expr(n);
        }
    }

    private void expr(final RNode n) {
        switch (n) {
            case RNode.Lit l -> out.add(literal(l));
            case RNode.Field f -> out.add(f.name());
            case RNode.Empty e -> {
            }
            case RNode.Cmp c -> binary(c.l(), c.op(), c.r(), 14);
            case RNode.Arith a -> binary(a.l(), a.op(), a.r(), RefParser.PRECEDENCE.get(a.op()));
            case RNode.Bool b -> binary(b.l(), symbols && s.coin() ? b.op().equals("AND") ? "&&" : "||" : keyword(b.op()), b.r(), 5);
            case RNode.Neg x -> {
                out.add("-");
                operand(x.x(), precedence(x.x()) < 13);
            }
            case RNode.Not x -> {
                out.add(keyword("NOT"));
                operand(x.x(), precedence(x.x()) <= 14);
            }
            case RNode.Fn f -> {
                out.add(keyword(f.name()));
                list(f.items());
            }
            case RNode.In i -> {
                out.add(i.field());
                if (i.not()) {
                    out.add(keyword("NOT"));
                }
                out.add(keyword("IN"));
                list(i.items());
            }
            case RNode.Arr a -> {
                out.add(a.field());
                out.add(keyword(a.op()));
                list(a.items());
            }
            case RNode.Range r -> {
                out.add(r.field());
                out.add(literal(r.lo()));
                out.add(keyword("TO"));
                out.add(literal(r.hi()));
            }
        }
    }

    private void binary(final RNode l, final String op, final RNode r, final int p) {
        operand(l, precedence(l) < p || p == 14 && l instanceof RNode.Neg);
        out.add(op);
        operand(r, precedence(r) <= p);
    }

    private void list(final List<RNode> items) {
        out.add("(");
        for (int i = 0; i < items.size(); i++) {
            if (i > 0) {
                out.add(",");
            }
            operand(items.get(i), false);
        }
        out.add(")");
    }

    private String literal(final RNode.Lit l) {
        return switch (l.kind()) {
            case "BOOL" -> keyword((Boolean) l.value() ? "TRUE" : "FALSE");
            case "DEC" -> ((BigDecimal) l.value()).toPlainString();
            case "DATETIME" -> l.value().toString().replace('T', ' ') + (l.value().toString().length() == 16 ? ":00" : "");
            case "STR" -> {
                final String v = (String) l.value();
                final boolean single = v.indexOf('\'') < 0 && (v.indexOf('"') >= 0 || quote == 0 || quote == 2 && s.coin());
                yield single ? "'" + v + "'" : '"' + v + '"';
            }
            default -> l.value().toString();
        };
    }
}
