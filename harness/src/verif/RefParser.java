package verif;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.util.ArrayList;
import java.util.List;
import java.util.Locale;
import java.util.Map;
import java.util.Set;

/**
 * Reference lexer and parser for the documented expression language, written independently of the generated ANTLR
 * code: longest-match lexing and precedence climbing.
 */
public final class RefParser {
    /** The text is not a valid expression. */
    public static final class Reject extends RuntimeException {
        Reject(final String m) {
            super(m, null, false, false);
        }
    }

    /** The specification leaves open what happens with this text. */
    public static final class Unspecified extends RuntimeException {
        Unspecified(final String m) {
            super(m, null, false, false);
        }
    }

    public record Tok(String type, String text) {}

    static final Set<String> FUNCTIONS = Set.of("MIN", "MAX", "AVG", "SUM", "MEAN", "MODE", "MEDIAN", "LEN", "INT", "DAYS_ELAPSED");
    static final Set<String> KEYWORDS = Set.of("IN", "TO", "AND", "OR", "NOT", "TRUE", "FALSE", "CONTAINS_ALL", "CONTAINS_ANY", "MIN", "MAX", "AVG",
                                               "SUM", "MEAN", "MODE", "MEDIAN", "LEN", "INT", "DAYS_ELAPSED");
    static final Map<String, Integer> PRECEDENCE = Map.ofEntries(Map.entry("=", 14), Map.entry("!=", 14), Map.entry(">", 14), Map.entry(">=", 14),
                                                                 Map.entry("<", 14), Map.entry("<=", 14), Map.entry("^", 12), Map.entry("/", 11),
                                                                 Map.entry("*", 10), Map.entry("%", 9), Map.entry("+", 8), Map.entry("-", 7),
                                                                 Map.entry("AND", 5), Map.entry("OR", 5));

    private final List<Tok> toks;
    private final String defaultField;
    private int pos;
    private boolean unspecified;
    private boolean unclosed;

    private RefParser(final List<Tok> toks, final String defaultField) {
        this.toks = toks;
        this.defaultField = defaultField;
    }

    static boolean fieldChar(final char c) {
        return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.';
    }

    static boolean digit(final String s, final int i) {
        return i < s.length() && s.charAt(i) >= '0' && s.charAt(i) <= '9';
    }

    /** Length of the given picture at i ('d' = digit, anything else itself), or 0. */
    private static int picture(final String s, final int i, final String picture) {
        if (i + picture.length() > s.length()) {
            return 0;
        }
        for (int k = 0; k < picture.length(); k++) {
            if (picture.charAt(k) == 'd' ? !digit(s, i + k) : s.charAt(i + k) != picture.charAt(k)) {
                return 0;
            }
        }
        return picture.length();
    }

    static List<Tok> lex(final String s) {
        final List<Tok> out = new ArrayList<>();
        int i = 0;
        while (i < s.length()) {
            final char c = s.charAt(i);
            if (c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\f') {
                i++;
                continue;
            }
            if (c == '\'' || c == '"') {
                final int end = s.indexOf(c, i + 1);
                if (end < 0) {
                    throw new Reject("unterminated string");
                }
                out.add(new Tok("WORD", s.substring(i, end + 1)));
                i = end + 1;
                continue;
            }
            if (fieldChar(c)) {
                int j = i;
                while (j < s.length() && fieldChar(s.charAt(j))) {
                    j++;
                }
                final int dt = picture(s, i, "dddd-dd-dd dd:dd:dd");
                final int d = picture(s, i, "dddd-dd-dd");
                if (dt > j - i) {
                    out.add(new Tok("DATETIME", s.substring(i, i + dt)));
                    i += dt;
                    continue;
                }
                if (d > j - i) {
                    out.add(new Tok("DATE", s.substring(i, i + d)));
                    i += d;
                    continue;
                }
                final String w = s.substring(i, j);
                final String u = w.toUpperCase(Locale.ROOT);
                final String type;
                if (KEYWORDS.contains(u)) {
                    type = u;
                } else if (w.matches("[0-9]+")) {
                    type = "INTEGER";
                } else if (w.matches("[0-9]+\\.[0-9]+")) {
                    type = "DECIMAL";
                } else if (w.matches("[0-9]+(\\.[0-9]+){2,}")) {
                    type = "VERSION";
                } else {
                    type = "FIELD";
                }
                out.add(new Tok(type, w));
                i = j;
                continue;
            }
            final String two = i + 1 < s.length() ? s.substring(i, i + 2) : "";
            if (two.equals("&&") || two.equals("||")) {
                out.add(new Tok(two.equals("&&") ? "AND" : "OR", two));
                i += 2;
            } else if (two.equals("!=") || two.equals(">=") || two.equals("<=")) {
                out.add(new Tok(two, two));
                i += 2;
            } else if ("+-*/%^><=(),".indexOf(c) >= 0) {
                out.add(new Tok(String.valueOf(c), String.valueOf(c)));
                i++;
            } else {
                throw new Reject("unexpected character " + c);
            }
        }
        return out;
    }

    /** Parses or throws Reject / Unspecified. */
    public static RNode parse(final String text, final String defaultField) {
        final RefParser p = new RefParser(lex(text), defaultField);
        final RNode n = p.expression(0);
        if (p.pos < p.toks.size()) {
            throw new Reject("left over " + p.peek().text());
        }
        if (n instanceof RNode.Empty) {
            throw new Reject("empty");
        }
        if (p.unspecified || p.unclosed) {
            throw new Unspecified("unclosed or omitted in list");
        }
        return n;
    }

    private Tok peek() {
        return peek(0);
    }

    private Tok peek(final int k) {
        return pos + k < toks.size() ? toks.get(pos + k) : new Tok("EOF", "");
    }

    private boolean is(final String type) {
        return peek().type().equals(type);
    }

    private void close() {
        if (is(")")) {
            pos++;
        } else if (is("EOF")) {
            unclosed = true;
        } else {
            throw new Reject("expected )");
        }
    }

    private RNode expression(final int minPrecedence) {
        RNode left = primary();
        while (true) {
            final String op = peek().type();
            final Integer precedence = PRECEDENCE.get(op);
            if (precedence == null || precedence < minPrecedence) {
                return left;
            }
            pos++;
            final RNode right = expression(precedence + 1);
            switch (op) {
                case "AND", "OR" -> left = new RNode.Bool(op, logical(left), logical(right));
                case "+", "-", "*", "/", "%", "^" -> left = new RNode.Arith(op, operand(left), operand(right));
                default -> left = new RNode.Cmp(op, operand(left), operand(right));
            }
        }
    }

    private RNode operand(final RNode n) {
        if (n instanceof RNode.Empty) {
            if (defaultField == null || defaultField.isBlank()) {
                throw new Reject("missing operand");
            }
            return new RNode.Field(defaultField);
        }
        return n;
    }

    private RNode logical(final RNode n) {
        if (n instanceof RNode.Empty) {
            throw new Reject("missing operand");
        }
        return n;
    }

    private RNode primary() {
        final Tok t = peek();
        switch (t.type()) {
            case "(" -> {
                pos++;
                final RNode n = expression(0);
                close();
                return logical(n);
            }
            case "NOT" -> {
                pos++;
                return new RNode.Not(logical(expression(15)));
            }
            case "-" -> {
                pos++;
                return new RNode.Neg(operand(expression(13)));
            }
            case "FIELD" -> {
                pos++;
                final String f = t.text();
                if (is("INTEGER") || is("DECIMAL")) {
                    final RNode.Lit lo = literal(toks.get(pos++));
                    if (!is("TO")) {
                        throw new Reject("expected TO");
                    }
                    pos++;
                    if (!is("INTEGER") && !is("DECIMAL")) {
                        throw new Reject("expected number");
                    }
                    return new RNode.Range(f, lo, literal(toks.get(pos++)));
                }
                if (is("IN")) {
                    pos++;
                    return new RNode.In(f, false, list());
                }
                if (is("NOT") && peek(1).type().equals("IN")) {
                    pos += 2;
                    return new RNode.In(f, true, list());
                }
                if (is("CONTAINS_ANY") || is("CONTAINS_ALL")) {
                    final String op = toks.get(pos++).type();
                    return new RNode.Arr(f, op, list());
                }
                return new RNode.Field(f);
            }
            case "INTEGER", "DECIMAL", "VERSION", "TRUE", "FALSE", "WORD", "DATE", "DATETIME" -> {
                pos++;
                return literal(t);
            }
            default -> {
                if (FUNCTIONS.contains(t.type())) {
                    pos++;
                    return new RNode.Fn(t.type(), list());
                }
                return new RNode.Empty();
            }
        }
    }

    private List<RNode> list() {
        if (!is("(")) {
            throw new Reject("expected (");
        }
        pos++;
        final List<RNode> items = new ArrayList<>();
        while (true) {
            final RNode item = expression(0);
            if (item instanceof RNode.Empty) {
                if (!is("EOF")) {
                    operand(item);
                }
                unspecified = true;
            }
            items.add(item);
            if (is(",")) {
                pos++;
                continue;
            }
            close();
            return items;
        }
    }

    static RNode.Lit literal(final Tok t) {
        switch (t.type()) {
            case "INTEGER" -> {
                final BigInteger v = new BigInteger(t.text());
                if (v.bitLength() <= 31) {
                    return new RNode.Lit("INT", v.intValueExact());
                }
                if (v.bitLength() <= 63) {
                    return new RNode.Lit("LONG", v.longValueExact());
                }
                throw new Reject("integer too large");
            }
            case "DECIMAL" -> {
                return new RNode.Lit("DEC", new BigDecimal(t.text()));
            }
            case "VERSION" -> {
                return new RNode.Lit("VER", new RVersion(t.text()));
            }
            case "TRUE" -> {
                return new RNode.Lit("BOOL", true);
            }
            case "FALSE" -> {
                return new RNode.Lit("BOOL", false);
            }
            case "DATE" -> {
                final LocalDate d = RefEval.parseDate(t.text());
                if (d == null) {
                    throw new Reject("no such date");
                }
                return new RNode.Lit("DATE", d);
            }
            case "DATETIME" -> {
                final LocalDateTime d = RefEval.parseDateTime(t.text());
                if (d == null) {
                    throw new Reject("no such date-time");
                }
                return new RNode.Lit("DATETIME", d);
            }
            default -> {
                return new RNode.Lit("STR", t.text().substring(1, t.text().length() - 1));
            }
        }
    }
}
