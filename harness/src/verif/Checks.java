package verif;

import java.math.BigDecimal;
import java.util.Map;
import com.github.sidhant92.boolparser.application.BooleanExpressionEvaluator;
import com.github.sidhant92.boolparser.parser.antlr.CachedBoolParser;

/** Comparisons of the code under test with the reference. */
final class Checks {
    private Checks() {
    }

    /** Reference outcomes of a boolean evaluation; -1 when the text is unspecified. */
    static int reference(final String text, final String df, final Map<String, Object> data) {
        final RNode n;
        try {
            n = RefParser.parse(text, df);
        } catch (final RefParser.Reject ex) {
            return RefEval.E;
        } catch (final RefParser.Unspecified ex) {
            return -1;
        }
        return new RefEval(data).bool(n);
    }

    /** Evaluates text as a boolean expression and compares with the reference; returns the allowed outcomes. */
    static int bool(final Ctx c, final Map<String, Object> data, final String text, final String defaultField) {
        String df = defaultField;
        if (df == null && c.s.chance(4)) {
            // a default field, which matters only to values that stand alone
            df = data == null || data.isEmpty() || c.s.chance(40) ? "q_default" : c.s.of(new java.util.ArrayList<>(data.keySet()));
            c.label("with_default_field");
        }
        final int m = reference(text, df, data);
        if (m < 0 || m == RefEval.ANY) {
            c.label("unspecified");
            return RefEval.ANY;
        }
        c.executions++;
        final Out o = c.s.chance(4) ? Impl.bool(new BooleanExpressionEvaluator(new CachedBoolParser(c.s.of(1, 10))), text, data, df) : Impl.bool(text, data, df);
        if ((o.mask() & m) == 0) {
            throw c.fail("boolean evaluation of " + Show.value(text) + (df == null ? "" : " with default field " + df) + "\n  gives    " + o + "\n  expected " + Out.mask(m));
        }
        return m;
    }

    static RefEval.Val referenceArith(final String text, final Map<String, Object> data) {
        final RNode n;
        try {
            n = RefParser.parse(text, null);
        } catch (final RefParser.Reject ex) {
            return RefEval.Val.fail();
        } catch (final RefParser.Unspecified ex) {
            return RefEval.Val.any();
        }
        return new RefEval(data, today).arith(n);
    }

    /** for DAYS_ELAPSED */
    static java.time.LocalDate today;

    static RefEval.Val arith(final Ctx c, final Map<String, Object> data, final String text) {
        final RefEval.Val v = referenceArith(text, data);
        if (v.any) {
            c.label("unspecified");
            return v;
        }
        c.executions++;
        final Out o = Impl.arith(text, data);
        final String why = mismatch(v, o);
        if (why != null) {
            throw c.fail("arithmetic evaluation of " + Show.value(text) + "\n  gives    " + o + (o.failed() ? "" : " (" + o.value().getClass().getSimpleName() + ")") + "\n  expected " + v + why);
        }
        return v;
    }

    /** null when the outcome is one the reference allows. */
    static String mismatch(final RefEval.Val v, final Out o) {
        if (v.any) {
            return null;
        }
        if (o.failed()) {
            return v.fail || v.mayFail ? null : "";
        }
        if (v.fail) {
            return "";
        }
        final Object x = o.value();
        if (RefEval.isNumber(v.v)) {
            if (!RefEval.isNumber(x)) {
                return "";
            }
            final BigDecimal a = RefEval.num(v.v);
            if (!RefEval.finite(v.v)) {
                return null;
            }
            if (!RefEval.finite(x)) {
                return "";
            }
            final BigDecimal b = RefEval.num(x);
            if (v.ties != null) {
                return v.ties.stream().anyMatch(t -> t.compareTo(b) == 0) ? null : " or another of " + v.ties;
            }
            if (v.approx) {
                final BigDecimal tolerance = a.abs().max(BigDecimal.valueOf(1, 12)).multiply(BigDecimal.valueOf(1, 9));
                return a.subtract(b).abs().compareTo(tolerance) <= 0 ? null : "";
            }
            if (a.compareTo(b) != 0) {
                return "";
            }
            if (v.whole && x.getClass() != v.v.getClass()) {
                return " (" + v.v.getClass().getSimpleName() + ")";
            }
            return null;
        }
        if (v.v instanceof RVersion r) {
            return x.toString().equals(r.text()) ? null : "";
        }
        if (RefEval.isContainer(v.v)) {
            return x == v.v || Show.value(x).equals(Show.value(v.v)) ? null : "";
        }
        return v.v.equals(x) ? null : "";
    }

    /** True when both outcomes are the same failure-or-value, numbers compared by value. */
    static boolean same(final Out a, final Out b) {
        if (a.failed() || b.failed()) {
            return a.failed() && b.failed();
        }
        return Show.value(a.value()).equals(Show.value(b.value()));
    }

    static boolean sameNumerically(final Out a, final Out b) {
        if (!a.failed() && !b.failed() && RefEval.isNumber(a.value()) && RefEval.isNumber(b.value()) && RefEval.finite(a.value()) && RefEval.finite(b.value())) {
            return RefEval.num(a.value()).compareTo(RefEval.num(b.value())) == 0;
        }
        return same(a, b);
    }

    static boolean decisive(final int m) {
        return m == RefEval.T || m == RefEval.F || m == RefEval.E;
    }
}
