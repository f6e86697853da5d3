package verif;

/** Outcome of a call: a value or a failure. */
public record Out(Object value, Throwable error) {
    boolean failed() {
        return error != null;
    }

    int mask() {
        if (error != null) {
            return RefEval.E;
        }
        return Boolean.TRUE.equals(value) ? RefEval.T : Boolean.FALSE.equals(value) ? RefEval.F : 8;
    }

    @Override
    public String toString() {
        if (error == null) {
            return Show.value(value);
        }
        String m = String.valueOf(error.getMessage());
        if (m.length() > 200) {
            m = m.substring(0, 200) + "...";
        }
        return "failure (" + error.getClass().getSimpleName() + ": " + m + ")";
    }

    static String mask(final int m) {
        final StringBuilder b = new StringBuilder();
        if ((m & RefEval.T) != 0) {
            b.append("true");
        }
        if ((m & RefEval.F) != 0) {
            b.append(b.length() > 0 ? " or " : "").append("false");
        }
        if ((m & RefEval.E) != 0) {
            b.append(b.length() > 0 ? " or " : "").append("failure");
        }
        return b.toString();
    }
}
