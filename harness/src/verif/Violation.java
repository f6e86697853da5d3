package verif;

/** The property does not hold on this case. */
public final class Violation extends RuntimeException {
    public Violation(final String message) {
        super(message, null, false, false);
    }
}
