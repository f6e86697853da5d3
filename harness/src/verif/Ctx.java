package verif;

import java.util.LinkedHashSet;
import java.util.Set;

/** What one case did: its text, labels and whether it was non-trivial. */
public final class Ctx {
    final Source s;
    final StringBuilder text = new StringBuilder();
    final Set<String> labels = new LinkedHashSet<>();
    boolean nontrivial;
    int executions;

    Ctx(final Source s) {
        this.s = s;
    }

    void note(final String line) {
        if (text.length() < 60_000) {
            text.append(line).append('\n');
        }
    }

    void label(final String l) {
        labels.add(l);
    }

    Violation fail(final String message) {
        return new Violation(message);
    }
}
