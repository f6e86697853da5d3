package verif;

import java.util.SplittableRandom;

/**
 * The only source of randomness of a case: a sequence of bounded integer choices. A case is a pure function of that
 * sequence, so a failure is replayed from the recorded choices and shrunk by editing them (0 is the simplest choice).
 */
public final class Source {
    private final SplittableRandom random;
    private final int[] replay;
    private int[] log = new int[256];
    private int used;

    public Source(final long seed) {
        this.random = new SplittableRandom(seed);
        this.replay = null;
    }

    public Source(final int[] replay) {
        this.random = null;
        this.replay = replay;
    }

    /** A choice in [0, n). */
    public int draw(final int n) {
        if (n <= 1) {
            return 0;
        }
        final int v;
        if (replay == null) {
            v = random.nextInt(n);
        } else if (used < replay.length) {
            v = Math.floorMod(replay[used], n);
        } else {
            v = 0;
        }
        if (used == log.length) {
            log = java.util.Arrays.copyOf(log, used * 2);
        }
        if (used > 200_000) {
            throw new IllegalStateException("runaway generator");
        }
        log[used++] = v;
        return v;
    }

    public int range(final int lo, final int hiInclusive) {
        return lo + draw(hiInclusive - lo + 1);
    }

    /** True with probability percent/100; false is the simple choice. */
    public boolean chance(final int percent) {
        return draw(100) >= 100 - percent;
    }

    public boolean coin() {
        return draw(2) == 1;
    }

    @SafeVarargs
    public final <T> T of(final T... values) {
        return values[draw(values.length)];
    }

    public <T> T of(final java.util.List<T> values) {
        return values.get(draw(values.size()));
    }

    /** Index i with probability weight[i]/sum. */
    public int weighted(final int... weights) {
        int sum = 0;
        for (final int w : weights) {
            sum += w;
        }
        int r = draw(sum);
        for (int i = 0; i < weights.length; i++) {
            r -= weights[i];
            if (r < 0) {
                return i;
            }
        }
        return 0;
    }

    /** A size with a heavy tail: mostly small, sometimes up to max. */
    public int size(final int min, final int max) {
        final int span = max - min;
        if (span <= 0) {
            return min;
        }
        return switch (weighted(60, 25, 11, 4)) {
            case 0 -> min + draw(Math.min(span, 3) + 1);
            case 1 -> min + draw(Math.min(span, 8) + 1);
            case 2 -> min + draw(Math.min(span, 30) + 1);
            default -> min + draw(span + 1);
        };
    }

    public long bits() {
        return ((long) draw(1 << 16) << 48) | ((long) draw(1 << 16) << 32) | ((long) draw(1 << 16) << 16) | draw(1 << 16);
    }

    public int[] choices() {
        return java.util.Arrays.copyOf(log, used);
    }

    public int used() {
        return used;
    }
}
