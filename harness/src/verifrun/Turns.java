package verifrun;

import java.lang.management.ManagementFactory;
import java.util.SplittableRandom;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.locks.LockSupport;
import java.util.function.BiFunction;

/**
 * Runs tasks on threads of which one runs at a time; at each scheduling point it may hand over to another, as a seed
 * decides: at any point with some probability, or at a few points only, where the running thread is put behind all
 * others. A thread that holds the turn but waits for something (a lock another thread holds) loses it.
 */
public final class Turns implements BiFunction<long[], Runnable[], String> {

    private static final class Runner extends Thread {
        private final Turns turns;
        private final int id;
        private int quiet;
        private int priority;
        private volatile boolean parked;
        private volatile boolean finished;

        Runner(final Turns turns, final int id, final Runnable body) {
            super(null, body, "turns-" + id, 4L << 20);
            this.turns = turns;
            this.id = id;
            setDaemon(true);
        }

        @Override
        public void run() {
            turns.await(this);
            try {
                super.run();
            } finally {
                finished = true;
                turns.pass(this);
            }
        }
    }

    /** Called by the woven code. */
    public static void point() {
        if (Thread.currentThread() instanceof Runner r && r.quiet == 0) {
            r.turns.at(r);
        }
    }

    public static void enter() {
        if (Thread.currentThread() instanceof Runner r) {
            r.quiet++;
        }
    }

    public static void leave() {
        if (Thread.currentThread() instanceof Runner r) {
            r.quiet--;
        }
    }

    private Runner[] all;
    private SplittableRandom random;
    private int every;
    private final AtomicInteger turn = new AtomicInteger();
    private volatile long points;
    private int budget;
    /** for schedules with a few switches: where they are */
    private long[] changes;
    private int lowest;

    /** Arguments: seed, one switch in how many points on average (or minus the number of switches), how many switches at most, who is first. Returns what went wrong with the threads themselves, or null. */
    @Override
    public String apply(final long[] how, final Runnable[] tasks) {
        return new Turns().run(how, tasks);
    }

    private String run(final long[] how, final Runnable[] tasks) {
        random = new SplittableRandom(how[0]);
        every = (int) how[1];
        budget = (int) how[2];
        all = new Runner[tasks.length];
        for (int i = 0; i < tasks.length; i++) {
            all[i] = new Runner(this, i, tasks[i]);
        }
        if (every < 0) {
            changes = new long[-every];
            for (int i = 0; i < changes.length; i++) {
                changes[i] = (long) Math.exp(random.nextDouble() * Math.log(20_000));
            }
            for (final Runner r : all) {
                r.priority = random.nextInt(1000);
            }
            all[(int) how[3]].priority = 1001;
        }
        turn.set((int) how[3]);
        for (final Runner r : all) {
            r.start();
        }
        final long start = System.nanoTime();
        for (int i = 0; i < all.length; i++) {
            while (all[i].isAlive()) {
                try {
                    all[i].join(1500);
                } catch (final InterruptedException e) {
                    return "interrupted";
                }
                if (!all[i].isAlive()) {
                    break;
                }
                final long[] dead = ManagementFactory.getThreadMXBean().findDeadlockedThreads();
                if (dead != null) {
                    for (final long d : dead) {
                        for (final Runner r : all) {
                            if (r.getId() == d) {
                                return "a deadlock: " + trace(r);
                            }
                        }
                    }
                }
                if (System.nanoTime() - start > TimeUnit.SECONDS.toNanos(60)) {
                    return "a thread has not finished after 60 s: " + trace(all[i]);
                }
            }
        }
        return null;
    }

    private static String trace(final Thread t) {
        final StringBuilder b = new StringBuilder(t.getName());
        for (final StackTraceElement e : t.getStackTrace()) {
            b.append("\n  at ").append(e);
        }
        return b.toString();
    }

    private void at(final Runner r) {
        if (turn.get() != r.id) {
            await(r);
            return;
        }
        points++;
        if (changes != null) {
            for (final long at : changes) {
                if (at == points) {
                    r.priority = --lowest;
                    if (hand(r)) {
                        await(r);
                    }
                    return;
                }
            }
            return;
        }
        if (budget > 0 && random.nextInt(every) == 0) {
            budget--;
            if (hand(r)) {
                await(r);
            }
        }
    }

    private boolean hand(final Runner r) {
        if (changes != null) {
            Runner best = null;
            for (final Runner o : all) {
                if (o != r && !o.finished && o.parked && (best == null || o.priority > best.priority)) {
                    best = o;
                }
            }
            if (best == null) {
                return false;
            }
            turn.set(best.id);
            LockSupport.unpark(best);
            return true;
        }
        final int from = random.nextInt(all.length);
        for (int i = 0; i < all.length; i++) {
            final Runner o = all[(from + i) % all.length];
            // those that wait for something other than their turn would only keep everyone waiting
            if (o != r && !o.finished && o.parked) {
                turn.set(o.id);
                LockSupport.unpark(o);
                return true;
            }
        }
        return false;
    }

    private void pass(final Runner r) {
        if (turn.get() == r.id && !hand(r)) {
            for (final Runner o : all) {
                if (!o.finished) {
                    turn.set(o.id);
                    LockSupport.unpark(o);
                    return;
                }
            }
        }
    }

    private void await(final Runner r) {
        int seen = 0;
        long before = -1;
        int same = 0;
        r.parked = true;
        while (turn.get() != r.id) {
            LockSupport.parkNanos(400_000);
            final int t = turn.get();
            if (t == r.id) {
                break;
            }
            final Runner holder = all[t];
            final Thread.State s = holder.getState();
            final boolean waiting = holder.finished || !holder.parked && (s == Thread.State.BLOCKED || s == Thread.State.WAITING || s == Thread.State.TIMED_WAITING || s == Thread.State.TERMINATED);
            seen = waiting ? seen + 1 : 0;
            final long p = points;
            same = p == before ? same + 1 : 0;
            before = p;
            if ((seen >= 3 || same > 250) && turn.compareAndSet(t, r.id)) {
                break;
            }
        }
        r.parked = false;
    }
}
