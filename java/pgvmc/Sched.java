package pgvmc;

import java.util.*;
import java.util.concurrent.locks.LockSupport;

/** Runs a few threads one at a time and explores every schedule up to a number of preemptions. */
public class Sched {
    public static final class Stop extends Error {
        Stop() {
            super("stopped", null, false, false);
        }
    }

    public final class T extends Thread {
        final int id;
        volatile Runnable task;
        volatile boolean done = true, waiting, inner, real;
        Object lock;

        T(int id) {
            this.id = id;
            setDaemon(true);
        }

        Sched sched() {
            return Sched.this;
        }

        @Override
        public void run() {
            for (;;) {
                while (task == null) LockSupport.park(this);
                Runnable r = task;
                task = null;
                try {
                    awaitTurn(this);
                    r.run();
                } catch (Stop e) {
                    // unwound
                } catch (Throwable e) {
                    error = "thread " + id + ": " + e;
                }
                inner = true;
                finish(this);
            }
        }
    }

    final T[] ts;
    volatile int turn = -1;
    volatile boolean stop;
    volatile String error;
    volatile Thread master;
    volatile int live;
    int step;
    int[] prefix = new int[0];
    final List<int[]> trace = new ArrayList<>(); // options, chosen, may preempt

    public Sched(int n) {
        ts = new T[n];
        for (int i = 0; i < n; i++) (ts[i] = new T(i)).start();
    }

    static T me() {
        Thread t = Thread.currentThread();
        return t instanceof T ? (T) t : null;
    }

    /** A place where another thread may go on. */
    public static void point() {
        T t = me();
        if (t != null) t.sched().at(t, null);
    }

    /** Waits for another thread to move on; the caller looks again afterwards. */
    static void block(Object lock) {
        T t = me();
        if (t == null) throw new IllegalStateException("a lock is held outside of a run");
        t.sched().at(t, lock);
    }

    static void release(Object lock) {
        T t = me();
        if (t == null) return;
        for (T o : t.sched().ts) if (o.lock == lock) o.lock = null;
    }

    public static int now() {
        T t = me();
        return t == null ? Integer.MAX_VALUE : ++t.sched().step;
    }

    private void at(T t, Object lock) {
        t.inner = true; // waiting for our own monitor is no waiting
        try {
            at0(t, lock);
        } finally {
            t.inner = false;
        }
    }

    private void at0(T t, Object lock) {
        if (stop) throw new Stop();
        synchronized (this) {
            if (turn == t.id) {
                t.lock = lock;
                step++;
                decide(t);
            } else {
                t.real = false; // ran on after a real lock was released
            }
        }
        awaitTurn(t);
    }

    private synchronized void decide(T t) {
        int[] opt = new int[ts.length];
        int n = 0;
        boolean cur = t != null && !t.done && t.lock == null && !t.real;
        if (cur) opt[n++] = t.id;
        for (T o : ts) if (!(cur && o == t) && !o.done && o.lock == null && !o.real) opt[n++] = o.id;
        if (n == 0) {
            if (live > 0) {
                for (T o : ts)
                    if (!o.done && o.real) { // it will come to a point
                        turn = -1;
                        return;
                    }
                error = "deadlock";
                stop = true;
                for (T o : ts) LockSupport.unpark(o);
            }
            turn = -1;
            return;
        }
        int c = 0;
        if (n > 1) {
            int k = trace.size();
            c = k < prefix.length ? Math.min(prefix[k], n - 1) : 0;
            trace.add(new int[] {n, c, cur ? 1 : 0});
        }
        turn = opt[c];
        if (turn != (t == null ? -1 : t.id)) LockSupport.unpark(ts[turn]);
    }

    private void awaitTurn(T t) {
        t.inner = true;
        int spins = 0;
        while (turn != t.id) {
            if (stop) {
                t.inner = false;
                throw new Stop();
            }
            if (++spins < 300) {
                Thread.onSpinWait();
                continue;
            }
            LockSupport.parkNanos(this, 100_000);
            look();
        }
        t.inner = false;
    }

    /** Takes the turn from a thread that waits for a lock we do not manage. */
    private synchronized void look() {
        if (!running) return;
        int u = turn;
        if (u < 0) {
            for (T o : ts) if (!o.done && !o.real && o.lock == null && o.inner) {
                decide(null);
                return;
            }
            return;
        }
        T o = ts[u];
        if (o.inner || o.done) return;
        Thread.State s = o.getState();
        if (s == Thread.State.BLOCKED || s == Thread.State.WAITING) {
            if (o.inner || turn != u) return;
            o.real = true;
            decide(null);
        }
    }

    private synchronized void finish(T t) {
        t.done = true;
        t.lock = null;
        t.real = false;
        live--;
        if (live == 0) {
            turn = -1;
            LockSupport.unpark(master);
        } else if (!stop && (turn == t.id || turn < 0)) {
            decide(t);
        }
    }

    private void runOnce(Runnable[] tasks) {
        running = false;
        trace.clear();
        error = null;
        stop = false;
        step = 0;
        turn = -1;
        live = tasks.length;
        master = Thread.currentThread();
        for (int i = 0; i < tasks.length; i++) {
            ts[i].done = false;
            ts[i].inner = true;
            ts[i].task = tasks[i];
        }
        synchronized (this) {
            running = true;
            decide(null);
        }
        for (int i = 0; i < tasks.length; i++) LockSupport.unpark(ts[i]);
        long t0 = System.nanoTime();
        while (live > 0) {
            LockSupport.parkNanos(this, 1_000_000);
            if (System.nanoTime() - t0 > 10_000_000_000L) {
                error = "no progress";
                stop = true;
                for (T o : ts) LockSupport.unpark(o);
                t0 = System.nanoTime();
                if (stuck++ > 3) throw new IllegalStateException("threads do not end");
            }
        }
    }

    int stuck;
    volatile boolean running;

    public interface Program {
        Runnable[] start();

        /** What is wrong after a run, or null. */
        String end();
    }

    /** Explores all schedules; returns their number, or reports through bad and stops. */
    public long explore(Program p, int bound, StringBuilder bad) {
        long n = 0;
        prefix = new int[0];
        for (;;) {
            Runnable[] r = p.start();
            runOnce(r);
            n++;
            String e = error != null ? error : p.end();
            if (e != null) {
                StringBuilder s = new StringBuilder();
                for (int[] d : trace) s.append(d[1]);
                bad.append(e).append(" under schedule ").append(s);
                return n;
            }
            int i = trace.size() - 1;
            int[] pre = new int[trace.size() + 1];
            for (int k = 0; k < trace.size(); k++) pre[k + 1] = pre[k] + (trace.get(k)[2] == 1 && trace.get(k)[1] > 0 ? 1 : 0);
            for (; i >= 0; i--) {
                int[] d = trace.get(i);
                if (d[1] + 1 < d[0] && (d[2] == 0 || pre[i] + 1 <= bound)) break;
            }
            if (i < 0) return n;
            int[] np = new int[i + 1];
            for (int k = 0; k < i; k++) np[k] = trace.get(k)[1];
            np[i] = trace.get(i)[1] + 1;
            prefix = np;
        }
    }
}
