package pgvmc;

import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;

/** Every schedule of two validations with one validator, up to a number of preemptions. */
public class Conc {
    static final String[] OWN = {"io.envoyproxy.pgv.", "pgvmc.j.", "pgvmc.ConcRun"}, INST = {"io.envoyproxy.pgv.", "pgvmc.j."};

    static ConcSide side(ClassLoader l, String name) throws Exception {
        ConcSide s = (ConcSide) l.loadClass("pgvmc.ConcRun").getDeclaredConstructor().newInstance();
        s.type(name);
        return s;
    }

    static String clean(String s) {
        return s.replace('\n', ' ').replace('\t', ' ');
    }

    /** The types of one list, one after the other; what is wrong with one, or null. */
    static String explore(String name, List<byte[]> wires, Sched two, int bound, long deep, long[] count) throws Exception {
        ConcSide alone = side(Conc.class.getClassLoader(), name);
        List<byte[]> vs = new ArrayList<>();
        List<String> want = new ArrayList<>();
        Map<String, Integer> per = new HashMap<>();
        for (byte[] w : wires) {
            Object m = alone.parse(w);
            if (m == null) continue;
            String[] a = alone.ask(alone.validator(), m);
            String t = Cases.told(a);
            if (want.contains(t) || per.getOrDefault(a[0], 0) >= 2) continue;
            per.merge(a[0], 1, Integer::sum);
            vs.add(w);
            want.add(t);
        }
        count[2] += vs.size();
        // which classes there are, so that none is first seen after it was used
        Instr first = new Instr(Conc.class.getClassLoader(), OWN, INST);
        first.calls = true;
        ConcSide f = side(first, name);
        for (byte[] w : vs) f.ask(f.validator(), f.parse(w));
        Instr l = new Instr(Conc.class.getClassLoader(), OWN, INST);
        l.calls = true;
        ConcSide s = side(l, name);
        for (String c : first.names) l.loadClass(c);
        l.reset();
        int n = vs.size();
        Object[] ms = new Object[n];
        for (int i = 0; i < n; i++) ms[i] = s.parse(vs.get(i));
        for (int i = 0; i < n; i++)
            for (int j = i; j < n; j++) {
                int[] v = {i, j};
                String[][] got = new String[2][];
                StringBuilder bad = new StringBuilder();
                Sched.Program p = new Sched.Program() {
                    @Override
                    public Runnable[] start() {
                        Object val = s.validator();
                        try {
                            l.reset();
                        } catch (ReflectiveOperationException e) {
                            throw new IllegalStateException(e);
                        }
                        got[0] = got[1] = null;
                        Runnable[] r = new Runnable[2];
                        for (int t = 0; t < 2; t++) {
                            int t_ = t;
                            r[t] = () -> got[t_] = s.ask(val, ms[v[t_]]);
                        }
                        return r;
                    }

                    @Override
                    public String end() {
                        count[1] += two.step;
                        try {
                            for (int t = 0; t < 2; t++) {
                                String g = got[t] == null ? "nothing" : Cases.told(got[t]);
                                if (!g.equals(want.get(v[t]))) return "the " + (t == 0 ? "first" : "second") + " call answers " + g + " and alone " + want.get(v[t]);
                                if (!s.same(ms[v[t]], vs.get(v[t]))) return "the message is changed";
                            }
                        } catch (Exception e) {
                            return "" + e;
                        }
                        return null;
                    }
                };
                long one = two.explore(p, 1, bad);
                count[0] += one;
                if (bad.length() == 0 && one <= deep) {
                    count[0] += two.explore(p, bound, bad);
                    count[3]++;
                }
                if (bad.length() > 0) return bad + " (values " + i + " and " + j + ")";
            }
        return null;
    }

    public static void main(String[] a) throws Exception {
        int shards = 4, bound = Integer.parseInt(a[2]);
        long deep = Long.parseLong(a[3]);
        List<String> all = Files.readAllLines(Paths.get(a[0]), StandardCharsets.UTF_8);
        List<String> names = new ArrayList<>();
        Map<String, List<byte[]>> wires = new HashMap<>();
        String name = null;
        for (String l : all) {
            if (l.startsWith("T ")) names.add(name = l.substring(2));
            else wires.computeIfAbsent(name, k -> new ArrayList<>()).add(Cases.unhex(l.split(" ", 4)[1]));
        }
        Thread[] ts = new Thread[shards];
        try (PrintWriter out = new PrintWriter(new OutputStreamWriter(new FileOutputStream(a[1]), StandardCharsets.UTF_8))) {
            for (int k = 0; k < shards; k++) {
                int k_ = k;
                ts[k] = new Thread(() -> {
                    long[] count = new long[4];
                    long types = 0;
                    try {
                        Sched two = new Sched(2);
                        for (int i = k_; i < names.size(); i += shards) {
                            String n = names.get(i);
                            if (!wires.containsKey(n)) continue;
                            types++;
                            String bad = explore(n, wires.get(n), two, bound, deep, count);
                            if (bad != null)
                                synchronized (out) {
                                    out.println("BAD\t" + n + "\t" + clean(bad));
                                    out.flush();
                                }
                        }
                        synchronized (out) {
                            out.println("DONE " + types + " " + count[0] + " " + count[1] + " " + count[2] + " " + count[3]);
                        }
                    } catch (Throwable e) {
                        e.printStackTrace();
                        System.exit(5);
                    }
                });
                ts[k].start();
            }
            for (Thread t : ts) t.join();
        }
        System.exit(0);
    }
}
