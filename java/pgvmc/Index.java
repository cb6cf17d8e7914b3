package pgvmc;

import com.google.protobuf.*;
import com.google.protobuf.Descriptors.FieldDescriptor;
import io.envoyproxy.pgv.*;
import java.io.*;
import java.net.*;
import java.util.*;
import java.util.concurrent.*;
import java.util.concurrent.atomic.AtomicLong;

/** Every history of lookups, registrations and validations against a plain model of the indexes. */
public class Index {
    static final int[] VALS = {-1, 5, 50, 500};

    /** A message class: its values and what its generated validator says of them ("" or a field), or null. */
    static final class C {
        final String name;
        final Class<?> c;
        final Object[] msgs = new Object[4];
        final String[] gen;
        final C[] embeds; // validated inside, by the index the validator was given
        ValidatorImpl<Object> impl;

        C(String name, ClassLoader l, String cls, String accept, C... embeds) throws Exception {
            this.name = name;
            this.embeds = embeds;
            c = Class.forName(cls, true, l);
            if (Message.class.isAssignableFrom(c)) {
                Message d = (Message) c.getMethod("getDefaultInstance").invoke(null);
                for (int i = 0; i < 4; i++) {
                    Message.Builder b = d.newBuilderForType();
                    FieldDescriptor v = d.getDescriptorForType().findFieldByName("v");
                    b.setField(v, VALS[i]);
                    for (FieldDescriptor f : d.getDescriptorForType().getFields())
                        if (f.getName().startsWith("m"))
                            for (C e : embeds)
                                if (((Message) e.msgs[i]).getDescriptorForType() == f.getMessageType()) b.setField(f, e.msgs[i]);
                    msgs[i] = b.build();
                }
                String full = d.getDescriptorForType().getFullName();
                gen = accept == null ? null : new String[4];
                for (int i = 0; gen != null && i < 4; i++) gen[i] = accept.charAt(i) == '1' ? "" : "." + full + ".v";
            } else {
                gen = null;
                for (int i = 0; i < 4; i++) msgs[i] = c == String.class ? "x" + i : c == byte[].class ? new byte[i] : (Object) i;
            }
        }
    }

    /** A configuration: the kind of the index and its fallback; "VID" stand for always valid, always invalid, the default. */
    static final class Cfg {
        final char kind;
        final Cfg fb;
        int node; // of an explicit index

        Cfg(char kind, Cfg fb) {
            this.kind = kind;
            this.fb = fb;
        }

        static Cfg of(String s) {
            return new Cfg(s.charAt(0), s.length() > 1 ? of(s.substring(1)) : null);
        }

        int number(int n) {
            if (kind == 'E') node = n++;
            return fb == null ? n : fb.number(n);
        }

        ValidatorIndex make(ExplicitValidatorIndex[] nodes) {
            switch (kind) {
                case 'V':
                    return ValidatorIndex.ALWAYS_VALID;
                case 'I':
                    return ValidatorIndex.ALWAYS_INVALID;
                case 'R':
                    return fb.kind == 'D' ? new ReflectiveValidatorIndex() : new ReflectiveValidatorIndex(fb.make(nodes));
                default:
                    ExplicitValidatorIndex e = fb.kind == 'D' ? new ExplicitValidatorIndex() : new ExplicitValidatorIndex(fb.make(nodes));
                    nodes[node] = e;
                    return e;
            }
        }
    }

    static final int KINDS = 4; // of registered validators: reject, odd, generated or picky, outer

    static ValidatorImpl<Object> impl(int k, C c) {
        switch (k) {
            case 0:
                return (p, x) -> {
                    throw new ValidationException("k0", p, "no");
                };
            case 1:
                return (p, x) -> {
                    for (int i = 0; i < 4; i += 2) if (p.equals(c.msgs[i])) throw new ValidationException("k1", p, "odd");
                };
            case 2:
                if (c.impl != null) return c.impl;
                return (p, x) -> {
                    if (p.equals(c.msgs[3])) throw new ValidationException("k2", p, "last");
                };
            default:
                return (p, x) -> { };
        }
    }

    interface Reg {
        /** The kinds that may be registered, -1 for none. */
        int[] at(int node, C c);
    }

    /** The possible outcomes. */
    static Set<String> model(Cfg g, C c, int i, Reg r) {
        switch (g.kind) {
            case 'V':
            case 'D':
                return Collections.singleton("");
            case 'I':
                return Collections.singleton("UNKNOWN");
            case 'R':
                return c.gen != null ? gen(g, c, i, r) : model(g.fb, c, i, r);
            default:
                Set<String> out = new HashSet<>();
                for (int k : r.at(g.node, c))
                    switch (k) {
                        case -1:
                            out.addAll(model(g.fb, c, i, r));
                            break;
                        case 0:
                            out.add("k0");
                            break;
                        case 1:
                            out.add(i % 2 == 0 ? "k1" : "");
                            break;
                        case 2:
                            if (c.impl != null) out.addAll(gen(g, c, i, r));
                            else out.add(i == 3 ? "k2" : "");
                            break;
                        default:
                            out.add("");
                    }
                return out;
        }
    }

    static Set<String> gen(Cfg g, C c, int i, Reg r) {
        if (!c.gen[i].isEmpty() || c.embeds.length == 0) return Collections.singleton(c.gen[i]);
        Set<String> out = new HashSet<>();
        for (C e : c.embeds) {
            Set<String> s = model(g, e, i, r);
            out.addAll(s);
            out.remove("");
            if (!s.contains("")) return out;
        }
        out.add("");
        return out;
    }

    static String verdict(Validator<Object> v, Object m) {
        try {
            v.assertValid(m);
            return "";
        } catch (ValidationException e) {
            return e.getField();
        } catch (Sched.Stop | LinkageError e) {
            throw e;
        } catch (Throwable e) {
            return "threw " + e;
        }
    }

    static Map<String, C> load(String gen) throws Exception {
        ClassLoader a = Index.class.getClassLoader();
        Map<String, C> m = new LinkedHashMap<>();
        String[][] t = {
            {"ix.Top", "pgvmc.j.ix.Ix$Top", "0111"}, {"ix.Top.Nested", "pgvmc.j.ix.Ix$Top$Nested", "0011"}, {"ix.Top.Nested.Deep", "pgvmc.j.ix.Ix$Top$Nested$Deep", "0001"},
            {"ix.Other", "pgvmc.j.ix.Ix$Other", "1100"}, {"ix.Other.Nested", "pgvmc.j.ix.Ix$Other$Nested", "1000"}, {"ix.Off", "pgvmc.j.ix.Ix$Off", "1111"},
            {"ix.Ign", "pgvmc.j.ix.Ix$Ign", null}, {"ix.Ign.Inner", "pgvmc.j.ix.Ix$Ign$Inner", "1110"}, {"ix.Plain", "pgvmc.j.ix.Ix$Plain", "1111"},
            {"iy.Top", "pgvmc.j.iy.Top", "1110"}, {"iy.Top.Nested", "pgvmc.j.iy.Top$Nested", "0100"}, {"iy.Top.Nested.Deep", "pgvmc.j.iy.Top$Nested$Deep", "0010"},
            {"iy.Other", "pgvmc.j.iy.Other", "0110"}, {"iy.Other.Nested", "pgvmc.j.iy.Other$Nested", "1001"}, {"iy.Ign", "pgvmc.j.iy.Ign", null}, {"iy.Ign.Inner", "pgvmc.j.iy.Ign$Inner", "0101"},
            {"iz.Top", "pgvmc.j.iz.Iz$Top", null}, {"iz.Top.Nested", "pgvmc.j.iz.Iz$Top$Nested", null}, {"iw.Top", "pgvmc.j.iw.Odd$Top", "0010"}, {"iw.Nested", "pgvmc.j.iw.Odd$Nested", "1011"},
        };
        for (String[] x : t) m.put(x[0], new C(x[0], a, x[1], x[2]));
        m.put("String", new C("String", a, "java.lang.String", null));
        m.put("byte[]", new C("byte[]", a, "[B", null));
        m.put("ix.Emb", new C("ix.Emb", a, "pgvmc.j.ix.Ix$Emb", "1111", m.get("ix.Top"), m.get("iz.Top"), m.get("ix.Other.Nested")));
        // the same classes once more
        URLClassLoader b = new URLClassLoader(new URL[] {new File(gen).toURI().toURL()}, a) {
            @Override
            protected Class<?> loadClass(String n, boolean r) throws ClassNotFoundException {
                synchronized (getClassLoadingLock(n)) {
                    Class<?> c = findLoadedClass(n);
                    if (c == null && n.startsWith("pgvmc.j.")) c = findClass(n);
                    return c != null ? c : super.loadClass(n, r);
                }
            }
        };
        m.put("ix'.Top", new C("ix'.Top", b, "pgvmc.j.ix.Ix$Top", "0111"));
        m.put("iy'.Top", new C("iy'.Top", b, "pgvmc.j.iy.Top", "1110"));
        for (C c : m.values())
            if (c.gen != null) {
                String o = c.c.getName().split("\\$")[0] + "Validator";
                @SuppressWarnings("unchecked")
                ValidatorImpl<Object> v = (ValidatorImpl<Object>) c.c.getClassLoader().loadClass(o).getMethod("validatorFor", Class.class).invoke(null, c.c);
                c.impl = v;
            }
        return m;
    }

    static final class Op {
        final int node, kind; // -1: validate
        final C c;

        Op(int node, C c, int kind) {
            this.node = node;
            this.c = c;
            this.kind = kind;
        }

        @Override
        public String toString() {
            return kind < 0 ? "validate(" + c.name + ")" : "add(" + node + "," + c.name + ",k" + kind + ")";
        }
    }

    static List<Op> ops(int nodes, List<C> cs, int kinds) {
        List<Op> l = new ArrayList<>();
        for (C c : cs) l.add(new Op(0, c, -1));
        for (int n = 0; n < nodes; n++) for (C c : cs) for (int k = 0; k < kinds; k++) l.add(new Op(n, c, k));
        return l;
    }

    static final String[] CFGS = {"RD", "RV", "RI", "RED", "REI", "RRI", "ED", "EV", "EI", "EED", "EEI", "ERD", "ERI", "RERI", "ERED", "EEEI", "RRED", "EERD"};
    static final String[][] SETS = {{"ix.Top", "iz.Top", "ix.Emb"}, {"ix.Top", "iy.Top", "ix'.Top"}, {"ix.Top.Nested", "ix.Other.Nested", "iy.Top.Nested"}, {"ix.Ign", "ix.Ign.Inner", "String"},
        {"iy.Ign", "iy.Ign.Inner", "ix.Off"}, {"ix.Top.Nested.Deep", "iy.Top.Nested.Deep", "iz.Top.Nested"}, {"ix.Plain", "iw.Top", "iw.Nested"}};

    static AtomicLong seqs = new AtomicLong(), checks = new AtomicLong();

    /** One history. */
    static String history(Cfg g, int nodes, List<C> all, Op[] h, int len) {
        ExplicitValidatorIndex[] es = new ExplicitValidatorIndex[nodes];
        ValidatorIndex x = g.make(es);
        Map<C, Integer>[] reg = maps(nodes);
        Reg r = (n, c) -> new int[] {reg[n].getOrDefault(c, -1)};
        List<Object[]> held = new ArrayList<>();
        int adds = 0;
        long n = 0;
        for (int k = 0; k <= len; k++) {
            List<C> cs = Collections.emptyList();
            if (k == len) {
                cs = all;
                for (Object[] o : held)
                    if ((Integer) o[2] == adds)
                        for (int i = 0; i < 4; i++) {
                            @SuppressWarnings("unchecked")
                            String got = verdict((Validator<Object>) o[1], ((C) o[0]).msgs[i]);
                            n++;
                            if (!model(g, (C) o[0], i, r).contains(got)) return "a validator of " + ((C) o[0]).name + " got before says \"" + got + "\" of v=" + VALS[i];
                        }
            } else if (h[k].kind >= 0) {
                es[h[k].node].add((Class) h[k].c.c, impl(h[k].kind, h[k].c));
                reg[h[k].node].put(h[k].c, h[k].kind);
                adds++;
            } else {
                cs = Collections.singletonList(h[k].c);
            }
            for (C c : cs) {
                Validator<Object> v = x.validatorFor((Class) c.c);
                if (v == null) return "no validator for " + c.name;
                held.add(new Object[] {c, v, adds});
                for (int i = 0; i < 4; i++) {
                    String got = verdict(v, c.msgs[i]);
                    n++;
                    Set<String> want = model(g, c, i, r);
                    if (!want.contains(got)) return "operation " + k + ": " + c.name + " v=" + VALS[i] + " says \"" + got + "\", not " + want;
                    if (v.isValid(c.msgs[i]) != got.isEmpty()) return "operation " + k + ": isValid of " + c.name + " disagrees";
                    Validator<Object> o = x.validatorFor(c.msgs[i]);
                    if (!verdict(o, c.msgs[i]).equals(got)) return "operation " + k + ": the validator found by instance disagrees, " + c.name;
                }
            }
        }
        checks.addAndGet(n);
        seqs.incrementAndGet();
        return null;
    }

    @SuppressWarnings("unchecked")
    static Map<C, Integer>[] maps(int n) {
        Map<C, Integer>[] m = new Map[n];
        for (int i = 0; i < n; i++) m[i] = new HashMap<>();
        return m;
    }

    static synchronized void bad(String what) {
        System.out.println("BAD\t" + what.replace('\n', ' '));
        if (++bads > 50) {
            System.out.flush();
            System.exit(0);
        }
    }

    static int bads;

    public static void main(String[] a) throws Exception {
        long limit = Long.parseLong(a[2]);
        Map<String, C> all = load(a[1]);
        if (a[0].equals("conc")) {
            conc(all, limit, Integer.parseInt(a[3]), Integer.parseInt(a[4]));
            return;
        }
        ExecutorService ex = Executors.newFixedThreadPool(8);
        List<Future<?>> fs = new ArrayList<>();
        for (String s : CFGS) {
            Cfg g = Cfg.of(s);
            int nodes = g.number(0);
            List<List<C>> sets = new ArrayList<>();
            if (nodes == 0) sets.add(new ArrayList<>(all.values()));
            else for (String[] n : SETS) {
                List<C> cs = new ArrayList<>();
                for (String x : n) cs.add(all.get(x));
                sets.add(cs);
            }
            for (List<C> cs : sets) {
                List<Op> ops = ops(nodes, cs, KINDS);
                int d = 1;
                while (Math.pow(ops.size(), d + 1) <= limit) d++;
                System.out.println("DEPTH " + s + " " + ops.size() + " " + d);
                final int depth = d;
                for (Op first : ops)
                    fs.add(ex.submit(() -> {
                        Op[] h = new Op[depth];
                        h[0] = first;
                        int[] ix = new int[depth];
                        int wrong = 0;
                        for (;;) {
                            for (int i = 1; i < depth; i++) h[i] = ops.get(ix[i]);
                            String e;
                            try {
                                e = history(g, nodes, cs, h, depth);
                            } catch (Throwable t) {
                                e = "threw " + t;
                            }
                            if (e != null) {
                                bad(s + "\t" + e + " in " + Arrays.toString(h));
                                if (++wrong > 2) return;
                            }
                            int i = depth - 1;
                            while (i >= 1 && ++ix[i] == ops.size()) ix[i--] = 0;
                            if (i < 1) return;
                        }
                    }));
            }
        }
        for (Future<?> f : fs) f.get();
        System.out.println("DONE " + seqs + " " + checks);
        System.exit(0);
    }

    // ---- several threads

    static final class W {
        final int start, end, kind;

        W(int s, int e, int k) {
            start = s;
            end = e;
            kind = k;
        }
    }

    static final class Prog implements Sched.Program {
        final Cfg g;
        final int nodes;
        final List<C> cs;
        final Op[][] ops;
        ValidatorIndex x;
        ExplicitValidatorIndex[] es;
        final Map<String, List<W>> writes = new HashMap<>();
        final List<Object[]> reads = new ArrayList<>(); // class, i, start, end, got

        Prog(Cfg g, int nodes, List<C> cs, Op[]... ops) {
            this.g = g;
            this.nodes = nodes;
            this.cs = cs;
            this.ops = ops;
        }

        @Override
        public Runnable[] start() {
            es = new ExplicitValidatorIndex[nodes];
            x = g.make(es);
            writes.clear();
            reads.clear();
            Runnable[] r = new Runnable[ops.length];
            for (int t = 0; t < r.length; t++) {
                final Op[] mine = ops[t];
                r[t] = () -> {
                    for (Op o : mine) {
                        int s = Sched.now();
                        if (o.kind >= 0) {
                            es[o.node].add((Class) o.c.c, impl(o.kind, o.c));
                            writes.computeIfAbsent(o.node + o.c.name, k -> new ArrayList<>()).add(new W(s, Sched.now(), o.kind));
                        } else {
                            read(o.c, s);
                        }
                    }
                };
            }
            return r;
        }

        void read(C c, int s) {
            Validator<Object> v = x.validatorFor((Class) c.c);
            for (int i = 0; i < 4; i++) {
                String got = v == null ? "no validator" : verdict(v, c.msgs[i]);
                reads.add(new Object[] {c, i, s, Sched.now(), got});
            }
        }

        @Override
        public String end() {
            for (int again = 0; again < 2; again++) for (C c : cs) read(c, Integer.MAX_VALUE - 1);
            for (Object[] q : reads) {
                int s = (Integer) q[2], e = (Integer) q[3];
                Reg r = (n, c) -> {
                    List<W> ws = writes.getOrDefault(n + c.name, Collections.emptyList());
                    List<Integer> may = new ArrayList<>();
                    boolean none = true;
                    for (W w : ws) {
                        if (w.end < s) none = false;
                        if (w.start > e) continue;
                        boolean over = false;
                        for (W o : ws) over |= w.end < o.start && o.end < s;
                        if (!over) may.add(w.kind);
                    }
                    if (none) may.add(-1);
                    return may.stream().mapToInt(z -> z).toArray();
                };
                Set<String> want = model(g, (C) q[0], (Integer) q[1], r);
                if (!want.contains(q[4])) return ((C) q[0]).name + " v=" + VALS[(Integer) q[1]] + " says \"" + q[4] + "\", not " + want + (s > 1 << 30 ? " after all" : "");
            }
            // after all, the same class gets the same answers
            int half = cs.size() * 4, k = reads.size() - 2 * half;
            for (int i = 0; i < half; i++)
                if (!reads.get(k + i)[4].equals(reads.get(k + half + i)[4])) return "after all, " + ((C) reads.get(k + i)[0]).name + " is answered differently twice";
            return null;
        }
    }

    static final String[] CCFGS = {"ED", "EI", "RI", "ERI", "RED", "EED", "RERI"};
    static final String[][] CSETS = {{"ix.Top", "iz.Top"}, {"ix.Emb", "ix.Top"}};

    static void conc(Map<String, C> all, long limit, int len, int bound) throws Exception {
        List<Prog> ps = new ArrayList<>();
        for (String s : CCFGS) {
            Cfg g = Cfg.of(s);
            int nodes = g.number(0);
            for (String[] set : CSETS) {
                List<C> cs = new ArrayList<>();
                for (String n : set) cs.add(all.get(n));
                List<Op> ops = ops(nodes, cs, 2);
                List<Op[]> seqs = new ArrayList<>();
                for (Op a : ops) {
                    seqs.add(new Op[] {a});
                    if (len >= 2) for (Op b : ops) {
                        seqs.add(new Op[] {a, b});
                        if (len >= 3) for (Op c : ops) if (c.kind < 0) seqs.add(new Op[] {a, b, c});
                    }
                }
                for (int i = 0; i < seqs.size(); i++)
                    for (int j = i; j < seqs.size(); j++) {
                        if (nodes > 1 && len < 3 && seqs.get(i).length + seqs.get(j).length > 3) continue;
                        if (seqs.get(i).length + seqs.get(j).length > 4) continue;
                        ps.add(new Prog(g, nodes, cs, seqs.get(i), seqs.get(j)));
                    }
                for (int i = 0; i < ops.size(); i++)
                    for (int j = i; j < ops.size(); j++)
                        for (int k = j; k < ops.size(); k++) ps.add(new Prog(g, nodes, cs, new Op[] {ops.get(i)}, new Op[] {ops.get(j)}, new Op[] {ops.get(k)}));
            }
        }
        // spread evenly
        Collections.shuffle(ps, new Random(1));
        long end = System.nanoTime() + limit * 1_000_000_000L;
        int workers = 4;
        AtomicLong n = new AtomicLong(), done = new AtomicLong();
        Thread[] ts = new Thread[workers];
        java.util.concurrent.atomic.AtomicInteger next = new java.util.concurrent.atomic.AtomicInteger();
        for (int w = 0; w < workers; w++) {
            (ts[w] = new Thread(() -> {
                Sched two = new Sched(2), three = new Sched(3);
                int i;
                while ((i = next.getAndIncrement()) < ps.size() && System.nanoTime() < end) {
                    Prog p = ps.get(i);
                    StringBuilder b = new StringBuilder();
                    n.addAndGet((p.ops.length == 2 ? two : three).explore(p, bound - (p.ops.length == 2 && p.ops[0].length + p.ops[1].length < 4 ? 0 : 1), b));
                    if (b.length() > 0) bad((p.g.kind + (p.g.fb == null ? "" : "" + p.g.fb.kind)) + "\tthreads " + Arrays.deepToString(p.ops) + ": " + b);
                    done.incrementAndGet();
                }
            })).start();
        }
        for (Thread t : ts) t.join();
        System.out.println("CONC " + n + " " + done + " " + ps.size());
        System.exit(0);
    }
}
