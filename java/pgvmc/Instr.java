package pgvmc;

import java.io.InputStream;
import jdk.internal.org.objectweb.asm.*;
import jdk.internal.org.objectweb.asm.commons.*;

/** Loads the classes below some names itself, with the scheduler's maps and a point before each access to a field. */
public class Instr extends ClassLoader {
    private final String[] own, inst;
    /** Whether what is validated with is watched too, at each call into a library and each store into an array. */
    boolean calls;
    /** The fields of watched classes that hold state, and what they held when first seen. */
    private final java.util.Map<java.lang.reflect.Field, Object> state = new java.util.LinkedHashMap<>();
    private final java.util.List<Class<?>> watched = new java.util.ArrayList<>();
    /** The names of all watched classes. */
    final java.util.Set<String> names = new java.util.TreeSet<>();

    /** Puts the state of the watched classes back to what it was at first. */
    synchronized void reset() throws ReflectiveOperationException {
        for (Class<?> c : watched.toArray(new Class<?>[0])) {
            Class.forName(c.getName(), true, this);
            for (java.lang.reflect.Field f : c.getDeclaredFields()) {
                if (!java.lang.reflect.Modifier.isStatic(f.getModifiers()) || f.isSynthetic()) continue;
                try {
                    f.setAccessible(true);
                } catch (RuntimeException e) {
                    continue;
                }
                Object v = f.get(null);
                if (v instanceof java.util.Map && ((java.util.Map<?, ?>) v).isEmpty() || v instanceof java.util.Collection && ((java.util.Collection<?>) v).isEmpty()) state.putIfAbsent(f, EMPTY);
                else if (!java.lang.reflect.Modifier.isFinal(f.getModifiers())) state.putIfAbsent(f, v);
            }
        }
        watched.clear();
        for (java.util.Map.Entry<java.lang.reflect.Field, Object> e : state.entrySet()) {
            java.lang.reflect.Field f = e.getKey();
            Object v = f.get(null);
            if (e.getValue() != EMPTY) f.set(null, e.getValue());
            else if (v instanceof java.util.Map) ((java.util.Map<?, ?>) v).clear();
            else if (v instanceof java.util.Collection) ((java.util.Collection<?>) v).clear();
        }
    }

    private static final Object EMPTY = new Object();

    Instr(ClassLoader parent, String[] own, String[] inst) {
        super(parent);
        this.own = own;
        this.inst = inst;
    }

    private static boolean starts(String n, String[] ps) {
        for (String p : ps) if (n.startsWith(p)) return true;
        return false;
    }

    @Override
    protected Class<?> loadClass(String name, boolean resolve) throws ClassNotFoundException {
        synchronized (getClassLoadingLock(name)) {
            Class<?> c = findLoadedClass(name);
            if (c == null && starts(name, own)) {
                byte[] b;
                try (InputStream in = getParent().getResourceAsStream(name.replace('.', '/') + ".class")) {
                    if (in == null) throw new ClassNotFoundException(name);
                    b = in.readAllBytes();
                } catch (java.io.IOException e) {
                    throw new ClassNotFoundException(name, e);
                }
                boolean checks = name.endsWith("Validation") || name.startsWith("pgvmc.");
                if (!starts(name, inst) || name.startsWith("io.envoyproxy.pgv.validate.")) checks = false;
                else if (!checks) b = rewrite(b, false);
                else if (calls && (name.endsWith("Validation") || name.matches(".*Validator(\\$.*)?"))) b = rewrite(b, true);
                c = defineClass(name, b, 0, b.length);
                if (calls && checks && starts(name, inst) && (name.endsWith("Validation") || name.matches(".*Validator(\\$.*)?"))) {
                    watched.add(c);
                    names.add(name);
                }
            }
            return c != null ? c : super.loadClass(name, resolve);
        }
    }

    static boolean library(String owner) {
        if (owner.startsWith("[") || owner.endsWith("Builder")) return true;
        if (owner.startsWith("java/lang/")) return owner.startsWith("java/lang/StringBu") || owner.startsWith("java/lang/Thread") || owner.startsWith("java/lang/ref");
        return !owner.startsWith("com/google/protobuf/") && !owner.startsWith("pgvmc/") && !owner.startsWith("io/envoyproxy/");
    }

    static byte[] rewrite(byte[] b, boolean calls) {
        ClassReader r = new ClassReader(b);
        ClassWriter w = new ClassWriter(r, ClassWriter.COMPUTE_MAXS);
        Remapper m = new Remapper() {
            @Override
            public String map(String n) {
                switch (n) {
                    case "java/util/concurrent/ConcurrentHashMap":
                    case "java/util/concurrent/ConcurrentSkipListMap":
                        return "pgvmc/SMap";
                    case "java/util/HashMap":
                    case "java/util/LinkedHashMap":
                    case "java/util/WeakHashMap":
                    case "java/util/IdentityHashMap":
                        return "pgvmc/RMap";
                }
                return n;
            }
        };
        ClassVisitor points = new ClassVisitor(Opcodes.ASM8, new ClassRemapper(w, m)) {
            @Override
            public MethodVisitor visitMethod(int acc, String name, String desc, String sig, String[] ex) {
                MethodVisitor v = super.visitMethod(acc, name, desc, sig, ex);
                if (name.equals("<init>") || name.equals("<clinit>")) return v;
                return new MethodVisitor(Opcodes.ASM8, v) {
                    @Override
                    public void visitFieldInsn(int op, String owner, String n, String d) {
                        if ((owner.startsWith("io/envoyproxy/") || calls && owner.startsWith("pgvmc/j/")) && !n.startsWith("ALWAYS_") && !n.startsWith("this$") && !n.startsWith("val$"))
                            super.visitMethodInsn(Opcodes.INVOKESTATIC, "pgvmc/Sched", "point", "()V", false);
                        super.visitFieldInsn(op, owner, n, d);
                    }

                    @Override
                    public void visitMethodInsn(int op, String owner, String n, String d, boolean itf) {
                        if (calls && !n.equals("<init>") && library(owner)) super.visitMethodInsn(Opcodes.INVOKESTATIC, "pgvmc/Sched", "point", "()V", false);
                        super.visitMethodInsn(op, owner, n, d, itf);
                    }

                    @Override
                    public void visitInsn(int op) {
                        if (calls && op >= Opcodes.IASTORE && op <= Opcodes.SASTORE)
                            super.visitMethodInsn(Opcodes.INVOKESTATIC, "pgvmc/Sched", "point", "()V", false);
                        super.visitInsn(op);
                    }
                };
            }
        };
        r.accept(points, 0);
        return w.toByteArray();
    }
}
