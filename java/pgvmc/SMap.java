package pgvmc;

import java.util.*;
import java.util.concurrent.ConcurrentMap;
import java.util.function.*;

/** A ConcurrentHashMap whose operations are steps of the scheduler: atomic by key, functions run under the lock of the key. */
public class SMap<K, V> extends AbstractMap<K, V> implements ConcurrentMap<K, V> {
    private final Map<K, V> m = new HashMap<>();
    private final Map<Object, Object[]> locks = new HashMap<>(); // key -> lock, owner

    public SMap() {}

    public SMap(int n) {}

    public SMap(int n, float f) {}

    public SMap(int n, float f, int l) {}

    public SMap(Map<? extends K, ? extends V> o) {
        m.putAll(o);
    }

    private void free(Object k) {
        if (k == null) throw new NullPointerException();
        Sched.point();
        Object[] l;
        while ((l = locks.get(k)) != null) {
            if (l[1] == Thread.currentThread()) throw new IllegalStateException("Recursive update");
            Sched.block(l);
        }
    }

    private <R> R under(Object k, Supplier<R> f) {
        Object[] l = {k, Thread.currentThread()};
        locks.put(k, l);
        try {
            return f.get();
        } finally {
            locks.remove(k);
            Sched.release(l);
        }
    }

    @Override
    public V get(Object k) {
        if (k == null) throw new NullPointerException();
        Sched.point();
        return m.get(k);
    }

    @Override
    public V getOrDefault(Object k, V d) {
        V v = get(k);
        return v == null ? d : v;
    }

    @Override
    public boolean containsKey(Object k) {
        return get(k) != null;
    }

    @Override
    public V put(K k, V v) {
        if (v == null) throw new NullPointerException();
        free(k);
        return m.put(k, v);
    }

    @Override
    public V putIfAbsent(K k, V v) {
        if (v == null) throw new NullPointerException();
        free(k);
        return m.putIfAbsent(k, v);
    }

    @Override
    public V remove(Object k) {
        free(k);
        return m.remove(k);
    }

    @Override
    public boolean remove(Object k, Object v) {
        free(k);
        return m.remove(k, v);
    }

    @Override
    public V replace(K k, V v) {
        free(k);
        return m.replace(k, v);
    }

    @Override
    public boolean replace(K k, V a, V b) {
        free(k);
        return m.replace(k, a, b);
    }

    @Override
    public V computeIfAbsent(K k, Function<? super K, ? extends V> f) {
        free(k);
        V v = m.get(k);
        if (v != null) return v;
        return under(k, () -> {
            V w = f.apply(k);
            if (w != null) m.put(k, w);
            return w;
        });
    }

    @Override
    public V computeIfPresent(K k, BiFunction<? super K, ? super V, ? extends V> f) {
        free(k);
        return m.get(k) == null ? null : compute0(k, f);
    }

    @Override
    public V compute(K k, BiFunction<? super K, ? super V, ? extends V> f) {
        free(k);
        return compute0(k, f);
    }

    private V compute0(K k, BiFunction<? super K, ? super V, ? extends V> f) {
        return under(k, () -> {
            V w = f.apply(k, m.get(k));
            if (w == null) m.remove(k);
            else m.put(k, w);
            return w;
        });
    }

    @Override
    public V merge(K k, V v, BiFunction<? super V, ? super V, ? extends V> f) {
        free(k);
        return compute0(k, (a, o) -> o == null ? v : f.apply(o, v));
    }

    @Override
    public int size() {
        Sched.point();
        return m.size();
    }

    @Override
    public void clear() {
        Sched.point();
        m.clear();
    }

    @Override
    public Set<Map.Entry<K, V>> entrySet() {
        Sched.point();
        return new HashMap<>(m).entrySet();
    }

    public java.util.Enumeration<K> keys() {
        return Collections.enumeration(keySet());
    }
}
