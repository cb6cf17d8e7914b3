package pgvmc;

import java.util.*;
import java.util.function.*;

/** A HashMap used by several threads at once: a change may undo another one made meanwhile. */
public class RMap<K, V> extends AbstractMap<K, V> {
    private volatile Map<K, V> m = new HashMap<>();

    public RMap() {}

    public RMap(int n) {}

    public RMap(int n, float f) {}

    public RMap(Map<? extends K, ? extends V> o) {
        m.putAll(o);
    }

    private <R> R change(Function<Map<K, V>, R> f) {
        Sched.point();
        Map<K, V> c = new HashMap<>(m);
        Sched.point();
        R r = f.apply(c);
        m = c;
        return r;
    }

    @Override
    public V get(Object k) {
        Sched.point();
        return m.get(k);
    }

    @Override
    public V getOrDefault(Object k, V d) {
        Sched.point();
        return m.getOrDefault(k, d);
    }

    @Override
    public boolean containsKey(Object k) {
        Sched.point();
        return m.containsKey(k);
    }

    @Override
    public V put(K k, V v) {
        return change(c -> c.put(k, v));
    }

    @Override
    public V remove(Object k) {
        return change(c -> c.remove(k));
    }

    @Override
    public V computeIfAbsent(K k, Function<? super K, ? extends V> f) {
        V v = get(k);
        if (v != null) return v;
        Map<K, V> was = m;
        V w = f.apply(k);
        if (m != was) throw new ConcurrentModificationException();
        if (w != null) put(k, w);
        return w;
    }

    @Override
    public int size() {
        return m.size();
    }

    @Override
    public void clear() {
        change(c -> {
            c.clear();
            return null;
        });
    }

    @Override
    public Set<Map.Entry<K, V>> entrySet() {
        Sched.point();
        return new HashMap<>(m).entrySet();
    }
}
