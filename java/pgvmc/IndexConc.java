package pgvmc;

/** Index under the scheduler. */
public class IndexConc {
    public static void main(String[] a) throws Exception {
        Instr l = new Instr(IndexConc.class.getClassLoader(), new String[] {"io.envoyproxy.pgv.", "pgvmc.j.", "pgvmc.Index"}, new String[] {"io.envoyproxy.pgv."});
        Thread.currentThread().setContextClassLoader(l);
        l.loadClass("pgvmc.Index").getMethod("main", String[].class).invoke(null, (Object) a);
    }
}
