package pgvmc;

/** What Conc asks of the classes of one loader. */
public interface ConcSide {
    void type(String name) throws Exception;

    /** A message, or null. */
    Object parse(byte[] wire) throws Exception;

    /** A validator that was not used before. */
    Object validator();

    String[] ask(Object validator, Object message);

    /** Whether the message is still what the bytes say. */
    boolean same(Object message, byte[] wire) throws Exception;
}
