package pgvmc;

import com.google.protobuf.*;
import io.envoyproxy.pgv.*;

public class ConcRun implements ConcSide {
    private Class<?> c;
    private Parser<?> parser;

    @Override
    public void type(String name) throws Exception {
        String[] p = name.split("\\.", 3);
        c = Class.forName("pgvmc.j." + p[1] + "." + p[2].replace(".", "$"), true, ConcRun.class.getClassLoader());
        parser = ((Message) c.getMethod("getDefaultInstance").invoke(null)).getParserForType();
    }

    @Override
    public Object parse(byte[] wire) throws Exception {
        try {
            return parser.parseFrom(wire);
        } catch (InvalidProtocolBufferException e) {
            return null;
        }
    }

    @Override
    public Object validator() {
        return new ReflectiveValidatorIndex().validatorFor(c);
    }

    @Override
    @SuppressWarnings("unchecked")
    public String[] ask(Object validator, Object message) {
        try {
            ((Validator<Object>) validator).assertValid(message);
            return new String[] {"1"};
        } catch (UnimplementedException e) {
            return new String[] {"T", e.getField(), e.getMessage()};
        } catch (ValidationException e) {
            return new String[] {"0", e.getField(), e.getMessage(), e.getReason(), String.valueOf(e.getValue())};
        } catch (Sched.Stop e) {
            throw e;
        } catch (Throwable e) {
            return new String[] {"X", "" + e};
        }
    }

    @Override
    public boolean same(Object message, byte[] wire) throws Exception {
        Message m = (Message) message, w = (Message) parser.parseFrom(wire);
        return m.toByteString().equals(w.toByteString()) || m.equals(w);
    }
}
