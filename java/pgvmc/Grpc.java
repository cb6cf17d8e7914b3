package pgvmc;

import com.google.protobuf.Any;
import com.google.protobuf.Message;
import com.google.rpc.BadRequest;
import io.envoyproxy.pgv.*;
import io.envoyproxy.pgv.grpc.*;
import io.grpc.*;
import io.grpc.protobuf.ProtoUtils;
import io.grpc.protobuf.StatusProto;
import io.grpc.stub.*;
import java.util.*;

/** Every sequence of events of one or two calls through the interceptors, against a plain model. */
public class Grpc {
    static final List<Message> MSG = new ArrayList<>(); // valid, valid, invalid, invalid in another class
    static final List<String> FIELD = new ArrayList<>();
    static MethodDescriptor<Message, Message>[] methods;
    static final ValidatorIndex GEN = new ReflectiveValidatorIndex();

    static final class Flaky implements ValidatorIndex {
        @Override
        public <T> Validator<T> validatorFor(Class c) {
            return p -> {
                if (MSG.indexOf(p) >= 2) throw new UnimplementedException("odd field \u00e9", "not now");
            };
        }
    }

    static final ValidatorIndex[] INDEXES = {GEN, new Flaky()};

    static String want(ValidatorIndex x, Object m) throws Exception {
        try {
            x.validatorFor(m.getClass()).assertValid(m);
            return null;
        } catch (ValidationException e) {
            return e.getField() + "|" + e.getReason() + "|" + e.getMessage();
        }
    }

    /** What a status tells. */
    static String tells(Status s, Metadata t) throws Exception {
        if (s.getCode() != Status.Code.INVALID_ARGUMENT) return "status " + s.getCode();
        com.google.rpc.Status p = StatusProto.fromStatusAndTrailers(s, t);
        if (p == null || p.getCode() != 3 || p.getDetailsCount() != 1) return "no detail: " + p;
        Any a = p.getDetails(0);
        if (!a.is(BadRequest.class)) return "detail " + a.getTypeUrl();
        BadRequest b = a.unpack(BadRequest.class);
        if (b.getFieldViolationsCount() != 1) return "violations " + b.getFieldViolationsCount();
        return b.getFieldViolations(0).getField() + "|" + b.getFieldViolations(0).getDescription() + "|" + s.getDescription();
    }

    static final class Log extends ArrayList<String> {
        final List<Message> ms = new ArrayList<>();
    }

    static final class Srv extends ServerCall<Message, Message> {
        final Log log;
        final MethodDescriptor<Message, Message> m;
        int closes;
        boolean cancelled;

        Srv(Log l, MethodDescriptor<Message, Message> m) {
            log = l;
            this.m = m;
        }

        @Override
        public void request(int n) {
            log.add("request " + n);
        }

        @Override
        public void sendHeaders(Metadata h) {
            log.add("headers");
        }

        @Override
        public void sendMessage(Message r) {
            log.add("send " + MSG.indexOf(r));
        }

        @Override
        public void close(Status s, Metadata t) {
            closes++;
            try {
                log.add("close " + (s.isOk() ? "OK" : tells(s, t)));
            } catch (Exception e) {
                log.add("close threw " + e);
            }
        }

        @Override
        public boolean isCancelled() {
            return cancelled;
        }

        @Override
        public MethodDescriptor<Message, Message> getMethodDescriptor() {
            return m;
        }
    }

    static ServerCall.Listener<Message> recorder(Log log) {
        return new ServerCall.Listener<Message>() {
            @Override
            public void onMessage(Message m) {
                int i = -1;
                for (int k = 0; k < MSG.size(); k++) if (MSG.get(k) == m) i = k;
                log.add("message " + i);
            }

            @Override
            public void onHalfClose() {
                log.add("half");
            }

            @Override
            public void onCancel() {
                log.add("cancel");
            }

            @Override
            public void onComplete() {
                log.add("complete");
            }

            @Override
            public void onReady() {
                log.add("ready");
            }
        };
    }

    static final String[] EV = {"m0", "m1", "m2", "m3", "half", "cancel", "complete", "ready"};

    static void fire(ServerCall.Listener<Message> l, int e) {
        switch (e) {
            case 4:
                l.onHalfClose();
                break;
            case 5:
                l.onCancel();
                break;
            case 6:
                l.onComplete();
                break;
            case 7:
                l.onReady();
                break;
            default:
                l.onMessage(MSG.get(e));
        }
    }

    static long n, events;
    static int bads;

    static void bad(String fam, String what, int[] h) {
        StringBuilder s = new StringBuilder();
        for (int x : h) s.append(x / EV.length).append('.').append(EV[x % EV.length]).append(' ');
        System.out.println("BAD\t" + fam + "\t" + (what + " in " + s).replace('\n', ' ').replace('\t', ' '));
        if (++bads > 60) System.exit(0);
    }

    static Log ready(Log l) {
        Log o = new Log();
        for (String s : l) if (!s.equals("ready")) o.add(s);
        return o;
    }

    /** Two calls over one interceptor. */
    static void server(int depth, ValidatorIndex x, int calls) throws Exception {
        int k = EV.length * calls;
        String[] wants = new String[4];
        for (int i = 0; i < 4; i++) wants[i] = want(x, MSG.get(i));
        int[] h = new int[depth];
        ServerInterceptor in = new ValidatingServerInterceptor(x);
        do {
            n++;
            Log[] got = new Log[calls], exp = new Log[calls];
            boolean[] aborted = new boolean[calls];
            @SuppressWarnings("unchecked")
            ServerCall.Listener<Message>[] ls = new ServerCall.Listener[calls];
            String err = null;
            for (int c = 0; c < calls; c++) {
                Log g = got[c] = new Log();
                exp[c] = new Log();
                Metadata md = new Metadata();
                Srv call = new Srv(g, methods[3]);
                ls[c] = in.interceptCall(call, md, (cc, m) -> {
                    g.add(m == md && cc.getMethodDescriptor() == call.m ? "start" : "other headers");
                    return recorder(g);
                });
                exp[c].add("start");
            }
            for (int op : h) {
                int c = op / EV.length, e = op % EV.length;
                events++;
                try {
                    fire(ls[c], e);
                } catch (Throwable t) {
                    err = "event " + EV[e] + " threw " + t;
                    break;
                }
                if (e < 4) {
                    if (aborted[c]) continue;
                    if (wants[e] == null) exp[c].add("message " + e);
                    else {
                        aborted[c] = true;
                        exp[c].add("close " + wants[e]);
                    }
                } else if (e != 4 || !aborted[c]) {
                    exp[c].add(e == 4 ? "half" : EV[e]);
                }
            }
            for (int c = 0; c < calls && err == null; c++) {
                Log g = got[c], w = exp[c];
                if (aborted[c]) { // whether the service hears of readiness then is not said
                    g = ready(g);
                    w = ready(w);
                }
                if (!g.equals(w)) err = "call " + c + " saw " + g + " and not " + w;
            }
            if (err != null) {
                bad("server", err, h);
                if (bads > 20) return;
            }
        } while (next(h, k));
    }

    static boolean next(int[] h, int k) {
        int i = h.length - 1;
        while (i >= 0 && ++h[i] == k) h[i--] = 0;
        return i >= 0;
    }

    /** Services written with stubs, for histories a transport can produce. */
    static void stubs(int depth, ValidatorIndex x) throws Exception {
        String[] wants = new String[4];
        for (int i = 0; i < 4; i++) wants[i] = want(x, MSG.get(i));
        for (int d = 0; d <= depth; d++) {
            int[] h = new int[d];
            do {
                int half = -1, end = -1;
                boolean ok = true;
                for (int i = 0; i < d; i++) {
                    if (end >= 0 || h[i] <= 4 && half >= 0) ok = false;
                    if (h[i] == 4) half = i;
                    if (h[i] == 5 || h[i] == 6) end = i;
                }
                if (!ok) continue;
                for (int kind = 0; kind < 4; kind++) {
                    if (kind < 2) { // one request at most, and it is whole
                        int ms = 0;
                        for (int e : h) if (e < 4) ms++;
                        if (ms > 1 || half >= 0 && ms == 0) continue;
                    }
                    n++;
                    Log g = new Log();
                    ServerCallHandler<Message, Message> hd;
                    StreamObserver<Message>[] none = null;
                    if (kind == 0) hd = ServerCalls.asyncUnaryCall((m, o) -> {
                        g.add("call " + MSG.indexOf(m));
                        o.onNext(m);
                        o.onCompleted();
                    });
                    else if (kind == 1) hd = ServerCalls.asyncServerStreamingCall((m, o) -> {
                        g.add("call " + MSG.indexOf(m));
                        o.onNext(m);
                        o.onNext(m);
                        o.onCompleted();
                    });
                    else {
                        ServerCalls.BidiStreamingMethod<Message, Message> f = o -> new StreamObserver<Message>() {
                            @Override
                            public void onNext(Message m) {
                                g.add("next " + MSG.indexOf(m));
                            }

                            @Override
                            public void onError(Throwable t) {
                                g.add("error");
                            }

                            @Override
                            public void onCompleted() {
                                g.add("completed");
                                o.onNext(MSG.get(0));
                                o.onCompleted();
                            }
                        };
                        hd = kind == 2 ? ServerCalls.asyncClientStreamingCall(f::invoke) : ServerCalls.asyncBidiStreamingCall(f);
                    }
                    Srv call = new Srv(g, methods[kind]);
                    String err = null;
                    boolean aborted = false;
                    try {
                        ServerCall.Listener<Message> l = new ValidatingServerInterceptor(x).interceptCall(call, new Metadata(), hd);
                        for (int e : h) {
                            events++;
                            if (e == 5) call.cancelled = true;
                            fire(l, e);
                        }
                    } catch (Throwable t) {
                        err = "threw " + t;
                    }
                    List<String> seen = new ArrayList<>(), exp = new ArrayList<>();
                    String close = null;
                    for (String s : g) {
                        if (s.startsWith("call") || s.startsWith("next") || s.equals("completed")) seen.add(s);
                        if (s.startsWith("close")) close = s;
                    }
                    String wclose = null;
                    int last = -1;
                    for (int e : h) {
                        if (aborted) break;
                        if (e < 4 && wants[e] != null) {
                            aborted = true;
                            wclose = "close " + wants[e];
                        } else if (e < 4) {
                            last = e;
                            if (kind >= 2) exp.add("next " + e);
                        } else if (e == 4) {
                            exp.add(kind < 2 ? "call " + last : "completed");
                            wclose = "close OK";
                        }
                    }
                    if (err == null && !seen.equals(exp)) err = "the service saw " + seen + " and not " + exp;
                    if (err == null && call.closes > 1) err = "closed " + call.closes + " times: " + g;
                    if (err == null && !Objects.equals(close, wclose)) err = "ended with " + close + " and not " + wclose;
                    if (err != null) {
                        bad("stub" + kind, err, h);
                        if (bads > 40) return;
                    }
                }
            } while (next(h, EV.length));
        }
    }

    static final String[] CEV = {"m0", "m1", "m2", "m3", "half", "cancel", "request", "response"};

    static void client(int depth, ValidatorIndex x, int calls) throws Exception {
        String[] wants = new String[4];
        for (int i = 0; i < 4; i++) wants[i] = want(x, MSG.get(i));
        int[] h = new int[depth];
        ClientInterceptor in = new ValidatingClientInterceptor(x);
        do {
            n++;
            Log[] got = new Log[calls], exp = new Log[calls];
            String err = null;
            @SuppressWarnings("unchecked")
            ClientCall<Message, Message>[] cs = new ClientCall[calls];
            @SuppressWarnings("unchecked")
            ClientCall.Listener<Message>[] ls = new ClientCall.Listener[calls];
            for (int c = 0; c < calls; c++) {
                Log g = got[c] = new Log();
                exp[c] = new Log();
                final int cc = c;
                CallOptions opt = CallOptions.DEFAULT.withAuthority("a" + c);
                Channel ch = new Channel() {
                    @Override
                    @SuppressWarnings("unchecked")
                    public <Q, P> ClientCall<Q, P> newCall(MethodDescriptor<Q, P> m, CallOptions o) {
                        g.add(m == (Object) methods[3] && o == opt ? "new" : "new, changed");
                        return (ClientCall<Q, P>) new ClientCall<Message, Message>() {
                            @Override
                            public void start(Listener<Message> l, Metadata m) {
                                ls[cc] = l;
                                g.add("start");
                            }

                            @Override
                            public void request(int n) {
                                g.add("request");
                            }

                            @Override
                            public void cancel(String s, Throwable t) {
                                g.add("cancel " + s);
                            }

                            @Override
                            public void halfClose() {
                                g.add("half");
                            }

                            @Override
                            public void sendMessage(Message m) {
                                int i = -1;
                                for (int k = 0; k < MSG.size(); k++) if (MSG.get(k) == m) i = k;
                                g.add("message " + i);
                            }
                        };
                    }

                    @Override
                    public String authority() {
                        return "x";
                    }
                };
                cs[c] = in.interceptCall(methods[3], opt, ch);
                cs[c].start(new ClientCall.Listener<Message>() {
                    @Override
                    public void onMessage(Message m) {
                        g.add("got " + MSG.indexOf(m));
                    }
                }, new Metadata());
                exp[c].add("new");
                exp[c].add("start");
            }
            for (int op : h) {
                int c = op / CEV.length, e = op % CEV.length;
                events++;
                try {
                    switch (e) {
                        case 4:
                            cs[c].halfClose();
                            exp[c].add("half");
                            break;
                        case 5:
                            cs[c].cancel("why", null);
                            exp[c].add("cancel why");
                            break;
                        case 6:
                            cs[c].request(1);
                            exp[c].add("request");
                            break;
                        case 7:
                            ls[c].onMessage(MSG.get(2));
                            exp[c].add("got 2");
                            break;
                        default:
                            if (wants[e] == null) exp[c].add("message " + e);
                            cs[c].sendMessage(MSG.get(e));
                            if (wants[e] != null) err = "an invalid message was sent";
                    }
                } catch (StatusRuntimeException t) {
                    String s = tells(t.getStatus(), t.getTrailers());
                    if (e > 3 || !s.equals(wants[e])) err = "threw " + s;
                } catch (Throwable t) {
                    err = "threw " + t;
                }
            }
            for (int c = 0; c < calls && err == null; c++) if (!got[c].equals(exp[c])) err = "call " + c + " saw " + got[c] + " and not " + exp[c];
            if (err != null) {
                bad("client", err, h);
                if (bads > 60) return;
            }
        } while (next(h, CEV.length * calls));
    }

    @SuppressWarnings("unchecked")
    public static void main(String[] a) throws Exception {
        int depth = Integer.parseInt(a[0]);
        String[][] t = {{"pgvmc.j.ix.Ix$Top", "5"}, {"pgvmc.j.iy.Top", "-1"}, {"pgvmc.j.ix.Ix$Top", "-1"}, {"pgvmc.j.iy.Top", "500"}};
        for (String[] x : t) {
            Message d = (Message) Class.forName(x[0]).getMethod("getDefaultInstance").invoke(null);
            MSG.add(d.newBuilderForType().setField(d.getDescriptorForType().findFieldByName("v"), Integer.parseInt(x[1])).build());
        }
        MethodDescriptor.MethodType[] mt = {MethodDescriptor.MethodType.UNARY, MethodDescriptor.MethodType.SERVER_STREAMING, MethodDescriptor.MethodType.CLIENT_STREAMING, MethodDescriptor.MethodType.BIDI_STREAMING};
        methods = new MethodDescriptor[4];
        for (int i = 0; i < 4; i++)
            methods[i] = MethodDescriptor.<Message, Message>newBuilder().setType(mt[i]).setFullMethodName("s/m" + i).setRequestMarshaller(ProtoUtils.marshaller(MSG.get(0))).setResponseMarshaller(ProtoUtils.marshaller(MSG.get(0))).build();
        for (int i = 0; i < 4; i++)
            for (ValidatorIndex x : INDEXES)
                if ((want(x, MSG.get(i)) == null) != (i < 2)) throw new IllegalStateException("message " + i);
        for (ValidatorIndex x : INDEXES) {
            for (int d = 0; d <= depth; d++) server(d, x, 2);
            server(depth + 1, x, 1);
            stubs(depth + 1, x);
            for (int d = 0; d <= depth; d++) client(d, x, 2);
            client(depth + 1, x, 1);
        }
        System.out.println("DONE " + n + " " + events);
        System.exit(0);
    }
}
