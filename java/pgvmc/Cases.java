package pgvmc;

import com.google.protobuf.Message;
import com.google.protobuf.Parser;
import io.envoyproxy.pgv.*;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;

/** Runs the case file written by the Go side against the Java validators. */
public class Cases {
    static byte[] unhex(String h) {
        byte[] b = new byte[h.length() / 2];
        for (int i = 0; i < b.length; i++) b[i] = (byte) Integer.parseInt(h.substring(2 * i, 2 * i + 2), 16);
        return b;
    }

    static String hexed(String s) {
        StringBuilder b = new StringBuilder();
        for (byte x : s.getBytes(StandardCharsets.UTF_8)) b.append(String.format("%02x", x));
        return b.toString();
    }

    static String[] verdict(ValidatorIndex index, Message m) {
        try {
            Validator<Message> v = index.validatorFor(m.getClass());
            v.assertValid(m);
            return new String[] {"1", "", ""};
        } catch (UnimplementedException e) {
            return new String[] {"T", e.getField(), e.getMessage()};
        } catch (ValidationException e) {
            if (e.getReason() == null || e.getMessage() == null) return new String[] {"X", "" + e.getField(), "no reason"};
            return new String[] {"0", e.getField(), e.getMessage(), e.getReason(), String.valueOf(e.getValue())};
        } catch (Throwable e) {
            return new String[] {"X", "", e + " at " + (e.getStackTrace().length > 0 ? e.getStackTrace()[0] : "")};
        }
    }

    static final java.util.regex.Pattern TIME = java.util.regex.Pattern.compile("seconds: (\\d{10})(\\s+nanos: \\d+)?");

    /** An answer without the addresses of objects and without the time of day. */
    static String told(String[] a) {
        java.util.regex.Matcher m = TIME.matcher(Arrays.toString(a).replaceAll("@[0-9a-f]+", "@").replaceAll(" of [0-9-]+T[0-9:.]+Z", " of now"));
        StringBuffer b = new StringBuffer();
        while (m.find())
            m.appendReplacement(b, Math.abs(Long.parseLong(m.group(1)) - System.currentTimeMillis() / 1000) < 86400 ? "now" : m.group());
        return m.appendTail(b).toString();
    }

    /** Every history of three calls over the values: what is wrong with one, or null. */
    static String histories(List<byte[]> wires, List<String[]> want, Parser<?> run, long[] count) throws Exception {
        int n = wires.size();
        List<Message> kept = new ArrayList<>();
        for (byte[] w : wires) kept.add((Message) run.parseFrom(w));
        for (int i = 0; i < n; i++) {
            ReflectiveValidatorIndex index = new ReflectiveValidatorIndex();
            for (int j = 0; j < n; j++)
                for (int k = 0; k < n; k++) {
                    count[0]++;
                    int[] vs = {i, j, k};
                    for (int s = 0; s < 3; s++) {
                        int v = vs[s];
                        count[1]++;
                        // the message itself, one parsed for the occasion, one edited into it
                        Message m = s == 0 ? kept.get(v) : s == 1 ? (Message) run.parseFrom(wires.get(v)) : kept.get(j).toBuilder().clear().mergeFrom(wires.get(v)).build();
                        String[] got = verdict(index, m);
                        if (!told(got).equals(told(want.get(v))))
                            return "call " + (s + 1) + " answers " + Arrays.toString(got) + " and not " + Arrays.toString(want.get(v)) + " (history " + i + " " + j + " " + k + ")";
                        if (!m.toByteString().equals(((Message) run.parseFrom(wires.get(v))).toByteString()) && !m.equals(run.parseFrom(wires.get(v))))
                            return "call " + (s + 1) + " changes the message (history " + i + " " + j + " " + k + ")";
                    }
                }
        }
        return null;
    }

    public static void main(String[] args) throws Exception {
        int shards = 8;
        String judge = args[2];
        List<String> all = Files.readAllLines(Paths.get(args[0]), StandardCharsets.UTF_8);
        ReflectiveValidatorIndex index = new ReflectiveValidatorIndex();
        Thread[] ts = new Thread[shards];
        String says = args.length > 3 && !args[3].isEmpty() ? args[3] : null;
        boolean hist = args.length > 4;
        for (int s = 0; s < shards; s++) {
            final int shard = s;
            ts[s] = new Thread(() -> {
                try (PrintWriter out = new PrintWriter(new OutputStreamWriter(new FileOutputStream(args[1] + "." + shard), StandardCharsets.UTF_8));
                     PrintWriter say = new PrintWriter(new OutputStreamWriter(new FileOutputStream(says == null ? "/dev/null" : says + "." + shard), StandardCharsets.UTF_8))) {
                    int at = 0, bad = 0;
                    long n = 0, types = 0, skipped = 0, unjudged = 0;
                    Map<String, Integer> got_ = new HashMap<>();
                    Parser<?> run = null;
                    String name = "";
                    List<byte[]> wires = new ArrayList<>();
                    List<String[]> answers = new ArrayList<>();
                    Map<String, Integer> outcomes = new HashMap<>();
                    long[] count = new long[2];
                    for (int li = 0; li <= all.size(); li++) {
                        String line = li < all.size() ? all.get(li) : null;
                        if (line == null || line.startsWith("T ")) {
                            if (run != null && !wires.isEmpty()) {
                                String what = histories(wires, answers, run, count);
                                if (what != null) out.println("HBAD\t" + name + "\t" + what.replace('\n', ' ').replace('\t', ' '));
                            }
                            wires.clear();
                            answers.clear();
                            outcomes.clear();
                            if (line == null) break;
                            run = null;
                            name = line.substring(2);
                            if (at++ % shards != shard) continue;
                            String[] p = name.split("\\.", 3);
                            try {
                                Class<?> c = Class.forName("pgvmc.j." + p[1] + "." + p[2].replace(".", "$"));
                                run = ((Message) c.getMethod("getDefaultInstance").invoke(null)).getParserForType();
                            } catch (ReflectiveOperationException e) {
                                out.println("MISSING " + name + " " + e);
                                continue;
                            }
                            types++;
                            continue;
                        }
                        if (run == null) continue;
                        String[] p = line.split(" ", 4);
                        String hex = p[1], want = p[2], fields = p.length > 3 ? p[3] : "";
                        Message m;
                        try {
                            m = (Message) run.parseFrom(unhex(hex));
                        } catch (com.google.protobuf.InvalidProtocolBufferException e) {
                            skipped++;
                            continue;
                        }
                        n++;
                        String[] got = verdict(index, m);
                        String[] twice = verdict(index, m);
                        if (hist && wires.size() < 7 && outcomes.merge(got[0] + got[1] + got[2], 1, Integer::sum) <= 2) {
                            wires.add(unhex(hex));
                            answers.add(got);
                        }
                        if (says != null && got[0].equals("0") && want.equals("0"))
                            say.println(name + "\t" + hex + "\t" + hexed(got[1]) + "\t" + hexed(got[2]) + "\t" + hexed(got[3]) + "\t" + hexed(got[4]));
                        got_.merge(got[0], 1, Integer::sum);
                        if (judge.indexOf(want) < 0) {
                            unjudged++;
                            continue;
                        }
                        boolean ok = got[0].equals(want);
                        String err = got[2];
                        if (!got[0].equals(twice[0]) || !got[1].equals(twice[1])) {
                            ok = false;
                            err = "a second call answers differently: " + twice[0] + " " + twice[2];
                        }
                        if (ok && want.equals("0") && !fields.isEmpty()) {
                            String f = got[1].startsWith(".") ? got[1].substring(1) : got[1];
                            if (!Arrays.asList(fields.split(",")).contains(f)) {
                                ok = false;
                                err = "names " + got[1] + " and not one of " + fields + ": " + err;
                            }
                        }
                        if (!ok && bad++ < 400)
                            out.println("BAD\t" + name + "\t" + hex + "\t" + got[0] + "\t" + want + "\t" + err.replace('\n', ' ').replace('\t', ' '));
                    }
                    if (hist) out.println("HIST " + count[0] + " " + count[1]);
                    out.println("DONE " + types + " " + n + " " + skipped + " " + got_.getOrDefault("1", 0) + " " + got_.getOrDefault("0", 0) + " " + got_.getOrDefault("T", 0) + " " + unjudged);
                } catch (Throwable e) {
                    e.printStackTrace();
                    System.exit(5);
                }
            });
            ts[s].start();
        }
        for (Thread t : ts) t.join();
    }
}
