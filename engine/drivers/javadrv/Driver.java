package verif;

import com.google.protobuf.GeneratedMessageV3;
import io.envoyproxy.pgv.ReflectiveValidatorIndex;
import io.envoyproxy.pgv.UnimplementedException;
import io.envoyproxy.pgv.ValidationException;
import io.envoyproxy.pgv.Validator;
import io.envoyproxy.pgv.ValidatorIndex;
import java.io.PrintWriter;
import java.nio.ByteBuffer;
import java.nio.ByteOrder;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.function.Supplier;

/** Runs recorded cases through the generated validators and logs what they did. */
public final class Driver {
    static final class Case {
        int id;
        String name;
        byte[] bytes;
    }

    static final Map<String, Supplier<GeneratedMessageV3>> TYPES = new HashMap<>();

    static List<Case> load(String path) throws Exception {
        ByteBuffer b = ByteBuffer.wrap(Files.readAllBytes(Paths.get(path))).order(ByteOrder.LITTLE_ENDIAN);
        List<Case> out = new ArrayList<>();
        while (b.hasRemaining()) {
            Case c = new Case();
            c.id = b.getInt();
            byte[] n = new byte[b.getInt()];
            b.get(n);
            c.name = new String(n, StandardCharsets.UTF_8);
            c.bytes = new byte[b.getInt()];
            b.get(c.bytes);
            out.add(c);
        }
        return out;
    }

    static String hex(String s) {
        if (s == null) {
            s = "null";
        }
        if (s.length() > 400) {
            s = s.substring(0, 400);
        }
        StringBuilder r = new StringBuilder();
        for (byte x : s.getBytes(StandardCharsets.UTF_8)) {
            r.append(Character.forDigit((x >> 4) & 15, 16)).append(Character.forDigit(x & 15, 16));
        }
        return r.toString();
    }

    static GeneratedMessageV3 decode(Case c) {
        Supplier<GeneratedMessageV3> s = TYPES.get(c.name);
        if (s == null) {
            throw new IllegalStateException("unknown type " + c.name);
        }
        GeneratedMessageV3 m = s.get();
        m.mergeFrom(c.bytes);
        return m;
    }

    @SuppressWarnings("unchecked")
    static String[] validate(ValidatorIndex index, GeneratedMessageV3 m) {
        try {
            Validator<GeneratedMessageV3> v = index.validatorFor(m);
            v.assertValid(m);
            return new String[] {"T", "", ""};
        } catch (UnimplementedException e) {
            return new String[] {"U", e.getField(), e.getMessage()};
        } catch (ValidationException e) {
            return new String[] {"F", e.getField(), e.getMessage()};
        } catch (Throwable t) {
            StackTraceElement[] st = t.getStackTrace();
            return new String[] {"X", t.getClass().getName(), t + (st.length > 0 ? " at " + st[0] : "")};
        }
    }

    /** isValid is assertValid without the exception. */
    @SuppressWarnings("unchecked")
    static String disagree(Validator v, Object m, String verdict) {
        boolean ok;
        try {
            ok = v.isValid(m);
        } catch (Throwable t) {
            return verdict.equals("X") ? null : "assertValid gives " + verdict + ", isValid throws " + t;
        }
        return verdict.equals("X") || ok == verdict.equals("T") ? null : "assertValid gives " + verdict + ", isValid is " + ok;
    }

    static String one(ValidatorIndex index, Case c) {
        GeneratedMessageV3 m;
        try {
            m = decode(c);
        } catch (GeneratedMessageV3.Malformed e) {
            return c.id + "\tB\t\t" + hex(e.getMessage());
        }
        String before = c.bytes.length < 20000 ? m.toString() : "";
        String[] r = validate(index, m);
        String[] s = validate(index, m);
        if (!r[0].equals(s[0]) || !r[1].equals(s[1])) {
            r = new String[] {"X", "unstable", "validating twice gives " + r[0] + " " + r[1] + " then " + s[0] + " " + s[1]};
        } else if (c.id % 3 == 0 && disagree(index.validatorFor(m.getClass()), m, r[0]) != null) {
            r = new String[] {"X", "isValid", disagree(index.validatorFor(m.getClass()), m, r[0])};
        } else if (c.bytes.length < 20000 && !before.equals(m.toString())) {
            r = new String[] {"X", "modified", "validation changed the message"};
        }
        return c.id + "\t" + r[0] + "\t" + hex(r[1]) + "\t" + hex(r[2]);
    }

    public static void main(String[] a) throws Exception {
        Reg.all(TYPES);
        switch (a[0]) {
            case "run":
                run(a);
                return;
            default:
                Lookup.main(a);
        }
    }

    static void run(String[] a) throws Exception {
        List<Case> cs = load(a[1]);
        String[] out = new String[cs.size()];
        ValidatorIndex index = new ReflectiveValidatorIndex();
        AtomicInteger next = new AtomicInteger();
        Thread[] ts = new Thread[8];
        Throwable[] bad = new Throwable[1];
        for (int t = 0; t < ts.length; t++) {
            ts[t] = new Thread(null, () -> {
                try {
                    for (int i = next.getAndIncrement(); i < cs.size(); i = next.getAndIncrement()) {
                        out[i] = one(index, cs.get(i));
                    }
                } catch (Throwable x) {
                    bad[0] = x;
                }
            }, "w" + t, 512L << 20);
            ts[t].start();
        }
        for (Thread t : ts) {
            t.join();
        }
        if (bad[0] != null) {
            throw new RuntimeException(bad[0]);
        }
        try (PrintWriter w = new PrintWriter(Files.newBufferedWriter(Paths.get(a[2]), StandardCharsets.UTF_8))) {
            for (String s : out) {
                w.println(s);
            }
        }
        System.out.println("DRV-OK " + out.length);
    }
}
