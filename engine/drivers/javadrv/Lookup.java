package verif;

import com.google.protobuf.Any;
import com.google.protobuf.GeneratedMessageV3;
import com.google.rpc.BadRequest;
import io.envoyproxy.pgv.ExplicitValidatorIndex;
import io.envoyproxy.pgv.ReflectiveValidatorIndex;
import io.envoyproxy.pgv.UnimplementedException;
import io.envoyproxy.pgv.ValidationException;
import io.envoyproxy.pgv.Validator;
import io.envoyproxy.pgv.ValidatorImpl;
import io.envoyproxy.pgv.ValidatorIndex;
import io.envoyproxy.pgv.grpc.ValidatingClientInterceptor;
import io.envoyproxy.pgv.grpc.ValidatingServerInterceptor;
import io.grpc.CallOptions;
import io.grpc.Channel;
import io.grpc.ClientCall;
import io.grpc.Metadata;
import io.grpc.MethodDescriptor;
import io.grpc.ServerCall;
import io.grpc.ServerCallHandler;
import io.grpc.Status;
import io.grpc.StatusRuntimeException;
import java.io.PrintWriter;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.Collections;
import java.util.HashMap;
import java.util.IdentityHashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.Random;
import java.util.Set;
import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.CyclicBarrier;
import java.util.concurrent.atomic.AtomicLong;

/** Runs validator lookups and interceptors and logs what they did. */
final class Lookup {
    static final int THREADS = 8;
    static PrintWriter log;

    static synchronized void event(String... p) {
        log.println(String.join("\t", p));
    }

    /** An index that tells what it was asked for and whose validators tell what they were given. */
    static final class Recording implements ValidatorIndex {
        final Set<Class> asked = ConcurrentHashMap.newKeySet();
        final ThreadLocal<List<Object>> given = ThreadLocal.withInitial(ArrayList::new);
        final Map<Class, Validator> mine = new ConcurrentHashMap<>();
        final boolean reject;

        Recording(boolean reject) {
            this.reject = reject;
        }

        @Override
        @SuppressWarnings("unchecked")
        public <T> Validator<T> validatorFor(Class c) {
            asked.add(c);
            return mine.computeIfAbsent(c, k -> p -> {
                given.get().add(k);
                given.get().add(p);
                if (reject) {
                    throw new ValidationException("fallback." + k.getName(), "v", "rejected by the fallback");
                }
            });
        }
    }

    static final class Item {
        Driver.Case c;
        GeneratedMessageV3 m;
    }

    static List<Item> items(String path) throws Exception {
        List<Item> out = new ArrayList<>();
        for (Driver.Case c : Driver.load(path)) {
            Item i = new Item();
            i.c = c;
            try {
                i.m = Driver.decode(c);
            } catch (GeneratedMessageV3.Malformed e) {
                continue;
            }
            out.add(i);
        }
        return out;
    }

    static void main(String[] a) throws Exception {
        log = new PrintWriter(Files.newBufferedWriter(Paths.get(a[2]), StandardCharsets.UTF_8));
        switch (a[0]) {
            case "lookup":
                lookup(a);
                break;
            case "explicit":
                explicit(a);
                break;
            case "grpc":
                grpc(a);
                break;
            default:
                throw new IllegalArgumentException(a[0]);
        }
        log.close();
        System.out.println("DRV-OK");
    }

    @SuppressWarnings("unchecked")
    static String verdict(Validator v, Object m) {
        try {
            v.assertValid(m);
            return "T\t\t\t";
        } catch (UnimplementedException e) {
            return "U\t" + Driver.hex(e.getField()) + "\t" + Driver.hex(e.getMessage()) + "\t" + Driver.hex(e.getReason());
        } catch (ValidationException e) {
            return "F\t" + Driver.hex(e.getField()) + "\t" + Driver.hex(e.getMessage()) + "\t" + Driver.hex(e.getReason());
        } catch (Throwable t) {
            return "X\t" + Driver.hex(t.getClass().getName()) + "\t" + Driver.hex(String.valueOf(t)) + "\t";
        }
    }

    // ---- ReflectiveValidatorIndex ----

    static void lookup(String[] a) throws Exception {
        List<Item> all = items(a[1]);
        int rounds = Integer.parseInt(a[3]);
        Random rnd = new Random(Long.parseLong(a[4]));
        Map<Integer, Set<String>> seen = new HashMap<>();
        for (Item i : all) {
            seen.put(i.c.id, ConcurrentHashMap.newKeySet());
        }
        AtomicLong looked = new AtomicLong();
        AtomicLong contended = new AtomicLong();
        for (int r = 0; r < rounds; r++) {
            int kind = r % 4;
            Recording rec = kind == 2 ? new Recording(false) : kind == 3 ? new Recording(true) : null;
            ValidatorIndex index = kind == 0 ? new ReflectiveValidatorIndex() : kind == 1 ? new ReflectiveValidatorIndex(ValidatorIndex.ALWAYS_INVALID) : new ReflectiveValidatorIndex(rec);
            Map<Class, Map<Validator, Boolean>> ids = new ConcurrentHashMap<>();
            Map<Class, AtomicLong> firsts = new ConcurrentHashMap<>();
            CyclicBarrier bar = new CyclicBarrier(THREADS);
            boolean same = r % 8 < 4;
            long seed = rnd.nextLong();
            final int round = r;
            Throwable[] bad = new Throwable[1];
            Thread[] ts = new Thread[THREADS];
            for (int t = 0; t < THREADS; t++) {
                final int tn = t;
                ts[t] = new Thread(null, () -> {
                    try {
                        List<Item> mine = new ArrayList<>(all);
                        Collections.shuffle(mine, new Random(same ? seed : seed + tn));
                        Map<Class, Validator> held = new HashMap<>();
                        bar.await();
                        int n = 0;
                        for (Item i : mine) {
                            Class c = i.m.getClass();
                            if (rec != null) {
                                rec.given.get().clear();
                            }
                            Validator v = n % 3 == 0 ? index.validatorFor((Object) i.m) : index.validatorFor(c);
                            n++;
                            looked.incrementAndGet();
                            Validator h = held.putIfAbsent(c, v);
                            if (h == null) {
                                ids.computeIfAbsent(c, k -> Collections.synchronizedMap(new IdentityHashMap<>())).put(v, true);
                                firsts.computeIfAbsent(c, k -> new AtomicLong()).incrementAndGet();
                            } else if (h != v) {
                                event("IDENT", i.c.name, "round " + round + ": a thread got two validators for the class");
                            }
                            String s = verdict(v, i.m);
                            if (rec == null && n % 5 == 1) {
                                String d = Driver.disagree(v, i.m, s.substring(0, 1));
                                if (d != null) {
                                    event("IDENT", i.c.name, "round " + round + ": " + d);
                                }
                            }
                            String fb = "-";
                            if (rec != null) {
                                List<Object> g = rec.given.get();
                                boolean asked = rec.asked.contains(c);
                                boolean used = g.size() == 2 && g.get(0) == c && g.get(1) == i.m;
                                fb = asked && used ? "fallback" : !asked && g.isEmpty() ? "own" : "asked=" + asked + " given=" + g.size() / 2;
                                if (!asked && !g.isEmpty()) {
                                    fb = "nested"; // an embedded message without validator
                                }
                            }
                            seen.get(i.c.id).add("VERDICT\t" + i.c.id + "\t" + kind + "\t" + fb + "\t" + s);
                        }
                    } catch (Throwable x) {
                        bad[0] = x;
                    }
                }, "l" + t, 256L << 20);
                ts[t].start();
            }
            for (Thread t : ts) {
                t.join();
            }
            if (bad[0] != null) {
                event("IDENT", "-", "round " + r + ": a lookup threw " + bad[0]);
                bad[0].printStackTrace();
            }
            for (Map.Entry<Class, Map<Validator, Boolean>> e : ids.entrySet()) {
                if (e.getValue().size() != 1) {
                    event("IDENT", e.getKey().getName(), "round " + r + ": " + e.getValue().size() + " validators for one class");
                }
                if (firsts.get(e.getKey()).get() > 1) {
                    contended.incrementAndGet();
                }
            }
            // later lookups still return it
            for (Map.Entry<Class, Map<Validator, Boolean>> e : ids.entrySet()) {
                if (!e.getValue().containsKey(index.validatorFor(e.getKey()))) {
                    event("IDENT", e.getKey().getName(), "round " + r + ": a later lookup returns another validator");
                }
            }
        }
        for (Set<String> s : seen.values()) {
            for (String l : s) {
                event(l);
            }
        }
        event("STATS", "lookups", "" + looked, "classes_looked_up_by_several_threads", "" + contended);
    }

    // ---- ExplicitValidatorIndex ----

    /** An implementation that tells what it was given. */
    static final class Impl implements ValidatorImpl<GeneratedMessageV3> {
        final int n;
        final boolean reject;
        final ThreadLocal<List<Object>> given = ThreadLocal.withInitial(ArrayList::new);

        Impl(int n, boolean reject) {
            this.n = n;
            this.reject = reject;
        }

        @Override
        public void assertValid(GeneratedMessageV3 p, ValidatorIndex index) throws ValidationException {
            given.get().add(p);
            given.get().add(index);
            if (reject) {
                throw new ValidationException("impl" + n, p, "rejected by implementation " + n);
            }
        }
    }

    /** Histories of add, validatorFor and assertValid; every step logs what ran. */
    @SuppressWarnings("unchecked")
    static void explicit(String[] a) throws Exception {
        List<Item> all = items(a[1]);
        int rounds = Integer.parseInt(a[3]);
        Random rnd = new Random(Long.parseLong(a[4]));
        long steps = 0;
        for (int r = 0; r < rounds; r++) {
            int kind = r % 4;
            Recording rec = kind >= 2 ? new Recording(kind == 3) : null;
            ExplicitValidatorIndex index = kind == 0 ? new ExplicitValidatorIndex() : kind == 1 ? new ExplicitValidatorIndex(ValidatorIndex.ALWAYS_INVALID) : new ExplicitValidatorIndex(rec);
            List<Item> pool = new ArrayList<>();
            for (int i = 0; i < 5; i++) {
                pool.add(all.get(rnd.nextInt(all.size())));
            }
            List<Impl> impls = new ArrayList<>();
            Map<Class, Validator> held = new HashMap<>();
            int len = 4 + rnd.nextInt(24);
            for (int s = 0; s < len; s++, steps++) {
                Item it = pool.get(rnd.nextInt(pool.size()));
                Class c = it.m.getClass();
                String cn = c.getName();
                switch (rnd.nextInt(4)) {
                    case 0: {
                        Impl im = new Impl(impls.size(), rnd.nextBoolean());
                        impls.add(im);
                        boolean self = index.add(c, im) == index;
                        event("X", "" + r, "" + kind, "add", cn, "" + im.n, "" + im.reject, "" + self);
                        break;
                    }
                    case 1: {
                        Validator v = rnd.nextBoolean() ? index.validatorFor(c) : index.validatorFor((Object) it.m);
                        Validator h = held.putIfAbsent(c, v);
                        event("X", "" + r, "" + kind, "get", cn, "" + (h == null || h == v));
                        break;
                    }
                    default: {
                        Validator v = held.get(c);
                        if (v == null || rnd.nextBoolean()) {
                            v = index.validatorFor(c);
                        }
                        for (Impl im : impls) {
                            im.given.get().clear();
                        }
                        if (rec != null) {
                            rec.given.get().clear();
                        }
                        String o = verdict(v, it.m).split("\t")[0];
                        StringBuilder ran = new StringBuilder();
                        for (Impl im : impls) {
                            List<Object> g = im.given.get();
                            for (int k = 0; k < g.size(); k += 2) {
                                ran.append("impl").append(im.n).append(g.get(k) == it.m ? "" : ":other-message").append(g.get(k + 1) == index ? "" : ":other-index").append(",");
                            }
                        }
                        if (rec != null) {
                            List<Object> g = rec.given.get();
                            for (int k = 0; k < g.size(); k += 2) {
                                ran.append("fallback").append(g.get(k) == c ? "" : ":other-class").append(g.get(k + 1) == it.m ? "" : ":other-message").append(",");
                            }
                        }
                        event("X", "" + r, "" + kind, "assert", cn, o, ran.toString());
                    }
                }
            }
        }
        // concurrent lookups in an index that is complete
        for (int r = 0; r < 40; r++) {
            ExplicitValidatorIndex index = new ExplicitValidatorIndex(ValidatorIndex.ALWAYS_INVALID);
            Map<Class, Impl> m = new HashMap<>();
            for (int i = 0; i < 60; i++) {
                Class c = all.get(rnd.nextInt(all.size())).m.getClass();
                Impl im = new Impl(i, false);
                index.add(c, im);
                m.put(c, im);
            }
            CyclicBarrier bar = new CyclicBarrier(THREADS);
            Map<Class, Map<Validator, Boolean>> ids = new ConcurrentHashMap<>();
            long seed = rnd.nextLong();
            Thread[] ts = new Thread[THREADS];
            for (int t = 0; t < THREADS; t++) {
                final long sd = r % 2 == 0 ? seed : seed + t;
                ts[t] = new Thread(() -> {
                    List<Item> mine = new ArrayList<>(all);
                    Collections.shuffle(mine, new Random(sd));
                    try {
                        bar.await();
                    } catch (Exception e) {
                        throw new RuntimeException(e);
                    }
                    for (Item it : mine.subList(0, Math.min(400, mine.size()))) {
                        Class c = it.m.getClass();
                        Validator v = index.validatorFor(c);
                        ids.computeIfAbsent(c, k -> Collections.synchronizedMap(new IdentityHashMap<>())).put(v, true);
                        Impl im = m.get(c);
                        if (im != null) {
                            im.given.get().clear();
                        }
                        String o = verdict(v, it.m).split("\t")[0];
                        boolean ok = im != null ? o.equals("T") && im.given.get().size() == 2 && im.given.get().get(0) == it.m : o.equals("F");
                        if (!ok) {
                            event("IDENT", c.getName(), "explicit index: outcome " + o + (im == null ? " for a class without implementation" : " for a class with an implementation, which got " + im.given.get().size() / 2 + " messages"));
                        }
                    }
                });
                ts[t].start();
            }
            for (Thread t : ts) {
                t.join();
            }
            for (Map.Entry<Class, Map<Validator, Boolean>> e : ids.entrySet()) {
                if (e.getValue().size() != 1) {
                    event("IDENT", e.getKey().getName(), "explicit index: " + e.getValue().size() + " validators for one class");
                }
            }
        }
        event("STATS", "explicit_steps", "" + steps);
    }

    // ---- gRPC ----

    static String details(Status s, Metadata m) {
        StringBuilder b = new StringBuilder();
        b.append(s.getCode()).append("|").append(Driver.hex(s.getDescription()));
        if (m == null || m.details == null) {
            return b.append("|nodetails").toString();
        }
        b.append("|").append(m.details.getCode()).append("|").append(Driver.hex(m.details.getMessage()));
        for (Any x : m.details.getDetailsList()) {
            if (x.packed instanceof BadRequest) {
                for (BadRequest.FieldViolation f : ((BadRequest) x.packed).getFieldViolationsList()) {
                    b.append("|v:").append(Driver.hex(f.getField())).append(":").append(Driver.hex(f.getDescription()));
                }
            } else {
                b.append("|other");
            }
        }
        return b.toString();
    }

    static final class AppError extends RuntimeException {
    }

    /** One call under way: its script and what came out of each event. */
    abstract static class Call {
        final String id;
        final String[] evs;
        int at;
        final StringBuilder out = new StringBuilder();
        Object current;

        Call(String id, String[] evs) {
            this.id = id;
            this.evs = evs;
        }

        abstract void fire(String ev, GeneratedMessageV3 m, boolean boom);

        void eff(String s) {
            out.append(s).append(";");
        }

        boolean boom;

        boolean step(Map<Integer, GeneratedMessageV3> msgs) {
            if (at >= evs.length) {
                return false;
            }
            String ev = evs[at++];
            out.append(" ").append(ev).append("=");
            GeneratedMessageV3 m = null;
            boom = false;
            if (ev.startsWith("m") || ev.startsWith("b")) {
                m = msgs.get(Integer.parseInt(ev.substring(1)));
                boom = ev.startsWith("b");
                ev = "m";
            }
            current = m;
            try {
                fire(ev, m, boom);
            } catch (StatusRuntimeException e) {
                eff("throw:" + details(e.getStatus(), e.getTrailers()));
            } catch (AppError e) {
                eff("apperror");
            } catch (Throwable t) {
                eff("other:" + t.getClass().getName());
            }
            return true;
        }
    }

    static final class Server extends Call {
        final ServerCall.Listener<GeneratedMessageV3> l;

        Server(String id, String[] evs, ValidatingServerInterceptor icp) {
            super(id, evs);
            Metadata headers = new Metadata();
            ServerCall<GeneratedMessageV3, Object> call = new ServerCall<GeneratedMessageV3, Object>() {
                public void request(int n) {
                    eff("request");
                }

                public void sendHeaders(Metadata h) {
                    eff("sendheaders");
                }

                public void sendMessage(Object o) {
                    eff("send");
                }

                public void close(Status s, Metadata m) {
                    eff("close:" + details(s, m));
                }

                public boolean isCancelled() {
                    return false;
                }
            };
            ServerCallHandler<GeneratedMessageV3, Object> h = (c, hd) -> {
                eff(c == call && hd == headers ? "start" : "start-with-other");
                return new ServerCall.Listener<GeneratedMessageV3>() {
                    public void onMessage(GeneratedMessageV3 m) {
                        eff(m == current ? "deliver" : "deliver-other");
                        if (boom) {
                            throw new AppError();
                        }
                    }

                    public void onHalfClose() {
                        eff("half");
                    }

                    public void onCancel() {
                        eff("cancel");
                    }

                    public void onComplete() {
                        eff("complete");
                    }

                    public void onReady() {
                        eff("ready");
                    }
                };
            };
            l = icp.interceptCall(call, headers, h);
        }

        void fire(String ev, GeneratedMessageV3 m, boolean boom) {
            switch (ev) {
                case "m":
                    l.onMessage(m);
                    break;
                case "h":
                    l.onHalfClose();
                    break;
                case "c":
                    l.onCancel();
                    break;
                case "d":
                    l.onComplete();
                    break;
                default:
                    l.onReady();
            }
        }
    }

    static final class Client extends Call {
        final ClientCall<GeneratedMessageV3, Object> call;

        Client(String id, String[] evs, ValidatingClientInterceptor icp) {
            super(id, evs);
            MethodDescriptor<GeneratedMessageV3, Object> md = new MethodDescriptor<>();
            CallOptions co = new CallOptions();
            Channel ch = new Channel() {
                @SuppressWarnings("unchecked")
                public <Q, R> ClientCall<Q, R> newCall(MethodDescriptor<Q, R> d, CallOptions o) {
                    eff(d == (Object) md && o == co ? "start" : "start-with-other");
                    return (ClientCall<Q, R>) new ClientCall<GeneratedMessageV3, Object>() {
                        public void start(Listener<Object> l, Metadata h) {
                            eff("cstart");
                        }

                        public void request(int n) {
                            eff("request" + n);
                        }

                        public void cancel(String s, Throwable t) {
                            eff("cancel");
                        }

                        public void halfClose() {
                            eff("half");
                        }

                        public void sendMessage(GeneratedMessageV3 m) {
                            eff(m == current ? "deliver" : "deliver-other");
                            if (boom) {
                                throw new AppError();
                            }
                        }
                    };
                }
            };
            call = icp.interceptCall(md, co, ch);
        }

        void fire(String ev, GeneratedMessageV3 m, boolean boom) {
            switch (ev) {
                case "m":
                    call.sendMessage(m);
                    break;
                case "h":
                    call.halfClose();
                    break;
                case "c":
                    call.cancel("x", null);
                    break;
                case "d":
                    call.request(3);
                    break;
                default:
                    call.start(new ClientCall.Listener<Object>() {
                    }, new Metadata());
            }
        }
    }

    /** Scripts of call events, interleaved within a thread and run by several threads on shared interceptors. */
    static void grpc(String[] a) throws Exception {
        Map<Integer, GeneratedMessageV3> msgs = new LinkedHashMap<>();
        ValidatorIndex plain = new ReflectiveValidatorIndex();
        for (Item i : items(a[1])) {
            msgs.put(i.c.id, i.m);
            event("VERDICT", "" + i.c.id, "0", "-", verdict(plain.validatorFor(i.m), i.m));
        }
        long seed = Long.parseLong(a[4]);
        List<String> scripts = Files.readAllLines(Paths.get(a[3]), StandardCharsets.UTF_8);
        ValidatorIndex shared = new ReflectiveValidatorIndex();
        ValidatingServerInterceptor si = new ValidatingServerInterceptor(shared);
        ValidatingClientInterceptor ci = new ValidatingClientInterceptor(shared);
        Thread[] ts = new Thread[THREADS];
        Throwable[] bad = new Throwable[1];
        for (int t = 0; t < THREADS; t++) {
            final int tn = t;
            ts[t] = new Thread(null, () -> {
                try {
                    Random rnd = new Random(seed + tn);
                    List<String> mine = new ArrayList<>();
                    for (int i = tn; i < scripts.size(); i += THREADS) {
                        mine.add(scripts.get(i));
                    }
                    for (int i = 0; i < mine.size(); i += 6) {
                        List<Call> live = new ArrayList<>();
                        List<Call> done = new ArrayList<>();
                        for (String s : mine.subList(i, Math.min(mine.size(), i + 6))) {
                            String[] p = s.split(" ");
                            String[] ev = new String[p.length - 2];
                            System.arraycopy(p, 2, ev, 0, ev.length);
                            live.add(p[1].equals("S") ? new Server(p[0], ev, si) : new Client(p[0], ev, ci));
                        }
                        while (!live.isEmpty()) {
                            int k = rnd.nextInt(live.size());
                            if (!live.get(k).step(msgs)) {
                                done.add(live.remove(k));
                            }
                        }
                        for (Call c : done) {
                            event("CALL", c.id, c.out.toString());
                        }
                    }
                } catch (Throwable x) {
                    bad[0] = x;
                }
            }, "g" + t, 256L << 20);
            ts[t].start();
        }
        for (Thread t : ts) {
            t.join();
        }
        if (bad[0] != null) {
            throw new RuntimeException(bad[0]);
        }
    }
}
