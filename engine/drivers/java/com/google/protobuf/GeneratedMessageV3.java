package com.google.protobuf;

import java.nio.ByteBuffer;
import java.nio.charset.CharacterCodingException;
import java.nio.charset.StandardCharsets;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** A stand-in for protobuf-java's message base class: values in slots, decoded from the wire by descriptor. */
public abstract class GeneratedMessageV3 implements Message {
    public static final class Malformed extends RuntimeException {
        public Malformed(String s) {
            super(s);
        }
    }

    protected final Object[] slots;

    protected GeneratedMessageV3() {
        slots = new Object[fds().length];
    }

    protected abstract FD[] fds();

    protected boolean strictUtf8() {
        return true;
    }

    protected final boolean isSet(int i) {
        return slots[i] != null;
    }

    protected final Object val(int i) {
        return slots[i] != null ? slots[i] : def(fds()[i]);
    }

    @SuppressWarnings("unchecked")
    protected final <T> List<T> list(int i) {
        return slots[i] == null ? Collections.emptyList() : Collections.unmodifiableList((List<T>) slots[i]);
    }

    @SuppressWarnings("unchecked")
    protected final <K, V> Map<K, V> map(int i) {
        return slots[i] == null ? Collections.emptyMap() : Collections.unmodifiableMap((Map<K, V>) slots[i]);
    }

    /** The number of the member set in oneof o, or 0. */
    protected final int oneofCase(int o) {
        FD[] f = fds();
        for (int i = 0; i < f.length; i++) {
            if (f[i].oneof == o && slots[i] != null) {
                return f[i].num;
            }
        }
        return 0;
    }

    /** Numbers of enum slots, kept for getXValue. */
    private Map<Integer, Object> raw = new LinkedHashMap<>();

    protected final int enumNumber(int i) {
        Object x = raw.get(i);
        if (x != null && slots[i] != null) {
            return (Integer) x;
        }
        return ((ProtocolMessageEnum) val(i)).getNumber();
    }

    @SuppressWarnings("unchecked")
    protected final List<Integer> enumNumbers(int i) {
        Object x = raw.get(i);
        return x == null ? Collections.emptyList() : (List<Integer>) x;
    }

    @SuppressWarnings("unchecked")
    protected final <K> Map<K, Integer> enumNumberMap(int i) {
        Object x = raw.get(i);
        return x == null ? Collections.emptyMap() : (Map<K, Integer>) x;
    }

    private static Object def(FD f) {
        if (f.def != null) {
            return f.def;
        }
        switch (f.kind) {
            case "message":
                return f.msg.get();
            case "enum":
                return f.en.apply(0);
            default:
                return zero(f.kind);
        }
    }

    private static Object zero(String kind) {
        switch (kind) {
            case "float":
                return 0f;
            case "double":
                return 0d;
            case "bool":
                return false;
            case "string":
                return "";
            case "bytes":
                return ByteString.EMPTY;
            case "int64":
            case "uint64":
            case "sint64":
            case "fixed64":
            case "sfixed64":
                return 0L;
            default:
                return 0;
        }
    }

    // ---- wire format ----

    private static final class In {
        final byte[] b;
        int p;
        final int end;

        In(byte[] b, int p, int end) {
            this.b = b;
            this.p = p;
            this.end = end;
        }

        long varint() {
            long x = 0;
            for (int s = 0; s < 70; s += 7) {
                if (p >= end) {
                    throw new Malformed("truncated varint");
                }
                byte c = b[p++];
                x |= (long) (c & 0x7f) << s;
                if (c >= 0) {
                    return x;
                }
            }
            throw new Malformed("varint");
        }

        long fixed(int n) {
            if (end - p < n) {
                throw new Malformed("truncated");
            }
            long x = 0;
            for (int i = 0; i < n; i++) {
                x |= (b[p++] & 0xffL) << (8 * i);
            }
            return x;
        }

        In sub() {
            long n = varint();
            if (n < 0 || n > end - p) {
                throw new Malformed("length");
            }
            In r = new In(b, p, p + (int) n);
            p += (int) n;
            return r;
        }

        byte[] rest() {
            return Arrays.copyOfRange(b, p, end);
        }
    }

    private static int wire(String kind) {
        switch (kind) {
            case "double":
            case "fixed64":
            case "sfixed64":
                return 1;
            case "float":
            case "fixed32":
            case "sfixed32":
                return 5;
            case "string":
            case "bytes":
            case "message":
                return 2;
            default:
                return 0;
        }
    }

    private Object scalar(String kind, In in) {
        long x;
        switch (kind) {
            case "double":
                return Double.longBitsToDouble(in.fixed(8));
            case "float":
                return Float.intBitsToFloat((int) in.fixed(4));
            case "fixed64":
            case "sfixed64":
                return in.fixed(8);
            case "fixed32":
            case "sfixed32":
                return (int) in.fixed(4);
            case "int64":
            case "uint64":
                return in.varint();
            case "int32":
            case "uint32":
            case "enum":
                return (int) in.varint();
            case "sint64":
                x = in.varint();
                return (x >>> 1) ^ -(x & 1);
            case "sint32":
                int y = (int) in.varint();
                return (y >>> 1) ^ -(y & 1);
            case "bool":
                return in.varint() != 0;
            case "bytes":
                return ByteString.copyFrom(in.sub().rest());
            case "string":
                byte[] b = in.sub().rest();
                if (!strictUtf8()) {
                    return new String(b, StandardCharsets.UTF_8);
                }
                try {
                    return StandardCharsets.UTF_8.newDecoder().decode(ByteBuffer.wrap(b)).toString();
                } catch (CharacterCodingException e) {
                    throw new Malformed("invalid UTF-8");
                }
            default:
                throw new IllegalStateException(kind);
        }
    }

    public final void mergeFrom(byte[] b) {
        merge(new In(b, 0, b.length));
    }

    @SuppressWarnings("unchecked")
    private void merge(In in) {
        FD[] fs = fds();
        while (in.p < in.end) {
            long tag = in.varint();
            int num = (int) (tag >>> 3), wt = (int) (tag & 7);
            int i = 0;
            while (i < fs.length && fs[i].num != num) {
                i++;
            }
            if (i == fs.length) {
                switch (wt) {
                    case 0:
                        in.varint();
                        break;
                    case 1:
                        in.fixed(8);
                        break;
                    case 2:
                        in.sub();
                        break;
                    case 5:
                        in.fixed(4);
                        break;
                    default:
                        throw new Malformed("wire type");
                }
                continue;
            }
            FD f = fs[i];
            if (f.label == 2) {
                mapEntry(f, i, in.sub());
                continue;
            }
            if (f.label == 1) {
                List<Object> l = (List<Object>) slots[i];
                if (l == null) {
                    slots[i] = l = new ArrayList<>();
                }
                if (wt == 2 && wire(f.kind) != 2) {
                    In s = in.sub();
                    while (s.p < s.end) {
                        one(f, i, l, s);
                    }
                } else {
                    one(f, i, l, in);
                }
                continue;
            }
            if (wt != wire(f.kind)) {
                throw new Malformed("wire type of field " + num);
            }
            Object v;
            if (f.kind.equals("message")) {
                GeneratedMessageV3 m = slots[i] != null ? (GeneratedMessageV3) slots[i] : f.msg.get();
                m.merge(in.sub());
                v = m;
            } else {
                v = scalar(f.kind, in);
                if (f.kind.equals("enum")) {
                    raw.put(i, v);
                    v = enumOf(f, (Integer) v);
                    if (v == null) {
                        continue; // closed enum: an unknown field
                    }
                }
            }
            if (f.oneof >= 0) {
                for (int j = 0; j < fs.length; j++) {
                    if (fs[j].oneof == f.oneof) {
                        slots[j] = null;
                    }
                }
            }
            slots[i] = v;
        }
    }

    private static Object enumOf(FD f, int n) {
        Object e = f.en.apply(n);
        return e == null ? f.unrecognized : e;
    }

    @SuppressWarnings("unchecked")
    private void one(FD f, int i, List<Object> l, In in) {
        if (f.kind.equals("message")) {
            GeneratedMessageV3 m = f.msg.get();
            m.merge(in.sub());
            l.add(m);
            return;
        }
        Object v = scalar(f.kind, in);
        if (f.kind.equals("enum")) {
            Object e = enumOf(f, (Integer) v);
            if (e == null) {
                return;
            }
            ((List<Object>) raw.computeIfAbsent(i, k -> new ArrayList<>())).add(v);
            v = e;
        }
        l.add(v);
    }

    @SuppressWarnings("unchecked")
    private void mapEntry(FD f, int i, In in) {
        Object k = zero(f.key), v = null, num = null;
        while (in.p < in.end) {
            long tag = in.varint();
            if (tag >>> 3 == 1) {
                k = scalar(f.key, in);
            } else if (tag >>> 3 == 2) {
                if (f.kind.equals("message")) {
                    GeneratedMessageV3 m = f.msg.get();
                    m.merge(in.sub());
                    v = m;
                } else {
                    v = scalar(f.kind, in);
                    if (f.kind.equals("enum")) {
                        num = v;
                        v = enumOf(f, (Integer) v);
                        if (v == null) {
                            return;
                        }
                    }
                }
            } else {
                throw new Malformed("map entry");
            }
        }
        if (v == null) {
            v = def(f);
            num = 0;
        }
        if (slots[i] == null) {
            slots[i] = new LinkedHashMap<>();
        }
        ((Map<Object, Object>) slots[i]).put(k, v);
        if (f.kind.equals("enum")) {
            ((Map<Object, Object>) raw.computeIfAbsent(i, x -> new LinkedHashMap<>())).put(k, num);
        }
    }

    @Override
    public boolean equals(Object o) {
        return o != null && o.getClass() == getClass() && Arrays.equals(slots, ((GeneratedMessageV3) o).slots);
    }

    @Override
    public int hashCode() {
        return Arrays.hashCode(slots);
    }

    @Override
    public String toString() {
        return getClass().getSimpleName() + Arrays.toString(slots);
    }
}
