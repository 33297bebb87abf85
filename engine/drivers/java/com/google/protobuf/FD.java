package com.google.protobuf;

import java.util.function.IntFunction;
import java.util.function.Supplier;

/** A field of a stand-in message class. */
public final class FD {
    public final int num;
    public final String kind;
    public final String key; // of maps
    public final int label; // 0 singular, 1 repeated, 2 map
    public final int oneof; // -1, or its index
    public final Object def;
    public final Supplier<GeneratedMessageV3> msg;
    public final IntFunction<Object> en; // null result: not declared
    public final Object unrecognized;

    public FD(int num, String kind, int label, String key, int oneof, Object def, Supplier<GeneratedMessageV3> msg, IntFunction<Object> en, Object unrecognized) {
        this.num = num;
        this.kind = kind;
        this.label = label;
        this.key = key;
        this.oneof = oneof;
        this.def = def;
        this.msg = msg;
        this.en = en;
        this.unrecognized = unrecognized;
    }
}
