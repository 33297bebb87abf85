package com.google.protobuf;

public final class Int64Value extends GeneratedMessageV3 {
    private static final FD[] FDS = {new FD(1, "int64", 0, null, -1, null, null, null, null)};

    protected FD[] fds() {
        return FDS;
    }

    public static Int64Value getDefaultInstance() {
        return new Int64Value();
    }

    public long getValue() {
        return (Long) val(0);
    }
}
