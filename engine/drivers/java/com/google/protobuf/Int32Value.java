package com.google.protobuf;

public final class Int32Value extends GeneratedMessageV3 {
    private static final FD[] FDS = {new FD(1, "int32", 0, null, -1, null, null, null, null)};

    protected FD[] fds() {
        return FDS;
    }

    public static Int32Value getDefaultInstance() {
        return new Int32Value();
    }

    public int getValue() {
        return (Integer) val(0);
    }
}
