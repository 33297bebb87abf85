package com.google.protobuf;

public final class UInt32Value extends GeneratedMessageV3 {
    private static final FD[] FDS = {new FD(1, "uint32", 0, null, -1, null, null, null, null)};

    protected FD[] fds() {
        return FDS;
    }

    public static UInt32Value getDefaultInstance() {
        return new UInt32Value();
    }

    public int getValue() {
        return (Integer) val(0);
    }
}
