package com.google.protobuf;

public final class UInt64Value extends GeneratedMessageV3 {
    private static final FD[] FDS = {new FD(1, "uint64", 0, null, -1, null, null, null, null)};

    protected FD[] fds() {
        return FDS;
    }

    public static UInt64Value getDefaultInstance() {
        return new UInt64Value();
    }

    public long getValue() {
        return (Long) val(0);
    }
}
