package com.google.protobuf;

public final class BoolValue extends GeneratedMessageV3 {
    private static final FD[] FDS = {new FD(1, "bool", 0, null, -1, null, null, null, null)};

    protected FD[] fds() {
        return FDS;
    }

    public static BoolValue getDefaultInstance() {
        return new BoolValue();
    }

    public boolean getValue() {
        return (Boolean) val(0);
    }
}
