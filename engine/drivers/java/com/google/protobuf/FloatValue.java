package com.google.protobuf;

public final class FloatValue extends GeneratedMessageV3 {
    private static final FD[] FDS = {new FD(1, "float", 0, null, -1, null, null, null, null)};

    protected FD[] fds() {
        return FDS;
    }

    public static FloatValue getDefaultInstance() {
        return new FloatValue();
    }

    public float getValue() {
        return (Float) val(0);
    }
}
