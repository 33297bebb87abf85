package com.google.protobuf;

public final class DoubleValue extends GeneratedMessageV3 {
    private static final FD[] FDS = {new FD(1, "double", 0, null, -1, null, null, null, null)};

    protected FD[] fds() {
        return FDS;
    }

    public static DoubleValue getDefaultInstance() {
        return new DoubleValue();
    }

    public double getValue() {
        return (Double) val(0);
    }
}
