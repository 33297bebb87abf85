package com.google.protobuf;

public final class StringValue extends GeneratedMessageV3 {
    private static final FD[] FDS = {new FD(1, "string", 0, null, -1, null, null, null, null)};

    protected FD[] fds() {
        return FDS;
    }

    public static StringValue getDefaultInstance() {
        return new StringValue();
    }

    public String getValue() {
        return (String) val(0);
    }
}
