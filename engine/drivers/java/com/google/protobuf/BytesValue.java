package com.google.protobuf;

public final class BytesValue extends GeneratedMessageV3 {
    private static final FD[] FDS = {new FD(1, "bytes", 0, null, -1, null, null, null, null)};

    protected FD[] fds() {
        return FDS;
    }

    public static BytesValue getDefaultInstance() {
        return new BytesValue();
    }

    public ByteString getValue() {
        return (ByteString) val(0);
    }
}
