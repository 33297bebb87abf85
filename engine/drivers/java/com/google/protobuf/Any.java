package com.google.protobuf;

public final class Any extends GeneratedMessageV3 {
    private static final FD[] FDS = {new FD(1, "string", 0, null, -1, null, null, null, null), new FD(2, "bytes", 0, null, -1, null, null, null, null)};
    /** What pack was given. */
    public Message packed;

    protected FD[] fds() {
        return FDS;
    }

    public static Any getDefaultInstance() {
        return new Any();
    }

    public String getTypeUrl() {
        return (String) val(0);
    }

    public ByteString getValue() {
        return (ByteString) val(1);
    }

    public static Any pack(Message m) {
        Any a = new Any();
        a.packed = m;
        return a;
    }
}
