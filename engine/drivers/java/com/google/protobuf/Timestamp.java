package com.google.protobuf;

public final class Timestamp extends GeneratedMessageV3 {
    private static final FD[] FDS = {new FD(1, "int64", 0, null, -1, null, null, null, null), new FD(2, "int32", 0, null, -1, null, null, null, null)};

    protected FD[] fds() {
        return FDS;
    }

    public static Timestamp getDefaultInstance() {
        return new Timestamp();
    }

    public long getSeconds() {
        return (Long) val(0);
    }

    public int getNanos() {
        return (Integer) val(1);
    }

    public static Builder newBuilder(Timestamp o) {
        return new Builder().setSeconds(o.getSeconds()).setNanos(o.getNanos());
    }

    public Builder toBuilder() {
        return newBuilder(this);
    }

    public static Builder newBuilder() {
        return new Builder();
    }

    @Override
    public boolean equals(Object o) {
        return o instanceof Timestamp && (((Timestamp) o).getSeconds() == getSeconds()) && (((Timestamp) o).getNanos() == getNanos());
    }

    @Override
    public int hashCode() {
        return Long.hashCode(getSeconds()) * 31 + getNanos();
    }

    public static final class Builder {
        private long s;
        private int n;

        public Builder setSeconds(long x) {
            s = x;
            return this;
        }

        public Builder setNanos(int x) {
            n = x;
            return this;
        }

        public Timestamp build() {
            Timestamp r = new Timestamp();
            r.slots[0] = s;
            r.slots[1] = n;
            return r;
        }
    }
}
