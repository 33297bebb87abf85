package com.google.protobuf;

public final class Empty extends GeneratedMessageV3 {
    protected FD[] fds() {
        return new FD[0];
    }
}
