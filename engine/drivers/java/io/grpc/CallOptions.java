package io.grpc;

public final class CallOptions {
    public static final CallOptions DEFAULT = new CallOptions();
}
