package io.grpc;

public final class Metadata {
    /** The google.rpc.Status carried by grpc-status-details-bin. */
    public com.google.rpc.Status details;
}
