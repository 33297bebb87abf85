package io.grpc.protobuf;

import io.grpc.Metadata;
import io.grpc.Status;
import io.grpc.StatusRuntimeException;

public final class StatusProto {
    private StatusProto() {
    }

    public static StatusRuntimeException toStatusRuntimeException(com.google.rpc.Status s) {
        Metadata m = new Metadata();
        m.details = s;
        return Status.fromCodeValue(s.getCode()).withDescription(s.getMessage()).asRuntimeException(m);
    }

    public static StatusRuntimeException toStatusRuntimeException(com.google.rpc.Status s, Metadata m) {
        m.details = s;
        return Status.fromCodeValue(s.getCode()).withDescription(s.getMessage()).asRuntimeException(m);
    }

    public static io.grpc.StatusException toStatusException(com.google.rpc.Status s) {
        Metadata m = new Metadata();
        m.details = s;
        return Status.fromCodeValue(s.getCode()).withDescription(s.getMessage()).asException(m);
    }
}
