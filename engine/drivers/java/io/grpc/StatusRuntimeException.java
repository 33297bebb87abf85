package io.grpc;

public class StatusRuntimeException extends RuntimeException {
    private final Status status;
    private final Metadata trailers;

    public StatusRuntimeException(Status s) {
        this(s, null);
    }

    public StatusRuntimeException(Status s, Metadata m) {
        super(s.getCode() + ": " + s.getDescription());
        status = s;
        trailers = m;
    }

    public final Status getStatus() {
        return status;
    }

    public final Metadata getTrailers() {
        return trailers;
    }
}
