package io.grpc;

public class StatusException extends Exception {
    private final Status status;
    private final Metadata trailers;

    public StatusException(Status s) {
        this(s, null);
    }

    public StatusException(Status s, Metadata m) {
        super(s.getCode() + ": " + s.getDescription());
        status = s;
        trailers = m;
    }

    public final Status getStatus() {
        return status;
    }

    public final Metadata getTrailers() {
        return trailers;
    }
}
