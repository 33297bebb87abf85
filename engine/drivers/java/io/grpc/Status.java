package io.grpc;

public final class Status {
    public enum Code {
        OK, CANCELLED, UNKNOWN, INVALID_ARGUMENT, DEADLINE_EXCEEDED, NOT_FOUND, ALREADY_EXISTS, PERMISSION_DENIED, RESOURCE_EXHAUSTED, FAILED_PRECONDITION, ABORTED, OUT_OF_RANGE, UNIMPLEMENTED, INTERNAL, UNAVAILABLE, DATA_LOSS, UNAUTHENTICATED;

        public int value() {
            return ordinal();
        }

        public Status toStatus() {
            return fromCode(this);
        }
    }

    public static final Status OK = new Status(Code.OK, null, null);
    public static final Status CANCELLED = new Status(Code.CANCELLED, null, null);
    public static final Status UNKNOWN = new Status(Code.UNKNOWN, null, null);
    public static final Status INVALID_ARGUMENT = new Status(Code.INVALID_ARGUMENT, null, null);
    public static final Status DEADLINE_EXCEEDED = new Status(Code.DEADLINE_EXCEEDED, null, null);
    public static final Status NOT_FOUND = new Status(Code.NOT_FOUND, null, null);
    public static final Status ALREADY_EXISTS = new Status(Code.ALREADY_EXISTS, null, null);
    public static final Status PERMISSION_DENIED = new Status(Code.PERMISSION_DENIED, null, null);
    public static final Status RESOURCE_EXHAUSTED = new Status(Code.RESOURCE_EXHAUSTED, null, null);
    public static final Status FAILED_PRECONDITION = new Status(Code.FAILED_PRECONDITION, null, null);
    public static final Status ABORTED = new Status(Code.ABORTED, null, null);
    public static final Status OUT_OF_RANGE = new Status(Code.OUT_OF_RANGE, null, null);
    public static final Status UNIMPLEMENTED = new Status(Code.UNIMPLEMENTED, null, null);
    public static final Status INTERNAL = new Status(Code.INTERNAL, null, null);
    public static final Status UNAVAILABLE = new Status(Code.UNAVAILABLE, null, null);
    public static final Status DATA_LOSS = new Status(Code.DATA_LOSS, null, null);
    public static final Status UNAUTHENTICATED = new Status(Code.UNAUTHENTICATED, null, null);
    private final Code code;
    private final String description;
    private final Throwable cause;

    private Status(Code code, String description, Throwable cause) {
        this.code = code;
        this.description = description;
        this.cause = cause;
    }

    public static Status fromCodeValue(int n) {
        return n >= 0 && n < Code.values().length ? fromCode(Code.values()[n]) : UNKNOWN.withDescription("Unknown code " + n);
    }

    public static Status fromCode(Code c) {
        return new Status(c, null, null);
    }

    public static Status fromThrowable(Throwable t) {
        for (Throwable x = t; x != null; x = x.getCause()) {
            if (x instanceof StatusException) {
                return ((StatusException) x).getStatus();
            }
            if (x instanceof StatusRuntimeException) {
                return ((StatusRuntimeException) x).getStatus();
            }
        }
        return UNKNOWN.withCause(t);
    }

    public boolean isOk() {
        return code == Code.OK;
    }

    public Status augmentDescription(String s) {
        return s == null ? this : new Status(code, description == null ? s : description + "\n" + s, cause);
    }

    public StatusException asException() {
        return new StatusException(this, null);
    }

    public StatusException asException(Metadata m) {
        return new StatusException(this, m);
    }

    public Code getCode() {
        return code;
    }

    public String getDescription() {
        return description;
    }

    public Throwable getCause() {
        return cause;
    }

    public Status withDescription(String s) {
        return new Status(code, s, cause);
    }

    public Status withCause(Throwable t) {
        return new Status(code, description, t);
    }

    public StatusRuntimeException asRuntimeException() {
        return new StatusRuntimeException(this, null);
    }

    public StatusRuntimeException asRuntimeException(Metadata m) {
        return new StatusRuntimeException(this, m);
    }
}
