package io.grpc;

public abstract class ForwardingServerCall<ReqT, RespT> extends ServerCall<ReqT, RespT> {
    protected abstract ServerCall<ReqT, RespT> delegate();

    @Override
    public void request(int n) {
        delegate().request(n);
    }

    @Override
    public void sendHeaders(Metadata headers) {
        delegate().sendHeaders(headers);
    }

    @Override
    public void sendMessage(RespT message) {
        delegate().sendMessage(message);
    }

    @Override
    public void close(Status status, Metadata trailers) {
        delegate().close(status, trailers);
    }

    @Override
    public boolean isCancelled() {
        return delegate().isCancelled();
    }

    @Override
    public boolean isReady() {
        return delegate().isReady();
    }

    @Override
    public MethodDescriptor<ReqT, RespT> getMethodDescriptor() {
        return delegate().getMethodDescriptor();
    }

    public abstract static class SimpleForwardingServerCall<ReqT, RespT> extends ForwardingServerCall<ReqT, RespT> {
        private final ServerCall<ReqT, RespT> delegate;

        protected SimpleForwardingServerCall(ServerCall<ReqT, RespT> delegate) {
            this.delegate = delegate;
        }

        @Override
        protected ServerCall<ReqT, RespT> delegate() {
            return delegate;
        }
    }
}
