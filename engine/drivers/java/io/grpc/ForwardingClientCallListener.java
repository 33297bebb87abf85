package io.grpc;

public abstract class ForwardingClientCallListener<RespT> extends ClientCall.Listener<RespT> {
    protected abstract ClientCall.Listener<RespT> delegate();

    @Override
    public void onHeaders(Metadata headers) {
        delegate().onHeaders(headers);
    }

    @Override
    public void onMessage(RespT message) {
        delegate().onMessage(message);
    }

    @Override
    public void onClose(Status status, Metadata trailers) {
        delegate().onClose(status, trailers);
    }

    @Override
    public void onReady() {
        delegate().onReady();
    }

    public abstract static class SimpleForwardingClientCallListener<RespT> extends ForwardingClientCallListener<RespT> {
        private final ClientCall.Listener<RespT> delegate;

        protected SimpleForwardingClientCallListener(ClientCall.Listener<RespT> delegate) {
            this.delegate = delegate;
        }

        @Override
        protected ClientCall.Listener<RespT> delegate() {
            return delegate;
        }
    }
}
