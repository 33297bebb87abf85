package io.grpc;

public abstract class ForwardingServerCallListener<ReqT> extends ServerCall.Listener<ReqT> {
    protected abstract ServerCall.Listener<ReqT> delegate();

    @Override
    public void onMessage(ReqT message) {
        delegate().onMessage(message);
    }

    @Override
    public void onHalfClose() {
        delegate().onHalfClose();
    }

    @Override
    public void onCancel() {
        delegate().onCancel();
    }

    @Override
    public void onComplete() {
        delegate().onComplete();
    }

    @Override
    public void onReady() {
        delegate().onReady();
    }

    public abstract static class SimpleForwardingServerCallListener<ReqT> extends ForwardingServerCallListener<ReqT> {
        private final ServerCall.Listener<ReqT> delegate;

        protected SimpleForwardingServerCallListener(ServerCall.Listener<ReqT> delegate) {
            this.delegate = delegate;
        }

        @Override
        protected ServerCall.Listener<ReqT> delegate() {
            return delegate;
        }
    }
}
