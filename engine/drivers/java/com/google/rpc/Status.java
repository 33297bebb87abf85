package com.google.rpc;

import com.google.protobuf.Any;
import com.google.protobuf.Message;
import java.util.ArrayList;
import java.util.List;

public final class Status implements Message {
    private int code;
    private String message = "";
    private final List<Any> details = new ArrayList<>();

    public int getCode() {
        return code;
    }

    public String getMessage() {
        return message;
    }

    public List<Any> getDetailsList() {
        return details;
    }

    public int getDetailsCount() {
        return details.size();
    }

    public Any getDetails(int i) {
        return details.get(i);
    }

    public static Builder newBuilder() {
        return new Builder();
    }

    public static final class Builder {
        private final Status s = new Status();

        public Builder setCode(int c) {
            s.code = c;
            return this;
        }

        public Builder setMessage(String m) {
            s.message = java.util.Objects.requireNonNull(m);
            return this;
        }

        public Builder addDetails(Any a) {
            s.details.add(java.util.Objects.requireNonNull(a));
            return this;
        }

        public Builder addAllDetails(Iterable<? extends Any> as) {
            as.forEach(this::addDetails);
            return this;
        }

        public Status build() {
            return s;
        }
    }
}
