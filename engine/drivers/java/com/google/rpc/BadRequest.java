package com.google.rpc;

import com.google.protobuf.Message;
import java.util.ArrayList;
import java.util.List;

public final class BadRequest implements Message {
    private final List<FieldViolation> v = new ArrayList<>();

    public List<FieldViolation> getFieldViolationsList() {
        return v;
    }

    public int getFieldViolationsCount() {
        return v.size();
    }

    public FieldViolation getFieldViolations(int i) {
        return v.get(i);
    }

    public static Builder newBuilder() {
        return new Builder();
    }

    public static final class Builder {
        private final BadRequest b = new BadRequest();

        public Builder addFieldViolations(FieldViolation f) {
            b.v.add(java.util.Objects.requireNonNull(f));
            return this;
        }

        public Builder addFieldViolations(FieldViolation.Builder f) {
            return addFieldViolations(f.build());
        }

        public Builder addAllFieldViolations(Iterable<? extends FieldViolation> fs) {
            fs.forEach(this::addFieldViolations);
            return this;
        }

        public BadRequest build() {
            return b;
        }
    }

    public static final class FieldViolation implements Message {
        private String field = "", description = "";

        public String getField() {
            return field;
        }

        public String getDescription() {
            return description;
        }

        public static Builder newBuilder() {
            return new Builder();
        }

        public static final class Builder {
            private final FieldViolation f = new FieldViolation();

            public Builder setField(String s) {
                f.field = java.util.Objects.requireNonNull(s);
                return this;
            }

            public Builder setDescription(String s) {
                f.description = java.util.Objects.requireNonNull(s);
                return this;
            }

            public FieldViolation build() {
                return f;
            }
        }
    }
}
