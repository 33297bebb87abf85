package com.google.protobuf;

import java.nio.charset.StandardCharsets;
import java.util.Arrays;

public final class ByteString implements Iterable<Byte> {
    public static final ByteString EMPTY = new ByteString(new byte[0]);
    private final byte[] b;

    private ByteString(byte[] b) {
        this.b = b;
    }

    public static ByteString copyFrom(byte[] b) {
        return new ByteString(b.clone());
    }

    public static ByteString copyFromUtf8(String s) {
        return new ByteString(s.getBytes(StandardCharsets.UTF_8));
    }

    public static ByteString copyFrom(byte[] b, int off, int n) {
        return new ByteString(Arrays.copyOfRange(b, off, off + n));
    }

    public static ByteString copyFrom(String s, java.nio.charset.Charset cs) {
        return new ByteString(s.getBytes(cs));
    }

    public static ByteString empty() {
        return EMPTY;
    }

    public java.nio.ByteBuffer asReadOnlyByteBuffer() {
        return java.nio.ByteBuffer.wrap(b).asReadOnlyBuffer();
    }

    public void copyTo(byte[] to, int off) {
        System.arraycopy(b, 0, to, off, b.length);
    }

    public String toString(java.nio.charset.Charset cs) {
        return new String(b, cs);
    }

    public boolean isValidUtf8() {
        try {
            StandardCharsets.UTF_8.newDecoder().decode(java.nio.ByteBuffer.wrap(b));
            return true;
        } catch (java.nio.charset.CharacterCodingException e) {
            return false;
        }
    }

    @Override
    public java.util.Iterator<Byte> iterator() {
        java.util.List<Byte> l = new java.util.ArrayList<>();
        for (byte x : b) {
            l.add(x);
        }
        return l.iterator();
    }

    public int size() {
        return b.length;
    }

    public boolean isEmpty() {
        return b.length == 0;
    }

    public byte byteAt(int i) {
        return b[i];
    }

    public byte[] toByteArray() {
        return b.clone();
    }

    public String toStringUtf8() {
        return new String(b, StandardCharsets.UTF_8);
    }

    public boolean startsWith(ByteString p) {
        return b.length >= p.b.length && Arrays.equals(Arrays.copyOf(b, p.b.length), p.b);
    }

    public boolean endsWith(ByteString p) {
        return b.length >= p.b.length && Arrays.equals(Arrays.copyOfRange(b, b.length - p.b.length, b.length), p.b);
    }

    public ByteString substring(int from) {
        return substring(from, b.length);
    }

    public ByteString substring(int from, int to) {
        return new ByteString(Arrays.copyOfRange(b, from, to));
    }

    public ByteString concat(ByteString o) {
        byte[] x = Arrays.copyOf(b, b.length + o.b.length);
        System.arraycopy(o.b, 0, x, b.length, o.b.length);
        return new ByteString(x);
    }

    @Override
    public boolean equals(Object o) {
        return o instanceof ByteString && Arrays.equals(b, ((ByteString) o).b);
    }

    @Override
    public int hashCode() {
        return Arrays.hashCode(b);
    }

    @Override
    public String toString() {
        return String.format("<ByteString@%x size=%d>", System.identityHashCode(this), b.length);
    }
}
