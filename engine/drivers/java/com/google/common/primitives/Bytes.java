package com.google.common.primitives;

public final class Bytes {
    private Bytes() {
    }

    public static int indexOf(byte[] a, byte[] t) {
        outer:
        for (int i = 0; i + t.length <= a.length; i++) {
            for (int j = 0; j < t.length; j++) {
                if (a[i + j] != t[j]) {
                    continue outer;
                }
            }
            return i;
        }
        return -1;
    }

    public static int indexOf(byte[] a, byte t) {
        for (int i = 0; i < a.length; i++) {
            if (a[i] == t) {
                return i;
            }
        }
        return -1;
    }

    public static boolean contains(byte[] a, byte t) {
        return indexOf(a, t) >= 0;
    }

    public static byte[] concat(byte[]... as) {
        int n = 0;
        for (byte[] a : as) {
            n += a.length;
        }
        byte[] r = new byte[n];
        n = 0;
        for (byte[] a : as) {
            System.arraycopy(a, 0, r, n, a.length);
            n += a.length;
        }
        return r;
    }
}
