package com.google.protobuf.util;

import com.google.protobuf.Duration;
import com.google.protobuf.Timestamp;
import java.time.Instant;
import java.util.Comparator;

/** Follows protobuf-java-util: the same checks and the same overflow behaviour. */
public final class Timestamps {
    public static final Timestamp MIN_VALUE = Timestamp.newBuilder().setSeconds(-62135596800L).setNanos(0).build();
    public static final Timestamp MAX_VALUE = Timestamp.newBuilder().setSeconds(253402300799L).setNanos(999999999).build();
    public static final Timestamp EPOCH = Timestamp.newBuilder().setSeconds(0).setNanos(0).build();

    private Timestamps() {
    }

    public static boolean isValid(Timestamp t) {
        return t.getSeconds() >= -62135596800L && t.getSeconds() <= 253402300799L && t.getNanos() >= 0 && t.getNanos() <= 999999999;
    }

    public static Timestamp checkValid(Timestamp t) {
        if (!isValid(t)) {
            throw new IllegalArgumentException("Timestamp is not valid: " + t.getSeconds() + ", " + t.getNanos());
        }
        return t;
    }

    public static Comparator<Timestamp> comparator() {
        return Timestamps::compare;
    }

    public static int compare(Timestamp a, Timestamp b) {
        checkValid(a);
        checkValid(b);
        int c = Long.compare(a.getSeconds(), b.getSeconds());
        return c != 0 ? c : Integer.compare(a.getNanos(), b.getNanos());
    }

    public static Timestamp fromMillis(long ms) {
        return checkValid(Timestamp.newBuilder().setSeconds(Math.floorDiv(ms, 1000L)).setNanos((int) Math.floorMod(ms, 1000L) * 1000000).build());
    }

    public static Timestamp fromSeconds(long s) {
        return checkValid(Timestamp.newBuilder().setSeconds(s).build());
    }

    public static Timestamp fromNanos(long n) {
        return checkValid(Timestamp.newBuilder().setSeconds(Math.floorDiv(n, 1000000000L)).setNanos((int) Math.floorMod(n, 1000000000L)).build());
    }

    public static long toSeconds(Timestamp t) {
        return checkValid(t).getSeconds();
    }

    public static long toMicros(Timestamp t) {
        checkValid(t);
        return Math.addExact(Math.multiplyExact(t.getSeconds(), 1000000L), (long) (t.getNanos() / 1000));
    }

    public static Timestamp fromMicros(long us) {
        return checkValid(Timestamp.newBuilder().setSeconds(Math.floorDiv(us, 1000000L)).setNanos((int) Math.floorMod(us, 1000000L) * 1000).build());
    }

    public static Timestamp now() {
        Instant i = Instant.now();
        return Timestamp.newBuilder().setSeconds(i.getEpochSecond()).setNanos(i.getNano()).build();
    }

    public static long toMillis(Timestamp t) {
        checkValid(t);
        return Math.addExact(Math.multiplyExact(t.getSeconds(), 1000L), (long) (t.getNanos() / 1000000));
    }

    public static long toNanos(Timestamp t) {
        checkValid(t);
        return Math.addExact(Math.multiplyExact(t.getSeconds(), 1000000000L), (long) t.getNanos());
    }

    public static Duration between(Timestamp from, Timestamp to) {
        checkValid(from);
        checkValid(to);
        return Durations.normalized(Math.subtractExact(to.getSeconds(), from.getSeconds()), Math.subtractExact(to.getNanos(), from.getNanos()));
    }

    private static Timestamp normalized(long s, int n) {
        if (n <= -1000000000L || n >= 1000000000L) {
            s = Math.addExact(s, (long) (n / 1000000000));
            n %= 1000000000;
        }
        if (n < 0) {
            n += 1000000000;
            s = Math.subtractExact(s, 1L);
        }
        return checkValid(Timestamp.newBuilder().setSeconds(s).setNanos(n).build());
    }

    public static Timestamp add(Timestamp a, Duration d) {
        checkValid(a);
        Durations.checkValid(d);
        return normalized(Math.addExact(a.getSeconds(), d.getSeconds()), Math.addExact(a.getNanos(), d.getNanos()));
    }

    public static Timestamp subtract(Timestamp a, Duration d) {
        checkValid(a);
        Durations.checkValid(d);
        return normalized(Math.subtractExact(a.getSeconds(), d.getSeconds()), Math.subtractExact(a.getNanos(), d.getNanos()));
    }

    public static String toString(Timestamp t) {
        checkValid(t);
        return Instant.ofEpochSecond(t.getSeconds(), t.getNanos()).toString();
    }
}
