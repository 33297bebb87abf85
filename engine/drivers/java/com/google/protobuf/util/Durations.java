package com.google.protobuf.util;

import com.google.protobuf.Duration;
import java.util.Comparator;

/** Follows protobuf-java-util: the same checks and the same overflow behaviour. */
public final class Durations {
    public static final Duration ZERO = Duration.newBuilder().build();

    public static final Duration MIN_VALUE = Duration.newBuilder().setSeconds(-315576000000L).setNanos(-999999999).build();
    public static final Duration MAX_VALUE = Duration.newBuilder().setSeconds(315576000000L).setNanos(999999999).build();

    private Durations() {
    }

    public static boolean isValid(Duration d) {
        long s = d.getSeconds();
        int n = d.getNanos();
        if (s < -315576000000L || s > 315576000000L || n < -999999999L || n > 999999999L) {
            return false;
        }
        return !((s < 0 || n < 0) && (s > 0 || n > 0));
    }

    public static Duration checkValid(Duration d) {
        if (!isValid(d)) {
            throw new IllegalArgumentException("Duration is not valid: " + d.getSeconds() + ", " + d.getNanos());
        }
        return d;
    }

    public static Comparator<Duration> comparator() {
        return Durations::compare;
    }

    public static int compare(Duration a, Duration b) {
        checkValid(a);
        checkValid(b);
        int c = Long.compare(a.getSeconds(), b.getSeconds());
        return c != 0 ? c : Integer.compare(a.getNanos(), b.getNanos());
    }

    public static boolean isNegative(Duration d) {
        checkValid(d);
        return d.getSeconds() == 0 ? d.getNanos() < 0 : d.getSeconds() < 0;
    }

    public static long toNanos(Duration d) {
        checkValid(d);
        return Math.addExact(Math.multiplyExact(d.getSeconds(), 1000000000L), (long) d.getNanos());
    }

    public static long toSeconds(Duration d) {
        return checkValid(d).getSeconds();
    }

    public static String toString(Duration d) {
        checkValid(d);
        return d.getSeconds() + "." + d.getNanos() + "s";
    }

    public static boolean isPositive(Duration d) {
        checkValid(d);
        return !isNegative(d) && !d.equals(ZERO);
    }

    public static Duration checkNotNegative(Duration d) {
        if (isNegative(d)) {
            throw new IllegalArgumentException("duration must not be negative");
        }
        return d;
    }

    public static long toMillis(Duration d) {
        checkValid(d);
        return Math.addExact(Math.multiplyExact(d.getSeconds(), 1000L), (long) (d.getNanos() / 1000000));
    }

    public static long toMicros(Duration d) {
        checkValid(d);
        return Math.addExact(Math.multiplyExact(d.getSeconds(), 1000000L), (long) (d.getNanos() / 1000));
    }

    public static Duration fromSeconds(long s) {
        return normalized(s, 0);
    }

    public static Duration fromMillis(long ms) {
        return normalized(ms / 1000L, (int) (ms % 1000L) * 1000000);
    }

    public static Duration fromMicros(long us) {
        return normalized(us / 1000000L, (int) (us % 1000000L) * 1000);
    }

    public static Duration fromNanos(long n) {
        return normalized(n / 1000000000L, (int) (n % 1000000000L));
    }

    static Duration normalized(long s, int n) {
        if (n <= -1000000000L || n >= 1000000000L) {
            s = Math.addExact(s, (long) (n / 1000000000));
            n %= 1000000000;
        }
        if (s > 0 && n < 0) {
            n += 1000000000;
            s--;
        }
        if (s < 0 && n > 0) {
            n -= 1000000000;
            s++;
        }
        return checkValid(Duration.newBuilder().setSeconds(s).setNanos(n).build());
    }

    public static Duration add(Duration a, Duration b) {
        checkValid(a);
        checkValid(b);
        return normalized(Math.addExact(a.getSeconds(), b.getSeconds()), Math.addExact(a.getNanos(), b.getNanos()));
    }

    public static Duration subtract(Duration a, Duration b) {
        checkValid(a);
        checkValid(b);
        return normalized(Math.subtractExact(a.getSeconds(), b.getSeconds()), Math.subtractExact(a.getNanos(), b.getNanos()));
    }
}
