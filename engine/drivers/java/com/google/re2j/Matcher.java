package com.google.re2j;

public final class Matcher {
    private final Pattern p;
    private final java.util.regex.Matcher m;

    Matcher(Pattern p, java.util.regex.Matcher m) {
        this.p = p;
        this.m = m;
    }

    public Pattern pattern() {
        return p;
    }

    public boolean matches() {
        return m.matches();
    }

    public boolean lookingAt() {
        return m.lookingAt();
    }

    public boolean find() {
        return m.find();
    }

    public boolean find(int start) {
        return m.find(start);
    }

    public int start() {
        return m.start();
    }

    public int end() {
        return m.end();
    }

    public String group() {
        return m.group();
    }
}
