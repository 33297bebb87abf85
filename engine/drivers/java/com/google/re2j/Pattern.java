package com.google.re2j;

import java.nio.charset.StandardCharsets;

/** RE2 syntax on java.util.regex, for the patterns the monitors use. */
public final class Pattern {
    private final String src;
    private final java.util.regex.Pattern p;

    private Pattern(String src, java.util.regex.Pattern p) {
        this.src = src;
        this.p = p;
    }

    public static Pattern compile(String s) {
        return new Pattern(s, java.util.regex.Pattern.compile(translate(s), java.util.regex.Pattern.UNIX_LINES));
    }

    public static boolean matches(String re, CharSequence in) {
        return compile(re).p.matcher(in).matches();
    }

    public boolean matches(String s) {
        return p.matcher(s).matches();
    }

    public boolean matches(byte[] b) {
        return p.matcher(new String(b, StandardCharsets.UTF_8)).matches();
    }

    public Matcher matcher(CharSequence s) {
        return new Matcher(this, p.matcher(s));
    }

    public Matcher matcher(byte[] b) {
        return matcher(new String(b, StandardCharsets.UTF_8));
    }

    /** Whether a match is found anywhere. */
    boolean find(CharSequence s) {
        return p.matcher(s).find();
    }

    public String pattern() {
        return src;
    }

    @Override
    public String toString() {
        return src;
    }

    private static String translate(String s) {
        StringBuilder b = new StringBuilder();
        boolean cls = false;
        int depth = 0;
        boolean multi = s.contains("(?m") || s.contains("(?sm") || s.contains("(?im");
        for (int i = 0; i < s.length(); i++) {
            char c = s.charAt(i);
            if (c == '\\' && i + 1 < s.length()) {
                char n = s.charAt(i + 1);
                if (n == 'Q') {
                    int e = s.indexOf("\\E", i);
                    String lit = e < 0 ? s.substring(i + 2) : s.substring(i + 2, e);
                    b.append(java.util.regex.Pattern.quote(lit));
                    i = e < 0 ? s.length() : e + 1;
                    continue;
                }
                if (n == 'x' && i + 2 < s.length() && s.charAt(i + 2) == '{') {
                    b.append("\\x");
                    i++;
                    continue;
                }
                if (n == 'C') {
                    throw new IllegalArgumentException("\\C");
                }
                b.append(c).append(n);
                i++;
                continue;
            }
            if (cls) {
                if (c == '[' && i + 1 < s.length() && s.charAt(i + 1) == ':') {
                    int e = s.indexOf(":]", i);
                    String name = s.substring(i + 2, e);
                    boolean neg = name.startsWith("^");
                    if (neg) {
                        name = name.substring(1);
                    }
                    b.append(neg ? "\\P{" : "\\p{").append(posix(name)).append("}");
                    i = e + 1;
                    continue;
                }
                if (c == '[' || c == '&') {
                    b.append('\\');
                }
                if (c == ']') {
                    cls = false;
                }
                b.append(c);
                continue;
            }
            if (c == '[') {
                cls = true;
                b.append(c);
                if (i + 1 < s.length() && s.charAt(i + 1) == '^') {
                    b.append('^');
                    i++;
                }
                if (i + 1 < s.length() && s.charAt(i + 1) == ']') {
                    b.append("\\]");
                    i++;
                }
                continue;
            }
            if (c == '$' && !multi) {
                b.append("\\z");
                continue;
            }
            if (s.startsWith("(?P<", i)) {
                b.append("(?<");
                i += 3;
                continue;
            }
            b.append(c);
        }
        return b.toString();
    }

    private static String posix(String n) {
        switch (n) {
            case "alpha":
                return "Alpha";
            case "digit":
                return "Digit";
            case "alnum":
                return "Alnum";
            case "upper":
                return "Upper";
            case "lower":
                return "Lower";
            case "space":
                return "Space";
            case "punct":
                return "Punct";
            case "xdigit":
                return "XDigit";
            case "cntrl":
                return "Cntrl";
            case "print":
                return "Print";
            case "graph":
                return "Graph";
            case "blank":
                return "Blank";
            case "ascii":
                return "ASCII";
            default:
                throw new IllegalArgumentException(n);
        }
    }
}
