package org.apache.commons.validator.routines;

public class InetAddressValidator {
    private static final InetAddressValidator V = new InetAddressValidator();

    public static InetAddressValidator getInstance() {
        return V;
    }

    public boolean isValid(String s) {
        return isValidInet4Address(s) || isValidInet6Address(s);
    }

    public boolean isValidInet4Address(String s) {
        String[] p = s.split("\\.", -1);
        if (p.length != 4) {
            return false;
        }
        for (String x : p) {
            if (x.isEmpty() || x.length() > 3 || x.length() > 1 && x.charAt(0) == '0') {
                return false;
            }
            for (char c : x.toCharArray()) {
                if (c < '0' || c > '9') {
                    return false;
                }
            }
            if (Integer.parseInt(x) > 255) {
                return false;
            }
        }
        return true;
    }

    public boolean isValidInet6Address(String s) {
        int dc = s.indexOf("::");
        if (dc >= 0 && s.indexOf("::", dc + 1) >= 0) {
            return false;
        }
        int n;
        if (dc < 0) {
            n = groups(s, true);
            return n == 8;
        }
        String a = s.substring(0, dc), b = s.substring(dc + 2);
        int x = a.isEmpty() ? 0 : groups(a, false), y = b.isEmpty() ? 0 : groups(b, true);
        return x >= 0 && y >= 0 && x + y <= 7;
    }

    private int groups(String s, boolean last) {
        String[] p = s.split(":", -1);
        int n = 0;
        for (int i = 0; i < p.length; i++) {
            if (last && i == p.length - 1 && p[i].contains(".")) {
                if (!isValidInet4Address(p[i])) {
                    return -100;
                }
                n += 2;
                continue;
            }
            if (p[i].isEmpty() || p[i].length() > 4) {
                return -100;
            }
            for (char c : p[i].toCharArray()) {
                if (!(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F')) {
                    return -100;
                }
            }
            n++;
        }
        return n;
    }
}
