package org.apache.commons.validator.routines;

/** addr-spec of RFC 5322 with the limits of RFC 5321. */
public class EmailValidator {
    private static final EmailValidator V = new EmailValidator();

    public static EmailValidator getInstance() {
        return V;
    }

    public static EmailValidator getInstance(boolean allowLocal, boolean allowTld) {
        return V;
    }

    public boolean isValid(String s) {
        if (s == null) {
            return false;
        }
        int at = s.lastIndexOf('@');
        if (at <= 0 || at > 64) {
            return false;
        }
        String l = s.substring(0, at), d = s.substring(at + 1);
        for (char c : d.toCharArray()) {
            if (c > 127) {
                return false;
            }
        }
        if (!DomainValidator.getInstance(true).isValid(d) || d.endsWith(".")) {
            return false;
        }
        if (l.length() >= 2 && l.charAt(0) == '"' && l.charAt(l.length() - 1) == '"') {
            for (int i = 1; i < l.length() - 1; i++) {
                char c = l.charAt(i);
                if (c == '\\' && i + 1 < l.length() - 1) {
                    i++;
                } else if (c == '"' || c == '\\' || c < ' ' || c > 126) {
                    return false;
                }
            }
            return true;
        }
        for (String a : l.split("\\.", -1)) {
            if (a.isEmpty()) {
                return false;
            }
            for (char c : a.toCharArray()) {
                if (!(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || "!#$%&'*+-/=?^_`{|}~".indexOf(c) >= 0)) {
                    return false;
                }
            }
        }
        return true;
    }
}
