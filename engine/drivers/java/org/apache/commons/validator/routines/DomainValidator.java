package org.apache.commons.validator.routines;

/** Host names of RFC 1034, without a list of top-level domains. */
public class DomainValidator {
    private static final DomainValidator V = new DomainValidator();

    public static DomainValidator getInstance() {
        return V;
    }

    public static DomainValidator getInstance(boolean allowLocal) {
        return V;
    }

    /** Like the original, accepts internationalised names. */
    public boolean isValid(String s) {
        if (s == null) {
            return false;
        }
        String h = s.endsWith(".") ? s.substring(0, s.length() - 1) : s;
        if (h.isEmpty() || h.length() > 253) {
            return false;
        }
        for (String l : h.split("\\.", -1)) {
            if (l.isEmpty() || l.length() > 63 || l.charAt(0) == '-' || l.charAt(l.length() - 1) == '-') {
                return false;
            }
            for (char c : l.toCharArray()) {
                if (!(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '-' || c > 127 && Character.isLetter(c))) {
                    return false;
                }
            }
        }
        return true;
    }
}
