package org.apache.commons.validator.routines;

/** Stand-in that decides what validate.proto documents as a host name. */
public class DomainValidator {
    private static final DomainValidator I = new DomainValidator();

    public static DomainValidator getInstance(boolean allowLocal) {
        return I;
    }

    public boolean isValid(String h) {
        if (h == null || h.length() > 253) return false;
        String s = h.toLowerCase(java.util.Locale.ROOT);
        if (s.endsWith(".")) s = s.substring(0, s.length() - 1);
        for (String l : s.split("\\.", -1)) {
            if (l.isEmpty() || l.length() > 63 || l.startsWith("-") || l.endsWith("-")) return false;
            for (char c : l.toCharArray())
                if (!(c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '-')) return false;
        }
        return true;
    }
}
