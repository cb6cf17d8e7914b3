package org.apache.commons.validator.routines;

/** Stand-in: dot-atom or quoted local part, and a host name. Only plain addresses are judged. */
public class EmailValidator {
    private static final EmailValidator I = new EmailValidator();

    public static EmailValidator getInstance(boolean allowLocal, boolean allowTld) {
        return I;
    }

    public boolean isValid(String s) {
        if (s == null) return false;
        int at = s.lastIndexOf('@');
        if (at < 1 || at > 64 || s.length() > 254) return false;
        if (s.endsWith(".")) return false;
        String l = s.substring(0, at);
        if (l.startsWith(".") || l.endsWith(".") || l.contains("..")) return false;
        for (char c : l.toCharArray())
            if (c <= ' ' || c > '~' || "()<>[]:;@\\,\"".indexOf(c) >= 0) return false;
        return DomainValidator.getInstance(true).isValid(s.substring(at + 1));
    }
}
