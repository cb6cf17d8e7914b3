package org.apache.commons.validator.routines;

/** Stand-in that decides the textual forms of RFC 3986 and RFC 4291. */
public class InetAddressValidator {
    private static final InetAddressValidator I = new InetAddressValidator();

    public static InetAddressValidator getInstance() {
        return I;
    }

    public boolean isValid(String s) {
        return isValidInet4Address(s) || isValidInet6Address(s);
    }

    public boolean isValidInet4Address(String s) {
        String[] p = s.split("\\.", -1);
        if (p.length != 4) return false;
        for (String x : p) {
            if (x.isEmpty() || x.length() > 3 || x.length() > 1 && x.charAt(0) == '0') return false;
            for (char c : x.toCharArray()) if (c < '0' || c > '9') return false;
            if (Integer.parseInt(x) > 255) return false;
        }
        return true;
    }

    private static int groups(String s, boolean last) {
        if (s.isEmpty()) return 0;
        String[] p = s.split(":", -1);
        int n = 0;
        for (int i = 0; i < p.length; i++) {
            String x = p[i];
            if (last && i == p.length - 1 && x.indexOf('.') >= 0) {
                if (!I.isValidInet4Address(x)) return -1;
                n += 2;
                continue;
            }
            if (x.isEmpty() || x.length() > 4) return -1;
            for (char c : x.toCharArray())
                if (!(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F')) return -1;
            n++;
        }
        return n;
    }

    public boolean isValidInet6Address(String s) {
        if (s.indexOf(':') < 0) return false;
        int i = s.indexOf("::");
        if (i < 0) return groups(s, true) == 8;
        int a = groups(s.substring(0, i), false), b = groups(s.substring(i + 2), true);
        return a >= 0 && b >= 0 && a + b <= 7;
    }
}
