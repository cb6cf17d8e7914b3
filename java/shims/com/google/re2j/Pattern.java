package com.google.re2j;

/** Stand-in for RE2J: the patterns of our universe mean the same to java.util.regex. */
public final class Pattern {
    private final java.util.regex.Pattern p;
    private final String s;

    private Pattern(String s) {
        this.s = s;
        this.p = java.util.regex.Pattern.compile(s);
    }

    public static Pattern compile(String s) {
        return new Pattern(s);
    }

    public String pattern() {
        return s;
    }

    public String toString() {
        return s;
    }

    /** The whole of the input, as in RE2J. */
    public boolean matches(String in) {
        return p.matcher(in).matches();
    }

    public static boolean matches(String re, CharSequence in) {
        return compile(re).matches(in.toString());
    }

    public java.util.regex.Matcher matcher(CharSequence in) {
        return p.matcher(in);
    }
}
