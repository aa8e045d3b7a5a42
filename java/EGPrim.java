// Java overrides for spec/EGPrim.tla.  TLC loads this class because it carries the
// module's name; each public static method overrides the operator of the same name.
// All values are strings:
//   * numbers: canonical upper-case hex, whole bytes, no leading zero byte, "00" for zero
//   * byte strings: fixed-width upper-case hex (two digits per byte, may be empty)
//   * unsigned 64-bit quantities that do not fit TLC's 32-bit integers: decimal text
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.security.MessageDigest;
import java.util.Map;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

public final class EGPrim {
    private static BigInteger prop(String n, String d) {
        return new BigInteger(System.getProperty(n, d), 16);
    }
    static final BigInteger P = prop("eg.p", EGParams.P_HEX);
    static final BigInteger Q = prop("eg.q", EGParams.Q_HEX);
    static final BigInteger G = prop("eg.g", EGParams.G_HEX);
    static final BigInteger ONE = BigInteger.ONE;
    static final BigInteger COF = P.subtract(ONE).divide(Q);

    private static String str(Value v) { return ((StringValue) v).val.toString(); }
    private static Value sv(String s) { return new StringValue(s); }
    private static BigInteger big(String s) { return new BigInteger(s.isEmpty() ? "0" : s, 16); }
    private static BigInteger big(Value v) { return big(str(v)); }
    private static String canon(BigInteger b) {
        if (b.signum() < 0) throw new RuntimeException("EGPrim: negative number");
        String h = b.toString(16).toUpperCase();
        return (h.length() % 2 == 1) ? "0" + h : h;
    }
    private static Value num(BigInteger b) { return sv(canon(b)); }
    static byte[] bytes(String h) {
        if (h.length() % 2 != 0) throw new RuntimeException("EGPrim: odd hex " + h);
        byte[] r = new byte[h.length() / 2];
        for (int i = 0; i < r.length; i++)
            r[i] = (byte) ((Character.digit(h.charAt(2 * i), 16) << 4)
                           | Character.digit(h.charAt(2 * i + 1), 16));
        return r;
    }
    private static final char[] D = "0123456789ABCDEF".toCharArray();
    static String hex(byte[] b) {
        StringBuilder s = new StringBuilder(2 * b.length);
        for (byte x : b) { s.append(D[(x >> 4) & 15]).append(D[x & 15]); }
        return s.toString();
    }

    // ---- group parameters
    public static Value ParamP() { return num(P); }
    public static Value ParamQ() { return num(Q); }
    public static Value ParamG() { return num(G); }

    // ---- unbounded arithmetic
    public static Value IAdd(Value a, Value b) { return num(big(a).add(big(b))); }
    public static Value IMul(Value a, Value b) { return num(big(a).multiply(big(b))); }
    public static Value ISub(Value a, Value b) { return num(big(a).subtract(big(b))); }
    public static Value IMod(Value a, Value m) { return num(big(a).mod(big(m))); }
    public static Value ILt(Value a, Value b) {
        return big(a).compareTo(big(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    public static Value IDiv(Value a, Value b) { return num(big(a).divide(big(b))); }
    public static Value TwoPow(Value n) { return num(ONE.shiftLeft(((IntValue) n).val)); }
    public static Value MaxP() { return num(ONE.shiftLeft(4096).subtract(ONE)); }
    public static Value MaxQ() { return num(ONE.shiftLeft(256).subtract(ONE)); }

    // ---- modulo the large prime
    private static final Map<String, String> memo = new ConcurrentHashMap<>();
    private static final Map<String, BigInteger[]> tables = new ConcurrentHashMap<>();
    private static final int MEMO_MAX = 200000;
    // fixed-base windows for the generator: 4-bit windows over 256-bit exponents
    private static final BigInteger[][] GW = new BigInteger[64][];
    static {
        BigInteger b = G;
        for (int i = 0; i < 64; i++) {
            GW[i] = new BigInteger[16];
            GW[i][0] = ONE.mod(P);
            for (int j = 1; j < 16; j++) GW[i][j] = GW[i][j - 1].multiply(b).mod(P);
            b = GW[i][15].multiply(b).mod(P);
        }
    }
    static BigInteger pow(BigInteger a, BigInteger e) {
        if (a.equals(G) && e.bitLength() <= 256) {
            BigInteger r = ONE.mod(P);
            for (int i = 0; i < 64; i++) {
                int w = 0;
                for (int k = 3; k >= 0; k--) w = 2 * w + (e.testBit(4 * i + k) ? 1 : 0);
                if (w != 0) r = r.multiply(GW[i][w]).mod(P);
            }
            return r;
        }
        return a.modPow(e, P);
    }
    public static Value PPow(Value a, Value e) {
        String sa = str(a), se = str(e);
        String k = sa + "^" + se;
        String r = memo.get(k);
        if (r == null) {
            r = canon(pow(big(sa), big(se)));
            if (memo.size() < MEMO_MAX) memo.put(k, r);
        }
        return sv(r);
    }
    public static Value PMul(Value a, Value b) { return num(big(a).multiply(big(b)).mod(P)); }
    public static Value PInv(Value a) { return num(big(a).modInverse(P)); }
    public static Value PAdd(Value a, Value b) { return num(big(a).add(big(b)).mod(P)); }

    // ---- modulo the small prime
    public static Value QAdd(Value a, Value b) { return num(big(a).add(big(b)).mod(Q)); }
    public static Value QSub(Value a, Value b) { return num(big(a).subtract(big(b)).mod(Q)); }
    public static Value QMul(Value a, Value b) { return num(big(a).multiply(big(b)).mod(Q)); }
    public static Value QPow(Value a, Value b) { return num(big(a).modPow(big(b), Q)); }

    // ---- hashing
    private static byte[] sha(byte[] m) {
        try { return MessageDigest.getInstance("SHA-256").digest(m); }
        catch (Exception x) { throw new RuntimeException(x); }
    }
    private static byte[] hmac(byte[] key, byte[] m) {
        // RFC 2104 with SHA-256, written out so that empty keys work too
        byte[] k = key.length > 64 ? sha(key) : key;
        byte[] i = new byte[64 + m.length], o = new byte[96];
        for (int n = 0; n < 64; n++) {
            byte kb = n < k.length ? k[n] : 0;
            i[n] = (byte) (kb ^ 0x36);
            o[n] = (byte) (kb ^ 0x5c);
        }
        System.arraycopy(m, 0, i, 64, m.length);
        System.arraycopy(sha(i), 0, o, 64, 32);
        return sha(o);
    }
    public static Value Sha256(Value text) {
        return sv(hex(sha(str(text).getBytes(StandardCharsets.UTF_8))));
    }
    // SHA-256 of "|" t1 "|" t2 "|" ... "|", reduced modulo Q
    public static Value HashBar(Value seq) {
        TupleValue t = (TupleValue) seq.toTuple();
        StringBuilder s = new StringBuilder("|");
        for (Value v : t.elems) s.append(str(v)).append('|');
        return num(new BigInteger(1, sha(s.toString().getBytes(StandardCharsets.UTF_8))).mod(Q));
    }
    public static Value Hmac(Value key, Value msg) { return sv(hex(hmac(bytes(str(key)), bytes(str(msg))))); }

    // ---- byte strings
    public static Value BXor(Value a, Value b) {
        byte[] x = bytes(str(a)), y = bytes(str(b));
        int n = Math.min(x.length, y.length);
        byte[] r = new byte[n];
        for (int i = 0; i < n; i++) r[i] = (byte) (x[i] ^ y[i]);
        return sv(hex(r));
    }
    public static Value BLen(Value a) { return IntValue.gen(str(a).length() / 2); }
    // bytes from..to (1-based, inclusive); empty when to < from
    public static Value BSub(Value a, Value from, Value to) {
        int f = ((IntValue) from).val, t = ((IntValue) to).val;
        if (t < f) return sv("");
        return sv(str(a).substring(2 * (f - 1), 2 * t));
    }
    public static Value BZero(Value n) {
        int k = ((IntValue) n).val;
        return sv(k <= 0 ? "" : "00".repeat(k));
    }
    // number -> n bytes, big endian; bytes -> number
    public static Value BFix(Value a, Value n) {
        String h = canon(big(a));
        int w = 2 * ((IntValue) n).val;
        while (h.length() > w && h.startsWith("00")) h = h.substring(2);
        if (h.length() > w) throw new RuntimeException("EGPrim.BFix: too long");
        return sv("0".repeat(w - h.length()) + h);
    }
    public static Value BNum(Value a) { return num(big(a)); }
    public static Value LE32(Value n) {
        int v = ((IntValue) n).val;
        return sv(hex(new byte[]{(byte) v, (byte) (v >> 8), (byte) (v >> 16), (byte) (v >> 24)}));
    }
    public static Value BE16(Value n) {
        int v = ((IntValue) n).val;
        return sv(hex(new byte[]{(byte) (v >> 8), (byte) v}));
    }
    public static Value BEInt(Value a) { return IntValue.gen(big(a).intValueExact()); }
    public static Value TextBytes(Value s) { return sv(hex(str(s).getBytes(StandardCharsets.UTF_8))); }
    public static Value Upper(Value s) { return sv(str(s).toUpperCase()); }
    public static Value LowerText(Value s) { return sv(str(s).toLowerCase()); }
    public static Value TLen(Value s) { return IntValue.gen(str(s).length()); }
    public static Value TTail(Value s) { return sv(str(s).substring(1)); }
    public static Value TSub(Value s, Value i, Value j) {
        int f = ((IntValue) i).val, t = ((IntValue) j).val;
        return sv(t < f ? "" : str(s).substring(f - 1, Math.min(t, str(s).length())));
    }
    public static Value TJoin(Value seq, Value sep) {
        TupleValue t = (TupleValue) seq.toTuple();
        StringBuilder b = new StringBuilder();
        for (int i = 0; i < t.elems.length; i++) {
            if (i > 0) b.append(str(sep));
            b.append(str(t.elems[i]));
        }
        return sv(b.toString());
    }
    public static Value IsHexText(Value s) {
        return str(s).matches("[0-9A-Fa-f]+") ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value TContains(Value s, Value t) {
        return str(s).contains(str(t)) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    // the JSON spelling of a text (control characters, quote and backslash escaped, UTF-8 kept)
    public static Value JsonText(Value s) {
        StringBuilder r = new StringBuilder("\"");
        for (char c : str(s).toCharArray()) {
            switch (c) {
                case '"': r.append("\\\""); break;
                case '\\': r.append("\\\\"); break;
                case '\b': r.append("\\b"); break;
                case '\f': r.append("\\f"); break;
                case '\n': r.append("\\n"); break;
                case '\r': r.append("\\r"); break;
                case '\t': r.append("\\t"); break;
                default:
                    if (c < 0x20) r.append(String.format("\\u%04x", (int) c));
                    else r.append(c);
            }
        }
        return sv(r.append('"').toString());
    }
    // lexicographic order of the UTF-8 bytes
    public static Value TextLt(Value a, Value b) {
        byte[] x = str(a).getBytes(StandardCharsets.UTF_8), y = str(b).getBytes(StandardCharsets.UTF_8);
        return java.util.Arrays.compareUnsigned(x, y) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value BText(Value b) { return sv(new String(bytes(str(b)), StandardCharsets.UTF_8)); }
    public static Value TextRepeat(Value s, Value n) { return sv(str(s).repeat(((IntValue) n).val)); }

    // ---- decimal naturals
    private static BigInteger dec(Value v) {
        if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
        return new BigInteger(str(v));
    }
    public static Value DLt(Value a, Value b) {
        return dec(a).compareTo(dec(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value DAdd(Value a, Value b) { return sv(dec(a).add(dec(b)).toString()); }
    public static Value DHex(Value a) { return num(dec(a)); }
    public static Value DInt(Value a) { return IntValue.gen(dec(a).intValueExact()); }
    public static Value DStr(Value a) { return sv(dec(a).toString()); }

    // ---- deterministic pseudo-random choice (pure functions of their arguments)
    public static Value Pick(Value seed, Value n) {
        int k = ((IntValue) n).val;
        BigInteger h = new BigInteger(1, sha(("pick:" + str(seed)).getBytes(StandardCharsets.UTF_8)));
        return IntValue.gen(h.mod(BigInteger.valueOf(k)).intValue());
    }
    public static Value PickBytes(Value seed, Value n) {
        int k = ((IntValue) n).val;
        StringBuilder s = new StringBuilder();
        for (int i = 0; s.length() < 2 * k; i++)
            s.append(hex(sha(("bytes:" + i + ":" + str(seed)).getBytes(StandardCharsets.UTF_8))));
        return sv(s.substring(0, 2 * k));
    }
    public static Value EnvText(Value name, Value dflt) {
        String v = System.getProperty(str(name));
        if (v == null) v = System.getenv(str(name));
        return v == null ? dflt : sv(v);
    }
}
