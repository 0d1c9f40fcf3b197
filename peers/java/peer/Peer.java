package peer;

import java.io.BufferedReader;
import java.io.InputStreamReader;
import java.io.PrintStream;
import java.nio.charset.StandardCharsets;
import qiniu.uip.db.IPFormatException;
import qiniu.uip.db.IpInfo;
import qiniu.uip.db.Query;
import qiniu.uip.db.VersionInfo;

/** The Java library behind a pipe: one request a line, one answer a line. */
public final class Peer {
    private static Query db;
    private static IpInfo last;

    private Peer() {
    }

    private static byte[] unhex(String s) {
        byte[] b = new byte[s.length() / 2];
        for (int i = 0; i < b.length; i++) {
            b[i] = (byte) (Character.digit(s.charAt(2 * i), 16) << 4 | Character.digit(s.charAt(2 * i + 1), 16));
        }
        return b;
    }

    private static String hex(String s) {
        if (s == null) {
            return "";
        }
        StringBuilder b = new StringBuilder();
        for (byte x : s.getBytes(StandardCharsets.UTF_8)) {
            b.append(Character.forDigit(x >> 4 & 15, 16)).append(Character.forDigit(x & 15, 16));
        }
        return b.toString();
    }

    private static String answer(IpInfo i) {
        if (i == null) {
            return "X null";
        }
        last = i;
        return "A " + String.join(",", hex(i.country), hex(i.district), hex(i.province), hex(i.city), hex(i.asn), hex(i.isp), hex(i.continent), hex(i.line));
    }

    private static String handle(char k, String a) {
        try {
            if (k == 'O') {
                db = null;
                db = Query.create(unhex(a), ".ipdb");
                return "ok";
            }
            if (k == 'F') {
                db = null;
                db = Query.create(a);
                return "ok";
            }
            if (db == null) {
                return "closed";
            }
            switch (k) {
                case 'S':
                    return answer(db.query(a));
                case 'B':
                    return answer(db.query(unhex(a)));
                case 'U':
                    long n = Long.parseLong(a);
                    return answer(db.query(new byte[]{(byte) (n >> 24), (byte) (n >> 16), (byte) (n >> 8), (byte) n}));
                case 'M': // the caller changes what it was given
                    if (last != null) {
                        last.country = last.district = last.province = last.city = last.asn = last.isp = last.continent = last.line = "scribbled";
                    }
                    return "ok";
                case 'V':
                    VersionInfo v = db.version();
                    return "V " + v.ipType + " " + v.count + " " + v.build + " " + v.hasIpV4() + " " + v.hasIpV6() + " " + hex(v.version);
                default:
                    return "bad request";
            }
        } catch (IPFormatException | java.io.IOException e) {
            return ("E " + e).replace('\n', ' ');
        } catch (Throwable e) {
            return ("X " + e).replace('\n', ' ');
        }
    }

    public static void main(String[] args) throws Exception {
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8), 1 << 16);
        PrintStream out = new PrintStream(System.out, false, "UTF-8");
        String l;
        while ((l = in.readLine()) != null) {
            out.println("~" + handle(l.charAt(0), l.length() > 2 ? l.substring(2) : ""));
            out.flush();
        }
    }
}
