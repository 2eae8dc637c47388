import java.io.*;
import xyz.omkar.tokenizers.Tokenizer;

/** Replays a file of calls through the Java binding and records what each returned (see mc/c21.cpp). */
public class Driver {
    static String str(DataInputStream in) throws IOException {
        int n = in.readInt();
        if (n < 0) return null;
        char[] c = new char[n];
        for (int i = 0; i < n; i++) c[i] = in.readChar();
        return new String(c);
    }
    static int[] ints(DataInputStream in) throws IOException {
        int n = in.readInt();
        if (n < 0) return null;
        int[] v = new int[n];
        for (int i = 0; i < n; i++) v[i] = in.readInt();
        return v;
    }
    public static void main(String[] a) throws Exception {
        DataInputStream in = new DataInputStream(new BufferedInputStream(new FileInputStream(a[0])));
        DataOutputStream out = new DataOutputStream(new BufferedOutputStream(new FileOutputStream(a[1]), 1 << 16));
        int nt = in.readInt();
        Tokenizer[] t = new Tokenizer[nt];
        int ops = in.readInt();
        for (int k = 0; k < ops; k++) {
            int kind = in.readByte(), which = in.readInt();
            boolean flag = in.readBoolean();
            String s = kind == 1 ? null : str(in);
            int[] v = kind == 1 ? ints(in) : null;
            out.flush();
            Object r = null;
            boolean thrown = false;
            try {
                if (kind == 0) t[which] = new Tokenizer(s);
                else if (kind == 1) r = t[which].decode(v, flag);
                else r = t[which].encode(s, flag);
            } catch (Throwable e) {
                thrown = true;
            }
            if (thrown) out.writeByte(1);
            else if (kind != 0 && r == null) out.writeByte(2);
            else {
                out.writeByte(0);
                if (r instanceof int[]) { int[] w = (int[]) r; out.writeInt(w.length); for (int x : w) out.writeInt(x); }
                else if (r instanceof String) { String w = (String) r; out.writeInt(w.length()); for (int i = 0; i < w.length(); i++) out.writeChar(w.charAt(i)); }
            }
        }
        out.close();
    }
}
