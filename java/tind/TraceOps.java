package tind;

import java.io.*;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.atomic.LongAdder;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/**
 * Java evaluation of spec/TraceIO.tla: reading recorded traces, and writing verdicts out of TLC.
 * Traces are JSON, one block per line; #hhhhhhhhhhhhhhhh is a double given by its bits.
 */
public final class TraceOps {
    static final class P {
        final String s; int i = 0;
        P(String s) { this.s = s; }
        void ws() { while (i < s.length() && s.charAt(i) <= ' ') { ++i; } }
        RuntimeException bad(String m) { return new RuntimeException("trace: " + m + " at " + i + " in " + s.substring(Math.max(0, i - 40), Math.min(s.length(), i + 40))); }
        Value value() {
            ws();
            char c = s.charAt(i);
            if (c == '#') {
                long v = Long.parseUnsignedLong(s, i + 1, i + 17, 16);
                i += 17;
                return new RealValue(Double.longBitsToDouble(v));
            } else if (c == '"') {
                return new StringValue(str());
            } else if (c == '[') {
                ++i;
                ArrayList<Value> l = new ArrayList<>();
                ws();
                if (s.charAt(i) == ']') { ++i; return TupleValue.EmptyTuple; }
                while (true) {
                    l.add(value());
                    ws();
                    char d = s.charAt(i++);
                    if (d == ']') { break; }
                    if (d != ',') { throw bad("expected , or ]"); }
                }
                return new TupleValue(l.toArray(new Value[0]));
            } else if (c == '{') {
                ++i;
                ArrayList<UniqueString> n = new ArrayList<>();
                ArrayList<Value> l = new ArrayList<>();
                ws();
                if (s.charAt(i) == '}') { throw bad("empty record"); }
                while (true) {
                    ws();
                    n.add(UniqueString.uniqueStringOf(str()));
                    ws();
                    if (s.charAt(i++) != ':') { throw bad("expected :"); }
                    l.add(value());
                    ws();
                    char d = s.charAt(i++);
                    if (d == '}') { break; }
                    if (d != ',') { throw bad("expected , or }"); }
                }
                return new RecordValue(n.toArray(new UniqueString[0]), l.toArray(new Value[0]), false);
            } else if (c == 't') { i += 4; return BoolValue.ValTrue; }
            else if (c == 'f') { i += 5; return BoolValue.ValFalse; }
            int j = i;
            if (s.charAt(i) == '-') { ++i; }
            while (i < s.length() && Character.isDigit(s.charAt(i))) { ++i; }
            if (i == j) { throw bad("unexpected character"); }
            return IntValue.gen(Integer.parseInt(s.substring(j, i)));   // throws when out of range
        }
        String str() {
            if (s.charAt(i++) != '"') { throw bad("expected string"); }
            StringBuilder b = new StringBuilder();
            while (true) {
                char c = s.charAt(i++);
                if (c == '"') { return b.toString(); }
                if (c == '\\') {
                    c = s.charAt(i++);
                    if (c == 'n') { c = '\n'; } else if (c == 't') { c = '\t'; }
                    else if (c == 'u') { c = (char) Integer.parseInt(s.substring(i, i + 4), 16); i += 4; }
                }
                b.append(c);
            }
        }
    }

    @TLAPlusOperator(identifier = "LoadBlocks", module = "TraceIO", warn = false)
    public static Value load(StringValue path) throws IOException {
        ArrayList<Value> l = new ArrayList<>();
        try (BufferedReader in = Files.newBufferedReader(Paths.get(path.val.toString()))) {
            for (String line; (line = in.readLine()) != null; ) {
                if (!line.isEmpty()) { Value v = new P(line).value(); v.deepNormalize(); l.add(v); }
            }
        }
        return new TupleValue(l.toArray(new Value[0]));
    }

    @TLAPlusOperator(identifier = "TracePath", module = "TraceIO", warn = false)
    public static Value path() { return new StringValue(System.getProperty("tind.trace")); }

    @TLAPlusOperator(identifier = "Shallow", module = "TraceIO", warn = false)
    public static Value shallow() { return Boolean.getBoolean("tind.shallow") ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static PrintWriter out;
    static final Map<String, LongAdder> counts = new TreeMap<>();

    /** Appends <<kind, value>> as one line of text to the report file; always TRUE. */
    @TLAPlusOperator(identifier = "Report", module = "TraceIO", warn = false)
    public static synchronized Value report(StringValue kind, Value v) throws IOException {
        if (out == null) {
            out = new PrintWriter(new FileWriter(System.getProperty("tind.report")));
            Runtime.getRuntime().addShutdownHook(new Thread(() -> {
                out.println("{\"kind\":\"stats\",\"judged\":" + RealOps.judged.sum() + ",\"open\":" + RealOps.open.sum() + ",\"paired\":" + RealOps.paired.sum() + ",\"unpaired\":" + RealOps.unpaired.sum() + "}");
                out.close();
            }));
        }
        StringBuilder b = new StringBuilder("{\"kind\":\"" + kind.val + "\",\"v\":");
        json(v, b);
        out.println(b.append("}"));
        out.flush();
        return BoolValue.ValTrue;
    }
    static void json(Value v, StringBuilder b) {
        if (v instanceof RealValue) {
            RealValue r = (RealValue) v;
            if (r.unk) { b.append("\"unknown\""); }
            else if (Double.isNaN(r.a) || Double.isInfinite(r.a)) { b.append('"').append(r.a).append('"'); }
            else { b.append(r.a); }
        } else if (v instanceof IntValue) { b.append(v.toString());
        } else if (v instanceof BoolValue) { b.append(((BoolValue) v).val ? "true" : "false"); }
        else if (v instanceof StringValue) {
            b.append('"').append(((StringValue) v).val.toString().replace("\\", "\\\\").replace("\"", "\\\"")).append('"');
        } else if (v instanceof RecordValue) {
            RecordValue r = (RecordValue) v;
            b.append('{');
            for (int i = 0; i < r.names.length; ++i) {
                if (i > 0) { b.append(','); }
                b.append('"').append(r.names[i]).append("\":");
                json(r.values[i], b);
            }
            b.append('}');
        } else {
            Value t = v.toTuple();
            if (t == null) { b.append('"').append(v.toString().replace("\\", "\\\\").replace("\"", "\\\"")).append('"'); return; }
            b.append('[');
            Value[] e = ((TupleValue) t).elems;
            for (int i = 0; i < e.length; ++i) {
                if (i > 0) { b.append(','); }
                json(e[i], b);
            }
            b.append(']');
        }
    }
}
