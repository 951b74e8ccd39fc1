// P34: the text and memory functions of the runtime library (lib.h) on the reference machine.
#include "progs.h"
#include "jobs.h"
#include "checks.h"
namespace {
enum { NA = 400 };
const char* hexd = "0123456789abcdef";
// strings in scenarios: printable characters except " \ ? ; '~' stands for 0xE1, '`' for 0x01, '^' for a newline
string clean(const string& s, size_t lim = 100) { string t; for (char c : s) if (c > ' ' && c < 127 && !strchr("\"\\?", c)) t += c; else if (c == ' ') t += '_'; if (t.size() > lim) t.resize(lim); return t; }
string val(const string& s) { string t; for (char c : s) t += c == '~' ? (char)0xE1 : c == '`' ? '\x01' : c == '^' ? '\n' : c; return t; }
struct Gen { // source and expected output
    string decl, body, exp; int ns = 0, nv = 0; u8 a[NA]; bool bad = false;
    string str(const string& s) { string n = sfmt("s%d", ns++); decl += "char " + n + "[] = \"" + s + "\";\n"; body += "    fix(" + n + ");\n"; return n; }
    string num(int v, int how) { if (how == 0) return v < 0 ? sfmt("(%d)", v < -32767 ? -32767 : v) + (v < -32767 ? "-1" : "") : sfmt("%d", v); string n = sfmt("v%d", nv++); decl += how == 1 ? "int " + n + ";\n" : ""; body += how == 1 ? sfmt("    %s = %s;\n", n.c_str(), num(v, 0).c_str()) : sfmt("    int %s; %s = %s;\n", n.c_str(), n.c_str(), num(v, 0).c_str()); return n; }
    void out(const string& s) { for (char c : s) { if (c == '\n') exp += '\r'; exp += c; } }
    void hex(int v) { for (int i = 12; i >= 0; i -= 4) exp += hexd[v >> i & 15]; exp += ' '; }
    void sum() { u16 v = 0; for (int i = 0; i < NA; ++i) v = (u16)((v << 1) + (v >> 15) + a[i]); body += "    putx(sum());\n"; hex(v); }
    bool put(int off, const string& s) { if (off < 0 || off + (int)s.size() + 1 > NA) return false; memcpy(a + off, s.data(), s.size()); a[off + s.size()] = 0; return true; }
    // conversion pieces -> format (for a literal), arguments, result
    bool fmt(const vector<string>& p, size_t from, string& f, string& args, string& res) {
        string lf, la, lr;
        for (size_t i = from; i < p.size(); ++i) {
            const string& q = p[i]; int w = 0, z = 0, v = 0, how = 0; if (q.size() < 2 || q[1] != ':') continue; const char* c = q.c_str() + 2;
            switch (q[0]) {
            case 'L': { string t = clean(c, 40); string u; for (char ch : t) { if (ch == '%' || ch == '~' || ch == '`' || ch == '^') { if (ch == '%') u += "%%"; else u += '.'; } else u += ch; } lf += u; string m; for (size_t k = 0; k < u.size(); ++k) { m += u[k]; if (u[k] == '%') ++k; } lr += m; break; }
            case 's': { string t = clean(c, 60); lf += "%s"; la += ", " + str(t); lr += val(t); break; }
            case 'c': if (sscanf(c, "%d,%d", &v, &how) != 2 || v < 1 || v > 255) continue; lf += "%c"; la += ", " + num(v, how % 3); lr += (char)v; break;
            case 'd': case '+': {
                if (sscanf(c, "%d,%d,%d,%d", &w, &z, &v, &how) != 4 || w < 0 || w > 40) continue; v = (short)v; if (q[0] == '+') w = z = 0; if (z && v < 0) z = 0; if (!w) z = 0;
                string sp = q[0] == '+' ? "+d" : (z ? "0" : "") + (w ? sfmt("%d", w) : string()) + "d"; lf += "%" + sp; la += ", " + num(v, how % 3);
                string b = q[0] == '+' ? sfmt("%+d", v) : z ? sfmt("%0*d", w, v) : sfmt("%*d", w, v); lr += b; break; }
            case 'X': { if (sscanf(c, "%d,%d,%d", &w, &v, &how) != 3 || w < 0 || w > 4) continue; v &= 0xFFFF; if (!w) v |= 0x1000; else v &= (1 << 4 * w) - 1; lf += w ? sfmt("%%0%dX", w) : "%X"; la += ", " + num((short)v, how % 3); lr += sfmt("%0*X", w ? w : 4, v); break; }
            }
        }
        f = lf; args = la; res = lr; return true;
    }
    bool op(const string& line) {
        auto p = split(line); if (p.empty() || p[0].size() != 1) return false; char k = p[0][0]; auto n = [&](size_t i) { return i < p.size() ? atoi(p[i].c_str()) : 0; };
        string f, args, res; string keepD = decl, keepB = body; int kn = ns, kv = nv; auto undo = [&] { decl = keepD; body = keepB; ns = kn; nv = kv; return false; };
        auto ss = [&](size_t i) { return i < p.size() ? clean(p[i]) : string(); };
        switch (k) {
        case 'P': fmt(p, 1, f, args, res); if (res.size() > 250 || f.empty()) return undo(); body += "    printf(\"" + f + "\"" + args + ");\n"; out(res); return true;
        case 'S': fmt(p, 2, f, args, res); if (!put(n(1), res)) return undo(); body += sfmt("    sprintf(A + %d, \"", n(1)) + f + "\"" + args + ");\n"; sum(); return true;
        case 'V': fmt(p, 2, f, args, res); if (!put(n(1), res)) return undo(); body += sfmt("    my(A + %d, \"", n(1)) + f + "\"" + args + ");\n"; hex(n(1) + (int)res.size()); sum(); return true;
        case 'U': case 'Q': { string t = ss(1); body += sfmt("    %s(%s);\n", k == 'U' ? "puts" : "PutStr", str(t).c_str()); /* str() adds the fix before */ out(val(t) + (k == 'U' ? "\n" : "")); return true; }
        case 'H': case 'R': { int v = n(1) & 0xFF; if (!v) return false; string e = num(v, n(2) % 3); body += sfmt("    %s(%s);\n", k == 'H' ? "putchar" : "raw_putchar", e.c_str()); if (k == 'H') out(string(1, (char)v)); else exp += (char)v; return true; }
        case 'Y': case 'E': { string t = ss(2); if (!put(n(1), val(t))) return false; string e = str(t); if (k == 'Y') body += sfmt("    strcpy(A + %d, %s);\n", n(1), e.c_str()); else { body += sfmt("    putx(CopyStr(A + %d, %s) - A);\n", n(1), e.c_str()); hex(n(1) + (int)t.size()); } sum(); return true; }
        case 'M': { int d = n(1), s = n(2), c = n(3); if (d < 0 || s < 0 || c < 0 || d + c > NA || s + c > NA || (d < s + c && s < d + c && c)) return false; memmove(a + d, a + s, (size_t)c); string e = num(c, n(4) % 3); body += sfmt("    memcpy(A + %d, A + %d, %s);\n", d, s, e.c_str()); sum(); return true; }
        case 'Z': { int d = n(1), v = (short)n(2), c = n(3); if (d < 0 || c < 0 || d + c > NA) return false; memset(a + d, v, (size_t)c); string e = num(c, n(4) % 3), e2 = num(v, n(4) / 3 % 3); body += sfmt("    memset(A + %d, %s, %s);\n", d, e2.c_str(), e.c_str()); sum(); return true; }
        case 'F': { int off = n(1), v = (short)n(2), seg = n(3); if (off < 0 || off >= NA || seg < -200 || seg > 200) return false; a[off] = (u8)v; string e = num(v, n(4) % 3); body += sfmt("    FarPoke(GetDS() + %d, A + %d - %d, %s);\n", seg, off, seg * 16, e.c_str()); sum(); return true; }
        case 'G': { int off = n(1), seg = n(3); if (off < 0 || off >= NA || seg < -200 || seg > 200) return false; body += sfmt("    putx(FarPeek(GetDS() + %d, A + %d - %d));\n", seg, off, seg * 16); hex(a[off]); return true; }
        case 'B': { int off = n(1), v = n(2) & 0xFF; if (off < 0 || off > 3999) return false; body += sfmt("    FarPoke(%d, %d, %d); FarPoke(%d, %d, %d); putx(FarPeek(%d, %d));\n", 0xB800 - 0x10000, off, v, 0xB800 - 0x10000, off + 1, 255 - v, 0xB800 - 0x10000, off); hex(v); return true; }
        case 'K': { string x = ss(1), y = ss(2); if (x == "-") x = ""; if (y == "-") y = ""; string xa = str(x), ya = str(y); string vx = val(x), vy = val(y); bool hi = false; for (char c : vx + vy) if ((u8)c > 127) hi = true; int c = strcmp(vx.c_str(), vy.c_str());
            if (hi) { body += sfmt("    putx(strcmp(%s, %s) == 0);\n", xa.c_str(), ya.c_str()); hex(c == 0); } else { body += sfmt("    r = strcmp(%s, %s); putx((r > 0) - (r < 0));\n", xa.c_str(), ya.c_str()); hex((c > 0) - (c < 0) & 0xFFFF); } return true; }
        case 'N': { string t = ss(1); if (t == "-") t = ""; string e = str(t); body += sfmt("    putx(strlen(%s));\n", e.c_str()); hex((int)t.size()); return true; }
        case 'T': body += "    clock(); putx(mark);\n"; hex(0x1234); return true;
        case 'A': body += sfmt("    assert(%d);\n", n(1) ? n(1) : 1); return true;
        }
        return false;
    }
};
string rs(Rng& r, int lim) { static const string al = "abcxyzABZ019_.,;:+-*/=<>()[]{}#%@!~`^'"; string t; int n = r.chance(1, 10) ? r.range(lim / 2, lim) : r.range(1, 9); if (n > lim) n = lim; for (int i = 0; i < n; ++i) t += al[r.below((u32)al.size())]; return t; }
int rv(Rng& r) { return r.chance(1, 3) ? r.pick({ 0, 1, -1, 9, 10, -9, -10, 99, 100, 32767, -32768, -32767, 255, 256, 0x7F, 0x80, 1000, 9999, 10000, -10000 }) : (int)(short)r.next(); }
string pieces(Rng& r, int lim) {
    string t; int n = r.range(1, 6);
    for (int i = 0; i < n; ++i) switch (r.below(8)) {
    case 0: case 1: t += " L:" + rs(r, 20); break;
    case 2: t += " s:" + rs(r, lim); break;
    case 3: t += sfmt(" c:%d,%d", r.chance(1, 2) ? r.range(33, 126) : r.range(1, 255), (int)r.below(3)); break;
    case 4: t += sfmt(" +:0,0,%d,%d", rv(r), (int)r.below(3)); break;
    case 5: case 6: t += sfmt(" d:%d,%d,%d,%d", r.chance(1, 2) ? 0 : r.chance(1, 6) ? r.range(10, 30) : r.range(1, 9), (int)r.below(2), rv(r), (int)r.below(3)); break;
    default: t += sfmt(" X:%d,%d,%d", (int)r.below(5), rv(r) & 0xFFFF, (int)r.below(3)); break;
    }
    return t;
}
Scenario gen(Rng& r, u64) {
    Scenario s; s.kind = "text"; s.num["seed"] = (long long)(r.next() >> 1); s.num["garbage"] = r.pick({ 0, 1, 2, 3, 3, 3 }); if (r.chance(1, 2)) s.num["irq"] = r.pick({ 2, 7, 50, 300 });
    s.num["exit"] = (int)r.below(256); s.num["style"] = r.chance(1, 8) ? 2 : (int)r.below(2); s.num["depth"] = r.pick({ 0, 1, 2, 5, 9, 10, 15 });
    string t; int n = r.range(1, 14);
    for (int i = 0; i < n; ++i) switch (r.below(18)) {
    case 0: case 1: case 2: t += "P" + pieces(r, 40) + "\n"; break;
    case 3: case 4: t += sfmt("S %d", r.range(0, NA - 60)) + pieces(r, 50) + "\n"; break;
    case 5: t += sfmt("V %d", r.range(0, NA - 60)) + pieces(r, 50) + "\n"; break;
    case 6: t += string(r.pick({ "U ", "Q " })) + rs(r, 90) + "\n"; break;
    case 7: t += sfmt("%c %d %d\n", r.chance(1, 2) ? 'H' : 'R', r.pick({ 10, 13, r.range(1, 255), r.range(32, 126) }), (int)r.below(3)); break;
    case 8: t += sfmt("%c %d ", r.chance(1, 2) ? 'Y' : 'E', r.range(0, NA - 100)) + (r.chance(1, 12) ? "" : rs(r, 90)) + "\n"; break;
    case 9: case 10: { int c = r.pick({ 0, 1, 2, r.range(1, 60), r.range(1, 190) }); int x = (int)r.below((u32)(NA / 2 - c + 1)), y = NA / 2 + (int)r.below((u32)(NA / 2 - c + 1)); if (r.chance(1, 2)) std::swap(x, y); t += sfmt("M %d %d %d %d\n", x, y, c, (int)r.below(3)); break; }
    case 11: case 12: { int c = r.pick({ 0, 1, 2, 3, r.range(1, 60), r.range(1, 390) }); t += sfmt("Z %d %d %d %d\n", (int)r.below((u32)(NA - c + 1)), rv(r), c, (int)r.below(9)); break; }
    case 13: t += sfmt("%c %d %d %d %d\n", r.chance(1, 2) ? 'F' : 'G', (int)r.below(NA), rv(r), r.chance(1, 2) ? 0 : r.range(-20, 20), (int)r.below(3)); break;
    case 14: t += sfmt("B %d %d\n", (int)r.below(3999), (int)r.below(256)); break;
    case 15: { string x = rs(r, 20), y = r.chance(1, 3) ? x : r.chance(1, 2) ? x.substr(0, r.below((u32)x.size())) : rs(r, 20); if (r.chance(1, 2) && y.size()) y[r.below((u32)y.size())] = "abZ09~`"[r.below(7)]; if (r.chance(1, 2)) std::swap(x, y); if (x.empty()) x = "-"; if (y.empty()) y = "-"; t += "K " + x + " " + y + "\n"; break; }
    case 16: t += "N " + (r.chance(1, 5) ? string("-") : rs(r, 90)) + "\n"; break;
    default: t += r.chance(1, 2) ? "T\n" : sfmt("A %d\n", rv(r)); break;
    }
    s.files["@ops"] = t;
    return s;
}
void exec(const Scenario& s, Outcome& o) {
    Gen g; for (int i = 0; i < NA; ++i) g.a[i] = (u8)(i * 5 + 3);
    string t = s.files.count("@ops") ? s.files.at("@ops") : ""; size_t at = 0; int nops = 0;
    while (at < t.size() && nops < 24) { size_t e = t.find('\n', at); if (e == string::npos) e = t.size(); if (g.op(t.substr(at, e - at))) ++nops; at = e + 1; }
    int style = (int)s.n("style") % 3, depth = (int)(s.n("depth") & 15), code = (int)(s.n("exit") & 255);
    string src = "#include \"lib.h\"\nint r; int mark = 0x1234;\nchar A[400];\n" + g.decl +
        "void putx(int v) { int i; for (i = 0; i < 4; ++i) { raw_putchar(\"0123456789abcdef\"[(v>>12)&0xf]); v <<= 4; } raw_putchar(' '); }\n"
        "int sum(void) { int s = 0; int i; for (i = 0; i < 400; ++i) s = (s<<1) + ((s>>15)&1) + (A[i]&0xff); return s; }\n"
        "void fix(char* p) { while (*p) { if (*p == '~') *p = 0xE1; else if (*p == '`') *p = 1; else if (*p == '^') *p = 10; ++p; } }\n"
        "void my(char* d, const char* f, ...) { va_list v; va_start(v, f); putx(vsprintf(d, f, v) - A); va_end(v); }\n"
        "void deep(int n) { if (n) deep(n - 1); else assert(0); }\n"
        "int main(void)\n{\n    int i; for (i = 0; i < 400; ++i) A[i] = i*5+3;\n" + g.body + (style == 0 ? sfmt("    return %d;\n}\n", code) : style == 1 ? sfmt("    exit(%d);\n}\n", code) : sfmt("    deep(%d);\n    return 0;\n}\n", depth));
    string err, img = buildCom(src, true, &err);
    if (img.empty()) { o.fail("build", "program using the library is rejected: " + err); return; }
    World w; w.sc = &s; w.oc = &o; w.disk.ci = true; PcSpec p; p.name = "prog"; p.image = img; p.seed = (u64)s.n("seed"); p.garbage = (int)s.n("garbage"); p.irqEvery = (int)s.n("irq"); p.fuel = 5000000; p.extraLo = 0xB8000; p.extraHi = 0xB8000 + 4002;
    PcResult r = runPc(w, p); Hash hh; hh.add(hashStr(r.out)); hh.add(r.steps); o.shape = hh.h; o.nontrivial = nops > 0;
    if (r.end != E_EXIT) { o.fail("end", "program using the library: " + r.describe() + " after printing " + quote(r.out.size() > 300 ? r.out.substr(0, 300) : r.out)); return; }
    if (style < 2) { if (r.out != g.exp) { size_t i = 0; while (i < r.out.size() && i < g.exp.size() && r.out[i] == g.exp[i]) ++i; o.fail("output", sfmt("output differs at byte %zu: ", i) + quote(r.out.substr(i, 60)) + ", expected " + quote(g.exp.substr(i, 60))); return; } if (r.code != code) { o.fail("exit", sfmt("exit code %d became %d", code, r.code)); return; } return; }
    string head = g.exp + "Assertion failed\r\n\r\nBP   Return address\r\n";
    if (r.out.compare(0, head.size(), head)) { o.fail("output", "a failed assertion prints " + quote(r.out.substr(std::min(r.out.size(), g.exp.size()), 80)) + " after correct output"); return; }
    if (r.code != 1) { o.fail("exit", sfmt("a failed assertion ends with exit code %d", r.code)); return; }
    // one line per function entered and not left: assert, deep (n+1 times), main; addresses rise
    size_t q = head.size(); int lines = 0; unsigned last = 0;
    while (q < r.out.size()) { unsigned b, ip; int n = 0; if (sscanf(r.out.c_str() + q, "%4X %4X\r\n%n", &b, &ip, &n) != 2 || !n) { o.fail("output", "a failed assertion prints a stack line " + quote(r.out.substr(q, 30))); return; } ++lines; q += 11;
        if (b <= last || ip < 0x100 || ip > 0x100 + img.size()) { o.fail("stack", sfmt("stack line %d of a failed assertion names a frame at %04X with return address %04X, which the program does not have", lines, b, ip)); return; } last = b; }
    if (lines != depth + 3) { o.fail("stack", sfmt("a failed assertion %d calls below main lists %d frames, there are %d", depth + 2, lines, depth + 3)); return; }
}
} // namespace
void registerTextChecks() {
    registerCheck({ "P34", gen, exec, 24000, 600000, "seeded sequences of formatting, output, string, memory, far memory, clock and assertion calls with all argument forms x machines (initial memory and registers, interrupts between any two instructions); the call sequence's results computed by the C library and a memory model are the oracle; distinct by output and instruction count", "lib.h of the working tree inside programs built by the host scpp and scc, executed instruction by instruction", "8086 processor, DOS console, interrupts and initial memory (reference machine)", "8086 instructions (probe.instructions)" });
}
