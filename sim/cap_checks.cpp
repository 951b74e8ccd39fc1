// P30: inputs around and beyond the capacity of the tools' tables, buffers and of the 64 KB segment: a
// tool either refuses with a message, or its output is complete and right; it never runs over.
#include "progs.h"
#include "jobs.h"
#include "checks.h"
#include "pp_ref.h"
namespace {
const char* const PRE = "void putchar(int ch) {\n_emit 0x8B _emit 0x46|2<<3 _emit 0x04\n_emit 0xB8 _emit 0x00 _emit 0x02\n_emit 0xCD _emit 0x21\n}\nvoid putn(int n) {\nint i;\nfor (i = 0; i < 4; ++i) {\nputchar(\"0123456789abcdef\"[(n>>12)&0xf]);\nn <<= 4;\n}\nputchar(' ');\n}\nvoid main(void);\nvoid _start(void) {\nchar* bss = &_SBSS;\nwhile (bss != &_EBSS) *bss++ = 0;\nmain();\n_emit 0xB8 _emit 0x00 _emit 0x4C _emit 0xcd _emit 0x21\n}\n";
struct CG {
    Rng& r; Scenario& s; string t, m, want; int must = 0; bool run = true;
    CG(Rng& r_, Scenario& s_) : r(r_), s(s_) {}
    void P(long v) { want += sfmt("%04x ", (unsigned)v & 0xFFFF); }
    // a number of things around a limit: mostly close to it, sometimes far beyond, sometimes small
    int around(int lim, int spread) { switch (r.below(6)) { case 0: return r.range(1, lim); case 1: return lim + r.range(spread, lim * 2); case 2: return r.range(1, std::max(1, lim / 3)); default: return std::max(1, lim + r.range(-spread, spread)); } }
    void comfortable(int n, int lim) { if (n <= lim / 2) must = 1; }
    void statements() { // machine code
        int n = around(2500, 700), per = r.pick({ 20, 60, 200, 100000 }), a = r.range(0, 999); short g = (short)a; string cur; int k = 0, fn = 0; vector<string> calls; m += sfmt("g = %d;\n", a); t += "int g;\nint h;\nchar c;\n"; short h = 0; signed char c = 0;
        int form = (int)r.below(5);
        for (int i = 0; i < n; ++i) {
            if (!k) { if (fn) t += "}\n"; t += sfmt("void f%d(void) {\n", fn); calls.push_back(sfmt("f%d();\n", fn)); ++fn; }
            int v = r.range(1, 9000);
            switch (form == 4 ? (int)r.below(5) : form) {
            case 0: t += sfmt("g = g + %d;\n", v + 200); g = (short)(g + v + 200); break;
            case 1: t += sfmt("h = %d;\n", v); h = (short)v; break;
            case 2: t += "g = g ^ h;\n"; g ^= h; break;
            case 3: t += sfmt("c = g; g = h * %d - c;\n", v & 255); c = (signed char)g; g = (short)(h * (v & 255) - c); break;
            default: t += "h = g << 1;\n"; h = (short)((u16)g << 1); break;
            }
            if (++k == per) k = 0;
            if (fn > 90) k = 1; // one function has the rest
        }
        t += "}\n"; for (auto& x : calls) m += x; m += "putn(g);\nputn(h);\n"; P(g); P(h); comfortable(n, 1200); if (n > 8000) must = 2;
    }
    void strings() {
        int total = around(20500, 3500), pieces = r.pick({ 1, 1, 2, 5, 10 }); int made = 0; int how = (int)r.below(3);
        if (r.chance(1, 2)) { int pad = r.range(1, 40); t += "int g;\nvoid pad(void) {\n"; while (pad--) t += "g = g + 300;\n"; t += "}\n"; }
        for (int i = 0; i < pieces; ++i) {
            int n = i + 1 == pieces ? total - made : total / pieces; if (n < 1) n = 1; made += n; string x; for (int k = 0; k < n; ++k) x += (char)('a' + (k * 7 + k / 26 + i) % 26);
            string q; size_t at = 0; while (at < x.size()) { size_t l = r.chance(1, 3) ? x.size() : (size_t)r.range(1, 9000); q += (q.empty() ? "\"" : "\n\"") + x.substr(at, l) + "\""; at += std::min(l, x.size() - at); }
            string nm = sfmt("s%d", i); if (how == 0) t += "const char " + nm + "[] = " + q + ";\n"; else { m += "p = " + q + ";\n"; nm = "p"; }
            int z = r.range(0, n - 1); m += sfmt("putn(%s[%d]);\nputn(%s[%d]);\nputn(%s[%d]);\n", nm.c_str(), z, nm.c_str(), n - 1, nm.c_str(), n); P(x[(size_t)z]); P(x.back()); P(0);
        }
        if (how) m = "char* p;\n" + m;
        comfortable(total, 20000); if (total > 30000) must = 2;
    }
    void data() { // variables: the segment has 64 KB
        int total; switch (r.below(5)) { case 0: total = r.range(100, 50000); break; case 1: total = r.range(66000, 200000); break; case 2: total = 65536 + r.range(-2000, 300); break; default: total = 64800 + r.range(-1500, 700); }
        int n = r.range(total / 30000 + 1, 9), made = 0, locs = 0; string chk; t += "struct B { char a[100]; int k; };\n"; int code = 1500;
        for (int i = 0; i < n; ++i) {
            int sz = i + 1 == n ? total - made : std::min(30000, r.range(1, std::max(2, 2 * total / n))); if (total - made - sz > 30000 * (n - i - 1)) sz = total - made - 30000 * (n - i - 1); if (sz > 30000) sz = 30000; if (sz < 1) sz = 1;
            string v = sfmt("v%d", i); int a = r.range(0, 127), b = r.range(0, 127); string st = r.chance(1, 4) ? "static " : ""; bool loc = r.chance(1, 6);
            string d; string first, last; int used;
            switch (r.below(4)) {
            case 0: { int k = std::max(1, sz / 2); d = "int " + v + sfmt("[%d]", k); used = 2 * k; first = v + "[0]"; last = v + sfmt("[%d]", k - 1); break; }
            case 1: { int k = std::max(1, sz / 102); d = "struct B " + v + sfmt("[%d]", k); used = 102 * k; first = v + "[0].a[0]"; last = v + sfmt("[%d].k", k - 1); break; }
            case 2: { int k = std::max(1, sz / 50); d = "char " + v + sfmt("[%d][50]", k); used = 50 * k; first = v + "[0][0]"; last = v + sfmt("[%d][49]", k - 1); break; }
            default: d = "char " + v + sfmt("[%d]", sz); used = sz; first = v + "[0]"; last = v + sfmt("[%d]", sz - 1); break;
            }
            made += used;
            if (loc) ++locs, m = "static " + d + ";\n" + m; else t += st + d + ";\n";
            chk += first + sfmt(" = %d;\n", a); if (last != first) chk += last + sfmt(" = %d;\n", b); else b = a;
            m += ""; rd += sfmt("putn(%s);\nputn(%s);\n", first.c_str(), last.c_str()); P(a); P(b);
        }
        m += chk + rd; rd.clear(); code += 0;
        if (made <= 50000 && locs <= 2) must = 1; else if (made > 65536 - 256) must = 2;
        if (must == 2) run = false;
    }
    string rd;
    void frame() { // variables of a function
        int total; switch (r.below(4)) { case 0: total = r.range(65600, 180000); break; case 1: total = r.range(30000, 60000); break; case 2: total = 65536 + r.range(-300, 300); break; default: total = r.range(2, 30000); }
        int n = total / 30000 + r.range(1, 3), made = 0; string chk; t += "void f(void) {\n";
        for (int i = 0; i < n; ++i) { int sz = i + 1 == n ? total - made : std::min(30000, total / n); if (sz < 1) sz = 1; if (sz > 30000) sz = 30000; made += sz; int a = r.range(0, 127), b = sz > 1 ? r.range(0, 127) : a; t += sfmt("char v%d[%d];\n", i, sz); chk += sfmt("v%d[0] = %d;\nv%d[%d] = %d;\n", i, a, i, sz - 1, b); rd += sfmt("putn(v%d[0]);\nputn(v%d[%d]);\n", i, i, sz - 1); P(a); P(b); }
        t += chk + rd + "}\n"; m += "f();\n"; if (made <= 30000) must = 1; else if (made > 65536) must = 2; if (made > 60000) run = false; rd.clear();
    }
    void names() { // identifiers: how many, how long
        int n = r.chance(1, 2) ? around(260, 40) : r.range(2, 200), len = r.chance(1, 2) ? r.range(1, 30) : r.pick({ 4000 / n, 4900 / n, 5000 / n, 5100 / n, 6000 / n }); if (len < 4) len = 4;
        short g = 0; int total = 0; t += "int g;\n"; vector<string> call;
        for (int i = 0; i < n; ++i) { string f = sfmt("f%d", i), l = sfmt("x%d", i); int fl = std::max(1, len + r.range(-3, 3)); while ((int)f.size() < fl) f += (char)('a' + r.below(26)); if (r.chance(1, 2)) l = "x"; total += (int)(f.size() + l.size() + 2); int v = r.range(0, 99); t += "void " + f + "(int " + l + ") { g = g + " + l + "; }\n"; m += f + sfmt("(%d);\n", v); g = (short)(g + v); }
        m += "putn(g);\n"; P(g); if (n <= 100 && total <= 2500) must = 1; if (n > 1500) must = 2;
    }
    void longName() { int n = r.chance(1, 2) ? r.range(4700, 5300) : r.chance(1, 3) ? r.range(5000, 30000) : r.range(1, 4000); string a(n, 'q'); t += "int " + a + ";\nint b;\n"; m += a + " = 7;\nb = 9;\nputn(" + a + ");\nputn(b);\n"; P(7); P(9); comfortable(n, 4000); }
    void scopes() { int n = around(14, 3), v = r.range(1, 999); m += "int x;\nx = " + sfmt("%d", v) + ";\n"; int kind = (int)r.below(3); for (int i = 0; i < n; ++i) m += kind == 0 ? sfmt("{ int y%d; y%d = x + %d;\n", i, i, i) : kind == 1 ? "if (x) {\n" : "while (x) {\n"; m += "putn(x);\n"; P(v); for (int i = 0; i < n; ++i) m += kind == 2 ? "break; }\n" : "}\n"; comfortable(n, 14); }
    void structs() {
        int n = around(8, 2), mem = r.range(1, 6); short sum = 0; int all = 0;
        for (int i = 0; i < n; ++i) { t += sfmt("struct S%d {", i); for (int k = 0; k < mem; ++k) t += r.chance(1, 2) ? sfmt(" int m%d;", k) : sfmt(" char m%d;", k); t += sfmt(" };\nstruct S%d w%d;\n", i, i); all += mem; int v = r.range(0, 127); m += sfmt("w%d.m%d = %d;\n", i, mem - 1, v); rd += sfmt("putn(w%d.m%d);\n", i, mem - 1); P(v); (void)sum; }
        m += rd; rd.clear(); if (n <= 4 && all <= 16) must = 1; if (n > 300) must = 2;
    }
    void members() { int n = around(32, 4); t += "struct S {\n"; vector<int> v; for (int i = 0; i < n; ++i) t += r.chance(1, 2) ? sfmt("int m%d;\n", i) : sfmt("char m%d;\n", i); t += "};\nstruct S w;\n"; for (int i = 0; i < n; ++i) m += sfmt("w.m%d = %d;\n", i, i & 127); m += sfmt("putn(w.m0);\nputn(w.m%d);\nputn(w.m%d);\n", n - 1, n / 2); P(0); P((n - 1) & 127); P((n / 2) & 127); comfortable(n, 32); }
    void arrays() { int n = around(30, 4); for (int i = 0; i < n; ++i) { t += sfmt("int a%d[%d];\n", i, i % 7 + 1); m += sfmt("a%d[%d] = %d;\n", i, i % 7, i); rd += sfmt("putn(a%d[%d]);\n", i, i % 7); P(i); } m += rd; rd.clear(); comfortable(n, 30); }
    void labels() { int n = around(300, 60), v = r.range(0, 5); t += "int g;\n"; m += sfmt("g = %d;\n", v); short g = (short)v; int kind = (int)r.below(3); for (int i = 0; i < n; ++i) { int a = r.range(0, 9); if (kind == 0 || (kind == 2 && r.chance(1, 2))) { m += sfmt("if (g < %d) g = %d;\n", a, a + 1); if (g < a) g = (short)(a + 1); } else { m += sfmt("g = g == %d ? %d : g + 1;\n", a, a + 3); g = (short)(g == a ? a + 3 : g + 1); } } m += "putn(g);\n"; P(g); comfortable(n, 150); }
    void gotos() { int n = around(8, 3); m += "int x;\nx = 0;\n"; for (int i = 0; i < n; ++i) m += sfmt("goto L%d;\nx = 99;\nL%d: x = x + %d;\n", i, i, i + 1); m += "putn(x);\n"; P(n * (n + 1) / 2); comfortable(n, 8); }
    void cases() { int n = around(120, 40), v = r.range(0, n - 1); t += "int g;\n"; m += sfmt("g = %d;\nswitch (g) {\n", v * 3); bool fall = r.chance(1, 3); for (int i = 0; i < n; ++i) m += sfmt("case %d: g = g + %d;\n", i * 3, i) + (fall ? "" : "break;\n"); m += "default: g = 5;\n}\nputn(g);\n"; P(fall ? 5 : v * 3 + v); comfortable(n, 60); }
    void args() { int n = around(8, 2); t += "int f("; string c = "putn(f("; short sum = 0; string b; for (int i = 0; i < n; ++i) { t += sfmt("%sint a%d", i ? ", " : "", i); int v = r.range(0, 999); c += sfmt("%s%d", i ? ", " : "", v); b += sfmt("%sa%d * %d", i ? " + " : "", i, i + 1); sum = (short)(sum + v * (i + 1)); } t += ") { return " + b + "; }\n"; m += c + "));\n"; P(sum); comfortable(n, 8); }
    void nest() { int n = s.n("dos") ? r.range(1, 60) : r.range(1, 300), v = r.range(1, 999); int kind = (int)r.below(3); m += sfmt("int x;\nx = %d;\n", v); string e; for (int i = 0; i < n; ++i) e += kind == 0 ? "(" : kind == 1 ? "1 + (" : "x + ("; e += "x"; for (int i = 0; i < n; ++i) e += ")"; m += "putn(" + e + ");\n"; P(kind == 0 ? v : kind == 1 ? v + n : (short)(v * (n + 1))); if (n <= 30) must = 1; }
    // many functions with local names, labels and blocks: what belongs to one function must be free for the next
    void functions() {
        int n = r.range(10, 90), scalars = r.range(0, 12), depth = r.range(0, 8), gts = r.range(0, 7), cond = r.range(0, 30); short g = 0; int bytes = 0; t += "int g;\n";
        for (int i = 0; i < n; ++i) {
            t += sfmt("void f%d(int p, int q) {\n", i); int v = r.range(0, 99), x = v; m += sfmt("f%d(%d, 3);\n", i, v);
            int L = r.range(0, scalars), D = r.range(0, depth), G = r.range(0, gts), C = r.range(0, cond); for (int k = 0; k < L; ++k) { t += sfmt("int l%d;\nl%d = p + %d;\n", k, k, k); }
            if (L) { t += sfmt("q = q + l%d;\n", L - 1); } int q = 3 + (L ? v + L - 1 : 0);
            for (int k = 0; k < D; ++k) t += sfmt("{ int d; int e%d; d = q; e%d = d + 1; q = e%d;\n", k, k, k); q += D; for (int k = 0; k < D; ++k) t += "}\n";
            for (int k = 0; k < G; ++k) t += sfmt("goto A%d;\nq = 999;\nA%d: ++q;\n", k, k); q += G;
            for (int k = 0; k < C; ++k) { int a = r.range(0, 120); t += sfmt("if (p > %d) q = q + %d;\n", a, k); if (x > a) q += k; }
            t += "g = g + q;\n}\n"; g = (short)(g + q); bytes += 40 + 20 * L + 30 * D + 20 * G + 20 * C;
        }
        m += "putn(g);\n"; P(g); must = bytes <= 20000;
    }
    void make() {
        static const char* const names_[] = { "statements", "strings", "data", "frame", "names", "long-name", "scopes", "structs", "members", "arrays", "labels", "gotos", "cases", "args", "nest", "functions" };
        int k = (int)r.pick({ 0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 4, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 });
        s.str["what"] = names_[k];
        switch (k) { case 0: statements(); break; case 1: strings(); break; case 2: data(); break; case 3: frame(); break; case 4: names(); break; case 5: longName(); break; case 6: scopes(); break; case 7: structs(); break; case 8: members(); break; case 9: arrays(); break; case 10: labels(); break; case 11: gotos(); break; case 12: cases(); break; case 13: args(); break; case 15: functions(); break; default: nest(); }
        s.files["t.c"] = PRE + t + "void main(void) {\n" + m + "}\n"; s.str["expect"] = want; s.num["must"] = must; s.num["run"] = run;
    }
};
// assembly: the bytes are known
void genAsmCap(Rng& r, Scenario& s) {
    string t, b; int must = 0; auto W = [&](int v) { b += (char)v; b += (char)(v >> 8); };
    auto around = [&](int lim, int spread) -> int { switch (r.below(6)) { case 0: return r.range(1, lim); case 1: return lim + r.range(spread, lim * 2); default: return std::max(1, lim + r.range(-spread, spread)); } };
    t += "org 0x100\n";
    switch (r.below(13)) {
    case 11: { // references are resolved again and again: nothing may be used up
        s.str["what"] = "resolved"; int labs = r.range(1, 220), per = r.range(1, 12), ahead = r.range(1, 12); struct X { size_t at; int lab; }; vector<X> fx; vector<int> def((size_t)labs, -1);
        for (int i = 0; i < labs; ++i) { for (int k = r.range(0, per); k--;) { int l = std::min(labs - 1, i + r.range(0, ahead - 1)); t += r.chance(1, 4) ? sfmt("mov ax, q%d\n", l) : sfmt("dw q%d\n", l); if (t[t.rfind('\n', t.size() - 2) + 1] == 'm') b += (char)0xB8; fx.push_back({ b.size(), l }); W(0); } t += sfmt("q%d: cbw\n", i); def[(size_t)i] = 0x100 + (int)b.size(); b += (char)0x98; }
        for (auto& x : fx) { int v = def[(size_t)x.lab]; b[x.at] = (char)v; b[x.at + 1] = (char)(v >> 8); } must = 1; break; }
    case 0: { s.str["what"] = "labels"; int n = around(480, 60); bool tail = r.chance(1, 2); int len = r.pick({ 0, 0, 4, 8, 16 }); string d; for (int i = 0; i < n; ++i) { string l = sfmt("l%d", i); while ((int)l.size() < len) l += 'q'; t += l + ": dw " + (tail ? l : sfmt("%d", i)) + "\n"; W(tail ? 0x100 + 2 * i : i); } if (n <= 200) must = 1; if (n > 1500) must = 2; break; }
    case 1: { s.str["what"] = "output"; int n = around(20000, 600), made = 0; while (made < n) { int k = std::min(n - made, r.range(1, 40)); if (r.chance(1, 2)) { t += "db '"; for (int i = 0; i < k; ++i) { char c = (char)('a' + (made + i) % 26); t += c; b += c; } t += "'\n"; } else { t += "db "; for (int i = 0; i < k; ++i) { int v = (int)r.below(256); t += sfmt(i ? ", %d" : "%d", v); b += (char)v; } t += "\n"; } made += k; } if (n <= 10000) must = 1; if (n > 65280) must = 2; break; }
    case 2: { s.str["what"] = "fixups"; int n = around(600, 60), lab = r.pick({ 1, 3, 50 }); for (int i = 0; i < n; ++i) { t += sfmt("dw z%d\n", i % lab); W(0x100 + 2 * n); } for (int i = 0; i < lab; ++i) t += sfmt("z%d:\n", i); t += "cbw\n"; b += (char)0x98; if (n <= 300) must = 1; break; }
    case 3: { s.str["what"] = "string"; int n = around(126, 4); string x; for (int i = 0; i < n; ++i) x += (char)('a' + i % 26); t += "db '" + x + "'\n"; b += x; if (n <= 60) must = 1; break; }
    case 4: { s.str["what"] = "long-name"; int n = around(16, 3); string x(n, 'k'); t += x + ": dw " + x + "\n"; W(0x100); if (n <= 12) must = 1; break; }
    case 5: { // jumps: distances around what one byte holds
        static const char* const cc[] = { "jo", "jno", "jc", "jnc", "jz", "jnz", "jna", "ja", "js", "jns", "jpe", "jpo", "jl", "jnl", "jng", "jg" };
        s.str["what"] = "jumps"; int n = r.range(1, 12); bool bad = false, okk = true;
        for (int i = 0; i < n; ++i) {
            int d = r.chance(1, 3) ? r.range(0, 200) : 127 + r.range(-4, 4), k = (int)r.below(16); auto fill = [&](int m) { while (m > 0) { int q = std::min(m, r.range(1, 30)); t += "db "; for (int j = 0; j < q; ++j) { int v = (int)r.below(256); t += sfmt(j ? ",%d" : "%d", v); b += (char)v; } t += "\n"; m -= q; } };
            switch (r.below(6)) {
            case 0: if (d > 126) d = 126 - d % 9; t += sfmt("%s f%d\n", cc[k], i); b += (char)(0x70 | k); b += (char)d; fill(d); t += sfmt("f%d:\n", i); break; // conditional forward: too far is a known finding of its own
            case 1: t += sfmt("f%d:\n", i); fill(d); t += sfmt("%s f%d\n", cc[k], i); b += (char)(0x70 | k); b += (char)-(d + 2); if (d + 2 > 128) bad = true; break;
            case 2: t += sfmt("f%d:\n", i); fill(d); t += sfmt("jmp short f%d\n", i); b += (char)0xEB; b += (char)-(d + 2); if (d + 2 > 128) bad = true; break;
            case 3: t += sfmt("f%d:\n", i); fill(d); t += sfmt("jmp f%d\n", i); if (d + 2 <= 128) { b += (char)0xEB; b += (char)-(d + 2); } else { b += (char)0xE9; W(-(d + 3)); } break;
            case 4: t += sfmt("%s f%d\n", k & 1 ? "jmp" : "call", i); b += (char)(k & 1 ? 0xE9 : 0xE8); W(d); fill(d); t += sfmt("f%d:\n", i); break;
            default: if (d > 127) d = 127 - d % 9; t += sfmt("jmp short f%d\n", i); b += (char)0xEB; b += (char)d; fill(d); t += sfmt("f%d:\n", i); break;
            }
        }
        if (okk) must = bad ? 2 : 1; break; }
    case 6: { // labels that are never defined
        s.str["what"] = "undefined"; int n = r.range(1, 8); bool local = r.chance(1, 2); int miss = (int)r.below((u64)n); bool miss2 = r.chance(2, 3); string defs;
        static const char* const use[] = { "jmp %s\n", "call %s\n", "dw %s\n", "mov bx, %s\n", "mov cx, [%s]\n", "mov word [%s], 5\n", "jz %s\n", "add dx, %s\n", "mov si, [bp+%s]\n", "push word [bx+%s]\n" };
        static const char* const enc[] = { "\xE9", "\xE8", "", "\xBB", "\x8B\x0E", "\xC7\x06", "\x74", "\x81\xC2", "\x8B\xB6", "\xFF\xB7" };
        struct F { size_t at; int kind; }; vector<F> fx; t += "main:\n";
        for (int i = 0; i < n; ++i) { int k = (int)r.below(10); string l = sfmt(local ? ".u%d" : "u%d", i); t += sfmt(use[k], l.c_str()); b += enc[k]; fx.push_back({ b.size(), k }); if (k == 6) b += (char)0; else W(0); if (k == 5) W(5); }
        for (int i = 0; i < n; ++i) { if (miss2 && i == miss) continue; t += sfmt(local ? ".u%d: cbw\n" : "u%d: cbw\n", i); int v = 0x100 + (int)b.size(); size_t at = fx[(size_t)i].at; int k = fx[(size_t)i].kind; if (k == 6) b[at] = (char)(v - 0x100 - (int)at - 1); else { if (k < 2) v -= 0x100 + (int)at + 2; b[at] = (char)v; b[at + 1] = (char)(v >> 8); } b += (char)0x98; }
        if (local && r.chance(2, 3)) { t += "next:\n"; if (miss2) t += sfmt(".u%d: cbw\n", miss); else t += ".u0: cbw\n"; b += (char)0x98; }
        must = miss2 ? 2 : 1; break; }
    case 7: { s.str["what"] = "shifts"; int n = r.range(1, 20); bool bad = false; static const char* const rg[] = { "al", "cl", "dl", "bl", "ah", "ch", "dh", "bh", "ax", "cx", "dx", "bx", "sp", "bp", "si", "di" };
        for (int i = 0; i < n; ++i) { int q = (int)r.below(16), op = (int)r.below(3), c = r.chance(1, 20) ? r.range(2, 20) : r.chance(1, 2) ? 1 : -1; t += sfmt("%s %s, ", op == 0 ? "shl" : op == 1 ? "shr" : "sar", rg[q]) + (c < 0 ? "cl" : sfmt("%d", c)) + "\n"; b += (char)(0xD0 | (q >= 8) | (c < 0 ? 2 : 0)); b += (char)(0xC0 | (op == 0 ? 4 : op == 1 ? 5 : 7) << 3 | (q & 7)); if (c > 1) bad = true; }
        must = bad ? 2 : 1; break; }
    case 8: { s.str["what"] = "redefined"; int n = r.range(2, 30), dup = r.chance(2, 3) ? r.range(0, n - 2) : -1, at = r.range(std::max(dup, 0) + 1, n - 1); for (int i = 0; i < n; ++i) { int v = (int)r.below(65536); t += sfmt("d%d: dw %d\n", dup >= 0 && i == at ? dup : i, v); W(v); } must = dup >= 0 ? 2 : 1;
        if (dup < 0 && r.chance(1, 2)) { int k = (int)r.below(4); t += k == 0 ? "d0 equ 5\n" : k == 1 ? "e equ 5\ne: cbw\n" : k == 2 ? "e equ 5\ne equ 5\n" : "dw later\nlater equ 5\ndw later\n"; must = k == 3 ? 0 : 2; if (k == 3) { W(5); W(5); } } break; }
    case 9: { // a conditional jump forward over more than one byte holds: a known finding
        static const char* const cc[] = { "jo", "jno", "jc", "jnc", "jz", "jnz", "jna", "ja", "js", "jns", "jpe", "jpo", "jl", "jnl", "jng", "jg" };
        s.str["what"] = "forward-jcc"; int k = (int)r.below(16), d = r.chance(1, 2) ? r.range(0, 127) : 127 + r.range(-3, 8); if (r.chance(1, 4)) d = r.range(128, 1000); t += sfmt("%s there\n", cc[k]); b += (char)(0x70 | k); b += (char)d; for (int i = 0; i < d; ++i) { t += sfmt("db %d\n", i & 255); b += (char)i; } t += "there: cbw\n"; b += (char)0x98; must = d > 127 ? 2 : 1; break; }
    case 10: { // operands no 8086 instruction has
        static const char* const bad[] = { "int 256", "int 0x1000", "push al", "pop bh", "shl ax, bl", "shr dx, al", "sar al, bx", "shl dx, 2", "mov [bx], 5", "inc [bx]", "dec [0x200]", "add [si], 5", "test [di], 5", "mov 5, ax", "add 5, ax", "cmp 3, [bx]", "jmp al", "jz ax", "lea ax, bx", "lea 5, [bx]", "lea ax, 5", "lea [bx], ax", "db aLabel", "mov [ax], bx", "mov dl, [bx+bp]", "mov ax, [cx]", "mov dx, [si+di]", "mov ax, [sp]", "cpu 80186", "push byte [bx]", "mov [bx], [si]", "sub [bx], [0x10]", "xchg [bx], 5", "mul 5", "not 5", "neg", "byte", "short", "mov ax bx", "mov ax, [bx", "add ax,", "equ 5", "K equ ax", "db", "dw ax", "db 'abc", "mov ax, 'abc'", "mov ax, ''", "frob ax", "aLabel", "resb ax", "mov ax, 5 5", ", ax", "[bx]", "mov ax, 1 << ", "mov ax, (5)", "mov ax, 5 * 2", "jmp short [bx]", "call al, bl", "@", "mov ax, \"x\"" };
        s.str["what"] = "operands"; int n = r.range(0, 12), at = r.chance(3, 4) ? r.range(0, n) : -1; t += "aLabel:\n"; for (int i = 0; i <= n; ++i) { if (i == at) { string q = bad[r.below(sizeof(bad) / sizeof(*bad))]; t += q + "\n"; s.str["bad"] = q; } if (i < n) { t += r.chance(1, 2) ? "cbw\n" : " CBW ; c\n"; b += (char)0x98; } } must = at >= 0 ? 2 : 1; break; }
    default: { s.str["what"] = "names"; int n = r.range(100, 480), len = r.range(4, 16); for (int i = 0; i < n; ++i) { string l = sfmt("n%d", i); while ((int)l.size() < len) l += (char)('a' + r.below(26)); t += l + ":\n"; if (r.chance(1, 3)) { t += "dw " + l + "\n"; W(0x100 + (int)b.size()); } } if (n * (len + 1) <= 2500 && n <= 200) must = 1; }
    }
    s.files["t.s"] = t; s.str["bytes"] = b; s.num["must"] = must;
}
// preprocessor: the reference has no limits
void genPpCap(Rng& r, Scenario& s) {
    string t; int must = 0, n; auto around = [&](int lim, int spread) -> int { switch (r.below(6)) { case 0: return r.range(1, lim); case 1: return lim + r.range(spread, lim * 2); default: return std::max(1, lim + r.range(-spread, spread)); } };
    switch (r.below(16)) {
    case 14: case 15: { // any number of calls of a few macros: nothing may be used up
        s.str["what"] = "calls"; n = r.chance(1, 3) ? r.range(1, 100) : r.range(100, 2500); t += "#define P(a, b) <a|b>\n#define T(x, y, z) z y x\n#define S(q) #q\n#define J(l, m) l##m\n#define O once\n#define N() none\n"; vector<int> kinds; for (int i = r.range(1, 7); i--;) kinds.push_back((int)r.below(14));
        int used = 0; size_t from = t.size();
        for (int i = 0; i < n; ++i) {
            if (t.size() - from > 900) used += 1; // argument text is kept for good (2048 bytes, also that of macro bodies)
            string v = r.chance(1, 8) ? sfmt("v%d", i % 97) : string(1, (char)('a' + i % 26)); auto A = [&] { switch (r.below(4)) { case 0: return string(); case 1: return v; case 2: return v + " + 1"; default: return string("(a, b)"); } };
            switch (used ? r.pick({ 4, 5, 8, 9, 10, 13, 14, 15, 16 }) : r.pick(kinds)) {
            case 14: t += "P(,)"; break; case 15: t += "T( , ,)"; break; case 16: t += "J(,)"; break;
            case 0: t += "P(" + A() + "," + A() + ")"; break; case 1: t += "T(" + A() + ", " + A() + ", " + A() + ")"; break; case 2: t += "S(" + v + " ,x )"; t.erase(t.size() - 4); t += ")"; break;
            case 3: t += "J(" + v + ", _t)"; break; case 4: t += "O"; break; case 5: t += "N()"; break; case 6: t += "P(O, T(1," + v + ",))"; break; case 7: t += "P(T(,,),T(1,,2))"; break;
            case 8: t += "P"; break; case 9: t += "#if O + 1 || " + sfmt("%d", i) + "\nyes\n#else\nno\n#endif\n"; t.insert(t.rfind("#if"), "\n"); break; case 10: t += "\n#ifdef P\ndef\n#endif\n"; break; case 11: t += "J(,)J(,x)J(y,)"; break; case 12: t += "T(,,N())"; break; default: t += "\"s" + v + "\" /* c */"; }
            t += i % 5 ? " " : "\n";
        }
        t += "\nend\n"; must = 1; break; }
    case 0: { s.str["what"] = "macros"; n = around(20, 6); for (int i = 0; i < n; ++i) t += sfmt("#define M%d v%d\n", i, i); for (int i = 0; i < n; ++i) t += sfmt("M%d ", i); t += "\n"; if (n <= 6) must = 1; break; }
    case 1: { s.str["what"] = "long-name"; n = around(2040, 20); t += "a " + string(n, 'w') + " b\n"; if (n <= 1000) must = 1; break; }
    case 2: { s.str["what"] = "long-string"; n = around(2040, 20); bool q = r.chance(1, 2); t += q ? "x \"" + string(n, 'w') + "\" y\n" : "x 0x" + string(n, '7') + " y\n"; if (n <= 1000) must = 1; break; }
    case 3: { s.str["what"] = "bodies"; int k = r.range(1, 8); n = around(1700, 300); for (int i = 0; i < k; ++i) { t += sfmt("#define M%d", i); int len = n / k; while (len > 0) { int l = r.range(1, 90); t += " " + string((size_t)l, 'z'); len -= l + 1; } t += "\n"; } for (int i = 0; i < k; ++i) t += sfmt("M%d ", i); t += "\n"; if (n <= 300 && k < 4) must = 1; break; }
    case 4: { s.str["what"] = "arguments"; n = around(26, 6); t += "#define F("; for (int i = 0; i < n; ++i) t += sfmt(i ? ", a%d" : "a%d", i); t += sfmt(") a%d\nF(", n - 1); for (int i = 0; i < n; ++i) t += sfmt(i ? ", %d" : "%d", i); t += ")\n"; if (n <= 4) must = 1; break; }
    case 5: { s.str["what"] = "conditions"; n = around(16, 3); for (int i = 0; i < n; ++i) t += r.chance(1, 2) ? "#if 1\n" : "#ifndef Q\n"; t += "deep\n"; for (int i = 0; i < n; ++i) t += r.chance(1, 4) ? "#else\nno\n#endif\n" : "#endif\n"; t += "end\n"; if (n <= 8) must = 1; break; }
    case 6: { s.str["what"] = "includes"; n = around(3, 2); if (n > 60) n = 60; for (int i = 0; i < n; ++i) s.files[sfmt("i%d.h", i)] = sfmt("before%d\n", i) + (i + 1 < n ? sfmt("#include \"i%d.h\"\n", i + 1) : "") + sfmt("after%d\n", i); t += "#include \"i0.h\"\nmain\n"; if (n <= 1) must = 1; break; }
    case 7: { s.str["what"] = "stringify"; n = around(250, 12); t += "#define S(x) #x\nS("; string a; while ((int)a.size() < n) a += r.pick({ "a", "bc ", "+", "1 ", "\"q\\n\" ", "'c'" }); t += a + ")\nend\n"; if (n <= 60) must = 1; break; }
    case 8: { s.str["what"] = "paste"; n = around(1000, 100); t += "#define C(x, y) x##y\nC(" + string(n / 2 + 1, 'p') + ", " + string(n - n / 2, 'q') + ")\nend\n"; if (n <= 100) must = 1; break; }
    case 9: { s.str["what"] = "body-tokens"; n = around(126, 8); t += "#define A"; for (int i = 0; i < n; ++i) t += i % 2 ? " x" : " +"; t += "\nA\nend\n"; if (n <= 40) must = 1; break; }
    case 10: { s.str["what"] = "argument-tokens"; n = around(120, 12); t += "#define F(x) x\nF("; for (int i = 0; i < n; ++i) t += i % 2 ? "x " : "+ "; t += ")\nend\n"; if (n <= 30) must = 1; break; }
    case 11: { s.str["what"] = "nesting"; n = around(10, 3); bool fn = r.chance(1, 2); if (n > 30) n = 30; for (int i = 0; i < n; ++i) t += fn ? (i + 1 < n ? sfmt("#define N%d(x) N%d(x)\n", i, i + 1) : sfmt("#define N%d(x) [x]\n", i)) : (i + 1 < n ? sfmt("#define N%d N%d\n", i, i + 1) : sfmt("#define N%d last\n", i)); t += fn ? "N0(7)\nend\n" : "N0\nend\n"; if (n <= 4) must = 1; break; }
    case 12: { s.str["what"] = "plain-names"; n = r.range(1, 3000); for (int i = 0; i < n; ++i) t += sfmt("x%d%c", i, i % 9 ? ' ' : '\n'); t += "\nend\n"; must = 1; break; }
    default: { s.str["what"] = "long-line"; n = r.range(1, 20000); t += "int v = 0"; for (int i = 0; i < n; ++i) t += i % 3 ? "+1" : " + b"; t += ";\n" + string((size_t)r.range(0, 5000), ' ') + "end\n"; must = 1; }
    }
    s.files["t.c"] = t; s.num["must"] = must;
}
Scenario genCap(Rng& r, u64) {
    Scenario s; s.num["fixed"] = 1; s.num["seed"] = (long long)(r.next() >> 1); s.kind = r.pick({ "scc", "scc", "scc", "sas", "scpp" });
    if (r.chance(1, 8)) { s.num["dos"] = 1; if (r.chance(1, 2)) s.num["irq"] = r.pick({ 5, 50, 2000 }); }
    if (r.chance(1, 2)) s.num["mode"] = r.chance(1, 2) ? -1 : r.pick({ 1, 7, 64, 100, 511, 512 });
    if (s.kind == "scc") { CG g(r, s); g.make(); } else if (s.kind == "sas") genAsmCap(r, s); else genPpCap(r, s);
    return s;
}
void execCap(const Scenario& s, Outcome& o) {
    World w; w.sc = &s; w.oc = &o; w.disk.ci = s.n("dos") != 0; w.disk.load(s.files);
    string outName = s.kind == "scpp" ? "t.i" : "t.com", in = s.kind == "sas" ? "t.s" : "t.c", text, d; bool ok, orderly; u64 steps;
    if (s.n("dos")) { PcSpec p; p.name = s.kind; p.image = toolCom(s.kind); p.tail = " " + in + " " + outName; p.seed = (u64)s.n("seed"); p.garbage = 3; p.irqEvery = (int)s.n("irq"); p.readMode = (int)s.n("mode"); p.fuel = 1000000000ull; if (p.image.empty()) { o.fail("build", s.kind + ".com cannot be built from the working tree"); return; } PcResult x = runPc(w, p); text = x.out; ok = x.ok(); d = x.describe(); orderly = x.end == E_EXIT; steps = x.steps; }
    else { HostSpec h; h.tool = s.kind; h.args = { in, outName }; h.seed = (u64)s.n("seed"); h.readMode = (int)s.n("mode"); HostResult x = w.run(h); text = x.out + x.err; ok = x.ok(); d = x.describe(); steps = x.ops.size(); orderly = x.end == E_EXIT || (x.end == E_SIGNAL && (x.detail.compare(0, 9, "assertion") == 0 || x.detail == "abort")); if (x.end != E_EXIT && orderly) text += x.detail; }
    Hash hh; hh.add(hashStr(text)); hh.add(steps); hh.add((u64)s.n("dos")); hh.add((u64)ok); for (auto& f : s.files) hh.add(f.second.size()); o.shape = hh.h; o.nontrivial = true;
    string who = s.kind + (s.n("dos") ? ".com" : ""), what = who + ", input with " + s.s("what") + " around a limit: ";
    o.st.inc("probe." + s.kind + "-" + s.s("what") + (ok ? "-accepted" : "-refused")); o.st.inc(s.n("dos") ? "probe.dos-build" : "probe.host-build");
    if (!orderly) { o.fail("overrun", what + "the run ends with " + d); return; }
    if (!ok) {
        if (text.empty()) o.fail("silent", what + "refused without a message");
        else if (s.n("must") == 1) o.fail("refused", what + "refused although it is small: " + d + " " + diffText("", text));
        return;
    }
    auto* f = w.disk.find(outName); if (!f) { o.fail("no-output", what + "success without output"); return; }
    if (s.n("must") == 2) { o.fail("accepted", what + (s.kind == "sas" ? "accepted although it must be refused" + (s.s("bad").empty() ? string() : " (" + s.s("bad") + ")") : string("accepted although it cannot fit into 64 KB"))); return; }
    if (s.kind == "sas") { if (f->data != s.s("bytes")) { size_t i = 0; while (i < f->data.size() && i < s.s("bytes").size() && f->data[i] == s.s("bytes")[i]) ++i; o.fail("bytes", what + sfmt("accepted, output of %zu bytes instead of %zu differs at %zu", f->data.size(), s.s("bytes").size(), i)); } return; }
    if (s.kind == "scpp") {
        ppref::PP p; p.files = &s.files; p.run("t.c"); if (p.invalid || p.error) { o.skipped = true; return; }
        vector<string> got = ppref::cTokens(f->data), w2; for (auto& t : p.out) { auto l = ppref::cTokens(t); w2.insert(w2.end(), l.begin(), l.end()); }
        size_t i = 0; while (i < got.size() && i < w2.size() && got[i] == w2[i]) ++i;
        if (i < got.size() || i < w2.size()) o.fail("tokens", what + sfmt("accepted, token %zu is ", i) + (i < got.size() ? got[i].substr(0, 40) : "missing") + " instead of " + (i < w2.size() ? w2[i].substr(0, 40) : "the end"));
        return;
    }
    if (!s.n("run")) return;
    World v; v.sc = &s; v.oc = &o; v.disk.ci = true; PcSpec p; p.name = "prog"; p.image = f->data; p.seed = (u64)s.n("seed"); p.garbage = (int)(s.n("seed") & 3); p.fuel = 100000000ull;
    PcResult x = runPc(v, p); if (!x.ok()) { o.fail("wrong-program", what + "accepted, the program ends with " + x.describe()); return; }
    if (x.out != s.s("expect")) o.fail("wrong-program", what + "accepted, the program does not do what its source says: " + diffText(s.s("expect"), x.out));
}
} // namespace
void registerCapChecks() {
    registerCheck({ "P30", genCap, execCap, 80000, 1200000, "seeded inputs around and beyond every table, buffer and the 64 KB segment (16 kinds for the compiler, 13 for the assembler, 15 for the preprocessor) x read sizes, host and DOS build, memory, interrupts; refused with a message, or the output is what the source says (run on the reference 8086, known bytes, reference preprocessor); distinct by message, size, operations and build", "scc.c, scpp.c, sas.c of the working tree, with array bounds trapping (host build; every 8th run the DOS build made by the host scc)", "disk, system calls; reference 8086 with DOS", "I/O operations and 8086 instructions" });
}
