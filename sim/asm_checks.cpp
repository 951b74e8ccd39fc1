// P31: assembly programs over every statement the assembler has, in random spellings and layouts. The oracle
// is an independent decoder: the bytes, decoded from the start, must be the statements that were written, with
// the labels at the addresses where the decoded statements are. Any correct encoding is accepted.
#include "progs.h"
#include "jobs.h"
#include "checks.h"
namespace {
const char* const R8[] = { "al", "cl", "dl", "bl", "ah", "ch", "dh", "bh" };
const char* const R16[] = { "ax", "cx", "dx", "bx", "sp", "bp", "si", "di" };
const char* const SR[] = { "es", "cs", "ss", "ds" };
const char* const ALU[] = { "add", "or", "adc", "sbb", "and", "sub", "xor", "cmp" };
const char* const CC[] = { "jo", "jno", "jc", "jnc", "jz", "jnz", "jna", "ja", "js", "jns", "jpe", "jpo", "jl", "jnl", "jng", "jg" };

// ---- decoder: one instruction at p, canonical text and length (0: not decodable)
struct Dec {
    const string& b; size_t p; int org; string seg;
    Dec(const string& b_, size_t p_, int o) : b(b_), p(p_), org(o) {}
    bool bad = false;
    int b8() { if (p >= b.size()) { bad = true; return 0; } return (unsigned char)b[p++]; }
    int s8() { return (signed char)b8(); }
    int b16() { int l = b8(); return l | b8() << 8; }
    string reg(int w, int r) { return w ? R16[r] : R8[r]; }
    string mem(int mod, int rm) {
        static const char* const base[] = { "bx+si", "bx+di", "bp+si", "bp+di", "si", "di", "bp", "bx" };
        string s = seg.empty() ? "" : seg + ":"; seg.clear();
        if (mod == 0 && rm == 6) return s + sfmt("[%04X]", b16());
        int d = mod == 0 ? 0 : mod == 1 ? s8() & 0xFFFF : b16();
        return s + sfmt("[%s+%04X]", base[rm], d);
    }
    string rm(int m, int w) { return m >> 6 == 3 ? reg(w, m & 7) : mem(m >> 6, m & 7); }
    string imm(int w) { return w ? sfmt("#%04X", b16()) : sfmt("#%02X", b8()); }
    string one() {
        for (;;) {
            int c = b8(); if (bad) return "?"; int w = c & 1;
            if (c < 0x40 && (c & 7) < 6) {
                string n = ALU[c >> 3];
                if ((c & 7) >= 4) return n + sfmt(" %s,", w ? "ax" : "al") + imm(w);
                int m = b8(); string x = rm(m, w), y = reg(w, m >> 3 & 7); return n + " " + (c & 2 ? y + "," + x : x + "," + y);
            }
            if ((c & 0xE7) == 0x06) return string("push ") + SR[c >> 3 & 3];
            if ((c & 0xE7) == 0x07 && c != 0x0F) return string("pop ") + SR[c >> 3 & 3];
            if ((c & 0xE7) == 0x26) { if (!seg.empty()) return "? two overrides"; seg = SR[c >> 3 & 3]; continue; }
            if (c >= 0x40 && c < 0x50) return string(c < 0x48 ? "inc " : "dec ") + R16[c & 7];
            if (c >= 0x50 && c < 0x60) return string(c < 0x58 ? "push " : "pop ") + R16[c & 7];
            if (c >= 0x70 && c < 0x80) { int d = s8(); return string(CC[c & 15]) + sfmt(" @%04X", (org + (int)p + d) & 0xFFFF); }
            if (c >= 0x80 && c < 0x84) { int m = b8(); string x = rm(m, w), sz = m >> 6 == 3 ? "" : w ? "word " : "byte "; string i = c == 0x83 ? sfmt("#%04X", s8() & 0xFFFF) : imm(w); return string(ALU[m >> 3 & 7]) + " " + sz + x + "," + i; }
            switch (c) {
            case 0x84: case 0x85: { int m = b8(); string x = rm(m, w); return "test " + x + "," + reg(w, m >> 3 & 7); }
            case 0x86: case 0x87: { int m = b8(); string x = rm(m, w), y = reg(w, m >> 3 & 7); if (m >> 6 == 3 && x == "ax") std::swap(x, y); return "xchg " + y + "," + x; }
            case 0x88: case 0x89: { int m = b8(); string x = rm(m, w); return "mov " + x + "," + reg(w, m >> 3 & 7); }
            case 0x8A: case 0x8B: { int m = b8(); string x = rm(m, w); return "mov " + reg(w, m >> 3 & 7) + "," + x; }
            case 0x8C: { int m = b8(); if (m & 0x20) return "?"; return "mov " + rm(m, 1) + "," + SR[m >> 3 & 3]; }
            case 0x8D: { int m = b8(); if (m >> 6 == 3) return "?"; string x = rm(m, 1); return string("lea ") + R16[m >> 3 & 7] + "," + x; }
            case 0x8E: { int m = b8(); if (m & 0x20) return "?"; string x = rm(m, 1); return string("mov ") + SR[m >> 3 & 3] + "," + x; }
            case 0x98: return "cbw"; case 0x99: return "cwd"; case 0xA4: return "movsb"; case 0xA6: return "cmpsb"; case 0xAA: return "stosb"; case 0xAB: return "stosw"; case 0xAC: return "lodsb";
            case 0xA0: case 0xA1: case 0xA2: case 0xA3: { string m = mem(0, 6), a = w ? "ax" : "al"; return "mov " + (c & 2 ? m + "," + a : a + "," + m); }
            case 0xA8: case 0xA9: return string("test ") + (w ? "ax," : "al,") + imm(w);
            case 0xC3: return "ret";
            case 0xC6: case 0xC7: { int m = b8(); if (m >> 3 & 7) return "?"; string x = rm(m, w), sz = m >> 6 == 3 ? "" : w ? "word " : "byte "; return "mov " + sz + x + "," + imm(w); }
            case 0xCD: return sfmt("int %02X", b8());
            case 0xD0: case 0xD1: case 0xD2: case 0xD3: { static const char* const n[] = { "rol", "ror", "rcl", "rcr", "shl", "shr", "?", "sar" }; int m = b8(); string sz = m >> 6 == 3 ? "" : w ? "word " : "byte "; return string(n[m >> 3 & 7]) + " " + sz + rm(m, w) + (c & 2 ? ",cl" : ",1"); }
            case 0xE8: { int d = b16(); return sfmt("call @%04X", (org + (int)p + d) & 0xFFFF); }
            case 0xE9: { int d = b16(); return sfmt("jmp @%04X", (org + (int)p + d) & 0xFFFF); }
            case 0xEB: { int d = s8(); return sfmt("jmp @%04X", (org + (int)p + d) & 0xFFFF); }
            case 0xF3: return "rep";
            case 0xF6: case 0xF7: { int m = b8(), k = m >> 3 & 7; static const char* const n[] = { "test", "?", "not", "neg", "mul", "imul", "div", "idiv" }; string sz = m >> 6 == 3 ? "" : w ? "word " : "byte ", x = rm(m, w); return string(n[k]) + " " + sz + x + (k ? "" : "," + imm(w)); }
            case 0xF8: return "clc"; case 0xF9: return "stc"; case 0xFA: return "cli"; case 0xFB: return "sti";
            case 0xFE: case 0xFF: { int m = b8(), k = m >> 3 & 7; string sz = m >> 6 == 3 ? "" : w ? "word " : "byte ", x = rm(m, w); if (k < 2) return string(k ? "dec " : "inc ") + sz + x; if (w && k == 2) return "call " + sz + x; if (w && k == 6) return "push " + sz + x; return "?"; }
            }
            if (c >= 0x90 && c < 0x98) return string("xchg ax,") + R16[c & 7];
            if (c >= 0xB0 && c < 0xC0) { w = c >> 3 & 1; return "mov " + reg(w, c & 7) + "," + imm(w); }
            return sfmt("? %02X", c);
        }
    }
};

// ---- generator
struct AG {
    Rng& r; string t, want; vector<std::pair<string, int>> equ; vector<string> back; std::set<string> near; vector<string> open; // labels defined / to be defined soon
    int nl = 0, sinceOpen = 0, stats = 0; bool local = false;
    AG(Rng& r_) : r(r_) {}
    string kw(string s) { int k = (int)r.below(8); if (k == 0) for (auto& c : s) c = (char)toupper(c); else if (k == 1) for (auto& c : s) if (r.chance(1, 2)) c = (char)toupper(c); return s; }
    string sp() { switch (r.below(12)) { case 0: return "  "; case 1: return "\t"; case 2: return " \t "; default: return " "; } }
    string o() { return r.chance(1, 6) ? sp() : r.chance(1, 2) ? " " : ""; }
    string num(int v) { // v as seen in 16 bits, spelled somehow
        v &= 0xFFFF;
        switch (r.below(9)) {
        case 0: return sfmt(r.chance(1, 2) ? "0x%X" : "0x%04x", v);
        case 1: return sfmt("0X%x", v);
        case 2: if (v < 256 && v >= 32 && v != '\'' && v < 127) return sfmt("'%c'", v); return sfmt("%d", v);
        case 3: { int l = v & 255, h = v >> 8; if (l >= 32 && l < 127 && h >= 32 && h < 127 && l != 39 && h != 39) return sfmt("'%c%c'", l, h); return sfmt("%d", v); }
        case 4: if (!equ.empty() && r.chance(1, 2)) { auto& e = equ[r.below((u32)equ.size())]; return e.first; } return sfmt("0%d", v).substr(v ? 0 : 1);
        default: return sfmt("%d", v);
        }
    }
    int numval(const string& s) { for (auto& e : equ) if (e.first == s) return e.second; if (s[0] == '\'') return (unsigned char)s[1] | (s[2] != '\'' ? (unsigned char)s[2] << 8 : 0); return (int)strtol(s.c_str() + (s[0] == '0' && s.size() > 1 && isdigit((unsigned char)s[1]) ? 1 : 0), nullptr, s.size() > 1 && (s[1] == 'x' || s[1] == 'X') ? 16 : 10) & 0xFFFF; }
    int anyv() { switch (r.below(6)) { case 0: return r.range(0, 9); case 1: return (int)r.below(65536); case 2: return r.pick({ 0, 1, 127, 128, 129, 255, 256, 0x7FFF, 0x8000, 0xFF80, 0xFF7F, 0xFFFF, 0xFFFE }); case 3: return r.range(0, 255); default: return r.range(0, 127); } }
    // a constant expression
    string expr(int& v) {
        auto prim = [&](int& x) { string s = num(anyv()); x = numval(s); while (r.chance(1, 10)) { int k = (int)r.below(3); s = (k == 0 ? "-" : k == 1 ? "~" : "+") + o() + s; x = (k == 0 ? -x : k == 1 ? ~x : x) & 0xFFFF; } return s; };
        string s = prim(v); if (!r.chance(1, 4)) return s;
        // levels: | lowest, then <<, then + -
        auto sum = [&](int& x) { string q = prim(x); int n = (int)r.below(3); while (n--) { int y; bool m = r.chance(1, 2); string z = prim(y); q += o() + (m ? "-" : "+") + o() + z; x = (m ? x - y : x + y) & 0xFFFF; } return q; };
        auto shf = [&](int& x) { string q = sum(x); if (r.chance(1, 3)) { int n = r.range(0, 8); q += o() + "<<" + o() + sfmt("%d", n); x = (x << n) & 0xFFFF; } return q; };
        s = shf(v); if (r.chance(1, 3)) { int y; s += o() + "|" + o() + shf(y); v |= y; }
        return s;
    }
    string label(bool jcc) { // a label to refer to: defined already or soon
        if (!jcc && !back.empty() && r.chance(1, 2)) return back[r.below((u32)back.size())];
        if (jcc && !back.empty() && r.chance(1, 3)) return back.back();
        if (!open.empty() && r.chance(2, 3)) return open[r.below((u32)open.size())];
        string l = sfmt("%s%d", r.pick({ "lab", "L", "x_", "Loop", "ax", "_", "$t" }), nl++); if (local && r.chance(1, 2)) l = "." + l; if (open.empty()) sinceOpen = 0; open.push_back(l); return l;
    }
    string reg(int w, string& c) { string n = w ? R16[r.below(8)] : R8[r.below(8)]; c = n; return kw(n); }
    string mem(string& c, bool labels = true) {
        string s = "[" + o(), seg; if (r.chance(1, 6)) { seg = SR[r.below(4)]; s += kw(seg) + o() + ":" + o(); seg += ":"; }
        static const char* const base[] = { "", "bx", "bp", "si", "di", "bx+si" }; int k = (int)r.below(6); vector<string> part; int d = 0; string lab;
        if (k == 5) { part.push_back(kw("si")); part.push_back(kw("bx")); } else if (k) part.push_back(kw(base[k]));
        if (labels && r.chance(1, 4)) { lab = label(false); part.push_back(lab); }
        int n = part.empty() ? 1 : (int)r.below(3); string num0;
        for (int i = 0; i < n; ++i) { string x = sfmt(r.chance(1, 4) ? "0x%x" : "%d", anyv()); part.push_back("#" + x); }
        if (k == 5) { size_t i = 1 + r.below((u32)(part.size() - 1)); std::swap(part[1], part[i]); if (i != 1 && part[1].empty()) {} } // [si+5+bx]
        else if (part.size() > 1 && r.chance(1, 3)) std::swap(part[0], part[1]);
        for (size_t i = 0; i < part.size(); ++i) { bool nm = part[i][0] == '#'; bool neg = nm && i && r.chance(1, 3); if (i) s += o() + (neg ? "-" : "+") + o(); if (nm) { string x = part[i].substr(1); int v = (int)strtol(x.c_str(), nullptr, 0); d += neg ? -v : v; s += x; } else s += part[i]; }
        s += o() + "]"; d &= 0xFFFF;
        string dd = lab.empty() ? sfmt("%04X", d) : "{" + lab + "+" + sfmt("%d", d) + "}";
        c = seg + "[" + (k ? string(base[k]) + "+" : "") + dd + "]"; return s;
    }
    string immOrLabel(int w, string& c) {
        if (w && r.chance(1, 5)) { string l = label(false); c = "#{" + l + "+0}"; return l; }
        int v; string s = expr(v); c = w ? sfmt("#%04X", v) : sfmt("#%02X", v & 255); return s;
    }
    void emit(const string& text, const string& canon) { t += (r.chance(1, 3) ? sp() : "") + text; if (r.chance(1, 10)) t += o() + "; " + r.pick({ "comment", "mov ax, bx", "'", "label:", ";;" }); t += r.chance(1, 20) ? "\r\n" : r.chance(1, 20) ? "\n\n" : "\n"; want += canon + "\n"; ++stats; }
    void two(const string& m, const string& a, const string& b, const string& ca, const string& cb, const string& sz = "") { emit(kw(m) + sp() + a + o() + "," + o() + b, m + " " + sz + ca + "," + cb); }
    void stmt() {
        string a, b, ca, cb; int w = (int)r.below(2);
        auto size = [&](int w_) { return kw(w_ ? "word" : "byte") + sp(); };
        switch (r.below(24)) {
        case 0: a = reg(w, ca); b = reg(w, cb); two("mov", a, b, ca, cb); return;
        case 1: a = reg(w, ca); b = immOrLabel(w, cb); two("mov", a, b, ca, cb); return;
        case 2: a = reg(w, ca); b = mem(cb); two("mov", a, b, ca, cb); return;
        case 3: a = mem(ca); b = reg(w, cb); two("mov", a, b, ca, cb); return;
        case 4: { int k = (int)r.below(4); string sr = SR[r.below(4)]; if (k == 0) { a = reg(1, ca); two("mov", a, kw(sr), ca, sr); } else if (k == 1) { b = reg(1, cb); two("mov", kw(sr), b, sr, cb); } else if (k == 2) { a = mem(ca); two("mov", a, kw(sr), ca, sr); } else { b = mem(cb); two("mov", kw(sr), b, sr, cb); } return; }
        case 5: a = size(w) + mem(ca); b = immOrLabel(w, cb); two("mov", a, b, ca, cb, w ? "word " : "byte "); return;
        case 6: { string m = ALU[r.below(8)]; a = reg(w, ca); b = reg(w, cb); two(m, a, b, ca, cb); return; }
        case 7: case 8: { string m = ALU[r.below(8)]; a = reg(w, ca); b = immOrLabel(w, cb); two(m, a, b, ca, cb); return; }
        case 9: { string m = ALU[r.below(8)]; a = reg(w, ca); b = mem(cb); two(m, a, b, ca, cb); return; }
        case 10: { string m = ALU[r.below(8)]; a = mem(ca); b = reg(w, cb); two(m, a, b, ca, cb); return; }
        case 11: { string m = ALU[r.below(8)]; a = size(w) + mem(ca); b = immOrLabel(w, cb); two(m, a, b, ca, cb, w ? "word " : "byte "); return; }
        case 12: { string m = r.pick({ "shl", "shr", "sar" }); a = reg(w, ca); bool cl = r.chance(1, 2); two(m, a, cl ? kw("cl") : "1", ca, cl ? "cl" : "1"); return; }
        case 13: { if (r.chance(1, 4)) { a = reg(1, ca); emit(kw("call") + sp() + a, "call " + ca); return; } string l = label(false), m = r.pick({ "call", "jmp" }); emit(kw(m) + sp() + l, m + " @{" + l + "+0}"); return; }
        case 14: case 15: {
            static const struct { const char* n; int c; } syn[] = { { "jb", 2 }, { "jnae", 2 }, { "jnb", 3 }, { "jae", 3 }, { "je", 4 }, { "jne", 5 }, { "jbe", 6 }, { "jnbe", 7 }, { "jnge", 12 }, { "jge", 13 }, { "jle", 14 }, { "jnle", 15 } };
            string l = label(true); near.insert(l); if (r.chance(1, 6)) { emit(kw("jmp") + sp() + kw("short") + sp() + l, "jmp @{" + l + "+0}"); return; }
            int c; string n; if (r.chance(1, 2)) { c = (int)r.below(16); n = CC[c]; } else { auto& x = syn[r.below(12)]; c = x.c; n = x.n; }
            emit(kw(n) + sp() + (r.chance(1, 5) ? kw("short") + sp() : "") + l, string(CC[c]) + " @{" + l + "+0}"); return; }
        case 16: { string m = r.pick({ "inc", "dec" }); if (r.chance(1, 2)) { a = reg(w, ca); emit(kw(m) + sp() + a, m + " " + ca); } else { a = size(w) + mem(ca); emit(kw(m) + sp() + a, m + (w ? " word " : " byte ") + ca); } return; }
        case 17: { int k = (int)r.below(5); if (k < 2) { string m = k ? "pop" : "push"; a = reg(1, ca); emit(kw(m) + sp() + a, m + " " + ca); } else if (k < 4) { string m = k == 2 ? "pop" : "push"; string sr = SR[m == "pop" ? r.pick({ 0, 2, 3 }) : (int)r.below(4)]; emit(kw(m) + sp() + kw(sr), m + " " + sr); } else { a = size(1) + mem(ca); emit(kw("push") + sp() + a, "push word " + ca); } return; }
        case 18: { if (r.chance(1, 3)) { int v = (int)r.below(256); string s = sfmt(r.chance(1, 2) ? "0x%x" : "%d", v); emit(kw("int") + sp() + s, sfmt("int %02X", v)); return; } if (r.chance(1, 2)) { a = reg(w, ca); b = immOrLabel(w, cb); two("test", a, b, ca, cb); } else { a = size(w) + mem(ca); b = immOrLabel(w, cb); two("test", a, b, ca, cb, w ? "word " : "byte "); } return; }
        case 19: { if (r.chance(1, 2)) { b = reg(1, cb); two("xchg", kw("ax"), b, "ax", cb); } else { a = reg(w, ca); b = mem(cb); two("xchg", a, b, ca, cb); } return; }
        case 20: { string m = r.pick({ "mul", "div", "imul", "idiv", "not", "neg" }); a = reg(w, ca); emit(kw(m) + sp() + a, m + " " + ca); return; }
        case 21: { a = reg(1, ca); b = mem(cb); two("lea", a, b, ca, cb); return; }
        case 22: { string m = r.pick({ "cbw", "cwd", "clc", "stc", "cli", "sti", "cmpsb", "lodsb", "movsb", "stosb", "stosw", "ret", "rep" }); if (m == "rep") { string q = r.pick({ "movsb", "stosb", "stosw", "cmpsb" }); emit(kw("rep") + (r.chance(1, 4) ? "\n" : sp()) + kw(q), "rep\n" + q); } else emit(kw(m), m); return; }
        default: data();
        }
    }
    void data() {
        bool w = r.chance(1, 2); int n = r.range(1, r.chance(1, 4) ? 12 : 3); string s = kw(w ? "dw" : "db") + sp(), c = "data";
        for (int i = 0; i < n; ++i) {
            if (i) s += o() + "," + o(); int k = (int)r.below(4);
            if (k == 0 && (!w || i == n - 1)) { int len = r.range(w ? 1 : 0, 20); string q; for (int j = 0; j < len; ++j) { char ch = (char)r.range(32, 126); if (ch == '\'') ch = '"'; q += ch; c += sfmt(" %02X", ch); } if (w && len % 2) c += " 00"; s += "'" + q + "'"; continue; }
            if (k == 1 && w) { string l = label(false); s += l; c += " {{" + l + "+0}}"; continue; }
            int v = w ? anyv() : (int)r.below(256); if (!equ.empty() && r.chance(1, 6)) { auto& e = equ[r.below((u32)equ.size())]; if (w || e.second < 256) { s += e.first; v = e.second; } else s += sfmt("%d", v); } else s += sfmt(r.chance(1, 3) ? "0x%x" : "%d", v);
            c += sfmt(" %02X", v & 255); if (w) c += sfmt(" %02X", v >> 8);
        }
        emit(s, c);
    }
    void define(const string& l) { t += l + o() + ":" + (r.chance(1, 2) ? "\n" : " "); want += "@" + l + "\n"; }
    void settle() { while (!open.empty()) { size_t i = r.below((u32)open.size()); string l = open[i]; open.erase(open.begin() + (long)i); define(l); if (l[0] == '.' || r.chance(1, 2)) { } if (l[0] != '.') { vector<string> keep; for (auto& x : back) if (x[0] != '.') keep.push_back(x); back = keep; } back.push_back(l); // local names may not outlive a global label
            if (l[0] != '.') for (auto& x : open) if (x[0] == '.') { std::swap(x, open.back()); } } }
};
Scenario genAsmProg(Rng& r, u64) {
    Scenario s; s.kind = "assemble"; s.num["fixed"] = 1; s.num["seed"] = (long long)(r.next() >> 1);
    AG g(r); int org = r.chance(1, 8) ? r.pick({ 0, 0x100, 0x7C00, 0x8000 }) : 0x100; bool hasOrg = org || r.chance(1, 2);
    if (r.chance(1, 2)) g.t += g.kw("cpu") + g.sp() + "8086\n";
    if (hasOrg) { g.t += g.kw("org") + g.sp() + sfmt(r.chance(1, 2) ? "0x%x" : "%d", org) + "\n"; }
    if (r.chance(1, 6)) g.t = padFront(r, g.t, ";");
    int ne = (int)r.below(4); for (int i = 0; i < ne; ++i) { int v; string n = sfmt("%s%d", r.pick({ "K", "size", "C_" }), i); string e = g.expr(v); g.t += n + g.sp() + g.kw("equ") + g.sp() + e + "\n"; g.equ.push_back({ n, v }); }
    int n = r.range(1, r.chance(1, 5) ? 120 : 25); g.local = r.chance(1, 2);
    if (g.local) { g.define("start"); g.back.push_back("start"); }
    for (int i = 0; i < n; ++i) {
        // labels asked for come soon: short jumps must reach them. Local labels first, a global one ends their scope.
        if (!g.open.empty() && ++g.sinceOpen > r.range(1, 6)) { std::stable_sort(g.open.begin(), g.open.end(), [](const string& a, const string& b) { return (a[0] == '.') > (b[0] == '.'); }); auto o = g.open; g.open.clear(); for (auto& l : o) { if (l[0] != '.') { vector<string> keep; for (auto& x : g.back) if (x[0] != '.') keep.push_back(x); g.back = keep; } g.define(l); g.back.push_back(l); if (r.chance(1, 4)) { auto w = g.want; g.emit(g.kw("cbw"), "cbw"); } } }
        else if (r.chance(1, 6)) { string l = sfmt("p%d", i); if (g.local && r.chance(1, 2)) l = "." + l; bool openLocal = false; for (auto& x : g.open) if (x[0] == '.') openLocal = true; if (l[0] == '.' || !openLocal) { if (l[0] != '.') { vector<string> keep; for (auto& x : g.back) if (x[0] != '.') keep.push_back(x); g.back = keep; } g.define(l); g.back.push_back(l); } }
        g.stmt();
    }
    std::stable_sort(g.open.begin(), g.open.end(), [](const string& a, const string& b) { return (a[0] == '.') > (b[0] == '.'); });
    auto o = g.open; g.open.clear(); bool res = r.chance(1, 3); if (res) for (auto& l : o) if (g.near.count(l)) res = false; int at = 0; string resWant;
    for (auto& l : o) { g.t += l + ":\n"; if (res) { resWant += sfmt("@%s +%d\n", l.c_str(), at); if (r.chance(2, 3)) { int k = r.range(0, 300); bool w = r.chance(1, 2); g.t += g.kw(w ? "resw" : "resb") + g.sp() + sfmt("%d\n", k); at += w ? 2 * k : k; } } else { g.want += "@" + l + "\n"; if (r.chance(1, 3)) { g.t += "cbw\n"; g.want += "cbw\n"; } } }
    g.want += resWant;
    if (r.chance(1, 8)) while (!g.t.empty() && g.t.back() == '\n') g.t.pop_back(); // no line end at the end
    s.files["t.asm"] = g.t; s.str["want"] = g.want; s.str["org"] = sfmt("%d", hasOrg ? org : 0);
    if (r.chance(1, 8)) { s.num["dos"] = 1; s.num["garbage"] = (int)r.below(4); if (r.chance(1, 2)) s.num["irq"] = r.pick({ 5, 50, 2000 }); }
    s.num["mode"] = r.chance(1, 3) ? 0 : r.chance(1, 2) ? -1 : r.pick({ 1, 2, 3, 7, 16, 100, 511, 512 });
    return s;
}
void execAsmProg(const Scenario& s, Outcome& o) {
    World w; w.sc = &s; w.oc = &o; w.disk.ci = s.n("dos") != 0; w.disk.load(s.files);
    string d, text; bool ok; u64 steps;
    if (s.n("dos")) { PcSpec p; p.name = "sas"; p.image = toolCom("sas"); p.tail = " t.asm"; p.seed = (u64)s.n("seed"); p.garbage = (int)s.n("garbage"); p.irqEvery = (int)s.n("irq"); p.readMode = (int)s.n("mode"); p.fuel = 500000000ull; if (p.image.empty()) { o.fail("build", "sas.com cannot be built from the working tree"); return; } PcResult x = runPc(w, p); ok = x.ok(); d = x.describe(); text = x.out; steps = x.steps; }
    else { HostSpec h; h.tool = "sas"; h.args = { "t.asm" }; h.seed = (u64)s.n("seed"); h.readMode = (int)s.n("mode"); HostResult x = w.run(h); ok = x.ok(); d = x.describe(); text = x.out; steps = x.ops.size(); }
    string who = s.n("dos") ? "sas.com" : "sas"; Hash hh; hh.add(hashStr(s.files.at("t.asm"))); hh.add(steps); o.shape = hh.h; o.nontrivial = true; o.st.inc(s.n("dos") ? "probe.dos-build" : "probe.host-build");
    if (!ok) { o.fail("refused", who + " refuses a valid source: " + d + " " + diffText("", text)); return; }
    auto* f = w.disk.find("t.com"); if (!f) { o.fail("no-output", who + ": success without output"); return; }
    const string& b = f->data; int org = atoi(s.s("org").c_str()); map<string, int> lab; struct Item { string want, got; size_t at, len; }; vector<Item> items; vector<string> lines;
    { string cur; for (char c : s.s("want")) if (c == '\n') { lines.push_back(cur); cur.clear(); } else cur += c; }
    size_t pos = 0; map<string, std::pair<string, int>> x;
    auto subst = [&](string t2, bool& missing) { // {label+n}: 16 bits, {{label+n}}: two bytes
        for (size_t i; (i = t2.find('{')) != string::npos;) { bool by = t2[i + 1] == '{'; size_t e = t2.find('}', i); string n = t2.substr(i + (by ? 2 : 1), e - i - (by ? 2 : 1)); size_t pl = n.rfind('+'); auto it = lab.find(n.substr(0, pl)); if (it == lab.end()) { missing = true; return t2; } int v = (it->second + atoi(n.c_str() + pl + 1)) & 0xFFFF; t2.replace(i, e - i + (by ? 2 : 1), by ? sfmt("%02X %02X", v & 255, v >> 8) : sfmt("%04X", v)); }
        return t2; };
    for (auto& l : lines) {
        if (l[0] == '@') { size_t sp = l.find(' '); int add = sp == string::npos ? 0 : atoi(l.c_str() + sp + 2); lab[l.substr(1, sp == string::npos ? string::npos : sp - 1)] = (org + (int)pos + add) & 0xFFFF; continue; }
        Item it; it.want = l; it.at = pos;
        if (l.compare(0, 4, "data") == 0) { size_t n = 0; for (size_t i = 4; i < l.size();) { if (l[i] == ' ') { ++i; continue; } if (l[i] == '{') { n += 2; i = l.find('}', i) + 2; } else { ++n; i += 2; } } it.got = "data"; for (size_t i = 0; i < n && pos + i < b.size(); ++i) it.got += sfmt(" %02X", (unsigned char)b[pos + i]); pos += n; o.st.inc("probe.data"); }
        else { Dec dd(b, pos, org); it.got = dd.one(); if (dd.bad) it.got = "the end of the file"; else if (!dd.seg.empty()) it.got = dd.seg + ": " + it.got; pos = dd.p; o.st.inc("probe." + l.substr(0, l.find(' '))); }
        it.len = pos - it.at; items.push_back(it);
        if (it.want.find('{') == string::npos && it.want != it.got) { o.fail("encoding", who + sfmt(": statement %zu at %04X assembles to '", items.size(), org + (int)it.at) + it.got + "' instead of '" + it.want + "'"); return; }
    }
    for (size_t i = 0; i < items.size(); ++i) { bool m = false; string q = subst(items[i].want, m); if (m) { o.skipped = true; return; } if (q != items[i].got) { o.fail("encoding", who + sfmt(": statement %zu at %04X assembles to '", i + 1, org + (int)items[i].at) + items[i].got + "' instead of '" + q + "'"); return; } }
    if (pos != b.size()) o.fail("length", who + sfmt(": the output has %zu bytes instead of %zu", b.size(), pos));
}
} // namespace
void registerAsmChecks() {
    registerCheck({ "P31", genAsmProg, execAsmProg, 120000, 2000000, "seeded assembly programs over every statement and operand form of the assembler in random spellings, labels forward and backward, expressions, data, read splits, host and DOS build; the output is decoded by an independent decoder and compared statement by statement; distinct by source and operations", "sas.c of the working tree (host build; every 8th run the DOS build made by the host scc)", "disk, system calls; reference 8086 with DOS", "I/O operations and 8086 instructions" });
}
