#include "genutil.h"
#include <memory>

// ---------------------------------------------------------------- text formatting helpers
string ws(Rng& r, int style) {
    if (style <= 0) return " ";
    switch (r.below(style > 1 ? 10 : 5)) {
    case 0: return "  ";
    case 1: return "\n";
    case 2: return "\t ";
    case 5: return " /* c" + string(r.below(9), '*') + " */ ";
    case 6: return " // line comment " + string(r.below(40), 'x') + "\n";
    case 7: return "\r\n";
    case 8: return "/* multi\n * line\n **/";
    default: return " ";
    }
}
string ows(Rng& r, int style) { return style > 1 && r.chance(1, 5) ? ws(r, style) : ""; }
string num(Rng& r, int v, int style) {
    if (v < 0) return sfmt("(-%d)", -v);
    if (style > 0) switch (r.below(6)) {
    case 0: return r.chance(1, 4) ? sfmt("0x%0*X", r.range(1, 8), v) : sfmt("0x%X", v);
    case 1: return sfmt(r.chance(1, 6) ? "0X%x" : "0x%x", v);
    case 2: return r.chance(1, 4) ? sfmt("0%0*o", r.range(1, 8), v) : sfmt("0%o", v);
    case 3: if (v >= 32 && v < 127 && v != '\'' && v != '\\') return sfmt("'%c'", v);
        if (v < 128) return r.chance(1, 2) ? sfmt(r.chance(1, 2) ? "'\\%o'" : "'\\%03o'", v) : sfmt(r.chance(1, 2) ? "'\\x%02x'" : "'\\x%X'", v);
        break;
    }
    return sfmt("%d", v);
}
string strLit(Rng& r, const string& s, int style) {
    string o = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t";
        else if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\";
        else if (c < 32 || c > 126) o += sfmt("\\x%02X", c);
        else if (style > 1 && r.chance(1, 12)) o += sfmt("\\x%02x", c);
        else if (style > 1 && r.chance(1, 16)) o += sfmt("\\%03o", c);
        else o += (char)c;
        if (style > 0 && i + 1 < s.size() && r.chance(1, style > 1 ? 14 : 40)) o += "\"" + ws(r, style) + "\"";
    }
    return o + "\"";
}

// ---------------------------------------------------------------- programs with known behaviour
namespace {
typedef int16_t I;
struct Ex; typedef std::shared_ptr<Ex> EP;
struct Ex { int op; int v = 0; EP a, b, c; };
enum { X_NUM, X_VAR, X_UVAR, X_CHR, X_ARR, X_ADD, X_SUB, X_MUL, X_DIV, X_MOD, X_AND, X_OR, X_XOR, X_SHL, X_SHR, X_LT, X_GT, X_LE, X_GE, X_EQ, X_NE,
       X_LAND, X_LOR, X_NOT, X_NEG, X_INV, X_COND, X_CALL, X_STRIDX, X_FIELD, X_PTR };
enum { NV = 6, NARR = 8, NCH = 3, NFLD = 2 };
struct St; typedef std::shared_ptr<St> SP;
struct St { int op; int v = 0, w = 0; EP e, e2; vector<SP> body, body2; string s; vector<int> cases; vector<vector<SP>> caseBodies; };
enum { S_ASSIGN, S_OPASSIGN, S_INC, S_IF, S_FOR, S_WHILE, S_DO, S_SWITCH, S_PNUM, S_PSTR, S_ARR, S_CHR, S_FIELD, S_PTR, S_ECHO, S_BLOCK, S_GOTO };

struct PG {
    Rng& r; int style; bool lib;
    vector<string> vn; // variable names
    string fn[3]; EP fbody[3];
    vector<SP> main_;
    string strs[2];
    // interpreter state
    I var[NV]{}, arr[NARR]{}, chr[NCH]{}, fld[NFLD]{}; I parA = 0, parB = 0; bool inFun = false;
    string out; long steps = 0; bool tooLong = false;
    int loopDepth = 0, loopCount = 0;
    PG(Rng& r_, int s, bool l) : r(r_), style(s), lib(l) {
        for (int i = 0; i < NV; ++i) {
            string n = r.chance(1, 3) ? sfmt("v%d", i) : sfmt("var_%s%d", string(r.below(14), (char)('a' + r.below(26))).c_str(), i);
            vn.push_back(n);
        }
        for (int i = 0; i < 3; ++i) fn[i] = sfmt("fun%d%s", i, string(r.below(6), '_').c_str());
        for (auto& s2 : strs) { int n = 8; while (n--) s2 += (char)('!' + r.below(90)); }
    }
    EP mk(int op, int v = 0, EP a = nullptr, EP b = nullptr, EP c = nullptr) { auto e = std::make_shared<Ex>(); e->op = op; e->v = v; e->a = a; e->b = b; e->c = c; return e; }
    bool isConst(const EP& e) {
        if (!e) return true;
        switch (e->op) { case X_NUM: return true; case X_VAR: case X_CHR: case X_ARR: case X_PTR: case X_FIELD: case X_STRIDX: case X_CALL: return false; }
        return isConst(e->a) && isConst(e->b) && isConst(e->c);
    }
    EP genEx(int d, bool fun) {
        EP e = genEx0(d, fun);
        if (e->op != X_NUM && isConst(e)) return mk(X_VAR, (int)r.below(fun ? 2 : NV));
        if (e->a && e->op >= X_LT && e->op != X_CALL && e->op < X_STRIDX && isConst(e->a)) e->a = mk(X_VAR, (int)r.below(fun ? 2 : NV));
        return e;
    }
    EP genEx0(int d, bool fun) {
        if (d <= 0 || r.chance(1, 5)) {
            switch (r.below(fun ? 3 : 6)) {
            case 0: case 1: return mk(X_NUM, r.pick({ 0, 1, 2, 3, 7, 10, 42, 100, 127, 128, 255, 256, 1000, 32767, (int)r.below(3000) }));
            case 3: return mk(X_FIELD, (int)r.below(NFLD));
            case 4: return mk(X_CHR, (int)r.below(NCH));
            default: return mk(X_VAR, (int)r.below(fun ? 2 : NV));
            }
        }
        switch (r.below(fun ? 14 : 19)) {
        case 0: return mk(X_ADD, 0, genEx(d - 1, fun), genEx(d - 1, fun));
        case 1: return mk(X_SUB, 0, genEx(d - 1, fun), genEx(d - 1, fun));
        case 2: return mk(X_MUL, 0, genEx(d - 1, fun), genEx(d - 1, fun));
        case 3: return mk(r.chance(1, 2) ? X_DIV : X_MOD, 0, genEx(d - 1, fun), mk(X_ADD, 0, mk(X_AND, 0, genEx(d - 2, fun), mk(X_NUM, 15)), mk(X_NUM, 1)));
        case 4: return mk(r.pick({ (int)X_AND, (int)X_OR, (int)X_XOR }), 0, genEx(d - 1, fun), genEx(d - 1, fun));
        case 5: return mk(r.chance(1, 2) ? X_SHL : X_SHR, 0, genEx(d - 1, fun), mk(X_NUM, (int)r.below(8)));
        case 6: case 7: return mk(r.pick({ (int)X_LT, (int)X_GT, (int)X_LE, (int)X_GE, (int)X_EQ, (int)X_NE }), 0, genEx(d - 1, fun), genEx(d - 1, fun));
        case 8: return mk(r.chance(1, 2) ? X_LAND : X_LOR, 0, genEx(d - 1, fun), genEx(d - 1, fun));
        case 9: return mk(X_NOT, 0, genEx(d - 1, fun));
        case 10: return mk(r.chance(1, 2) ? X_NEG : X_INV, 0, genEx(d - 1, fun));
        case 11: return mk(X_COND, 0, genEx(d - 1, fun), genEx(d - 1, fun), genEx(d - 1, fun));
        case 12: case 13: return mk(X_ADD, 0, genEx(d - 1, fun), genEx(d - 1, fun));
        case 14: return mk(X_CALL, (int)r.below(3), genEx(d - 1, fun), genEx(d - 2, fun));
        case 15: return mk(X_ARR, 0, genEx(d - 2, fun));
        case 16: return mk(X_STRIDX, (int)r.below(2), genEx(d - 2, fun));
        case 17: return mk(X_PTR, 0, genEx(d - 2, fun));
        default: return mk(X_VAR, (int)r.below(NV));
        }
    }
    string o(const char* s) { return (style > 0 ? ows(r, style) : string()) + s + (style > 0 ? ows(r, style) : string()); }
    // the compiler rejects a comparison as operand of - ~ and *= (known, reported limitation)
    string tn(const EP& e, bool fun) {
        switch (e->op) { case X_LT: case X_GT: case X_LE: case X_GE: case X_EQ: case X_NE: case X_LAND: case X_LOR: case X_NOT: return "(" + tx(e, fun) + "+0)"; }
        return tx(e, fun);
    }
    string tx(const EP& e, bool fun) {
        auto bin = [&](const char* op) { return "(" + tx(e->a, fun) + (r.chance(1, 2) ? " " : "") + o(op) + " " + tx(e->b, fun) + ")"; };
        switch (e->op) {
        case X_NUM: return num(r, e->v, style);
        case X_VAR: return fun ? (e->v ? "b" : "a") : vn[e->v];
        case X_CHR: return sfmt("c%d", e->v);
        case X_FIELD: return r.chance(1, 2) ? sfmt("rec.f%d", e->v) : sfmt("recp->f%d", e->v);
        case X_ARR: return "tab[" + tx(e->a, fun) + "&7]";
        case X_PTR: return "*(ptr+(" + tx(e->a, fun) + "&7))";
        case X_STRIDX: return sfmt("txt%d[", e->v) + tx(e->a, fun) + "&7]";
        case X_ADD: return bin("+"); case X_SUB: return bin("-"); case X_MUL: return bin("*"); case X_DIV: return bin("/ "); case X_MOD: return bin("%");
        case X_AND: return bin("&"); case X_OR: return bin("|"); case X_XOR: return bin("^"); case X_SHL: return bin("<<"); case X_SHR: return bin(">>");
        case X_LT: return bin("<"); case X_GT: return bin(">"); case X_LE: return bin("<="); case X_GE: return bin(">="); case X_EQ: return bin("=="); case X_NE: return bin("!=");
        case X_LAND: return bin("&&"); case X_LOR: return bin("||");
        case X_NOT: return "!" + tx(e->a, fun);
        case X_NEG: return "-" + o("") + "(" + tn(e->a, fun) + ")";
        case X_INV: return "~" + tn(e->a, fun);
        case X_COND: return "(" + tx(e->a, fun) + o("?") + tx(e->b, fun) + o(":") + tx(e->c, fun) + ")";
        case X_CALL: return fn[e->v] + o("(") + tx(e->a, fun) + o(",") + tx(e->b, fun) + ")";
        }
        return "0";
    }
    I ev(const EP& e) {
        if (++steps > 200000) { tooLong = true; return 0; }
        switch (e->op) {
        case X_NUM: return (I)e->v;
        case X_VAR: return inFun ? (e->v ? parB : parA) : var[e->v];
        case X_CHR: return chr[e->v];
        case X_FIELD: return fld[e->v];
        case X_ARR: case X_PTR: return arr[ev(e->a) & 7];
        case X_STRIDX: return (I)(signed char)strs[e->v][ev(e->a) & 7];
        case X_ADD: { I x = ev(e->a); return (I)(x + ev(e->b)); }
        case X_SUB: { I x = ev(e->a); return (I)(x - ev(e->b)); }
        case X_MUL: { I x = ev(e->a); return (I)(x * ev(e->b)); }
        case X_DIV: { I x = ev(e->a), y = ev(e->b); return y ? (I)(x / y) : 0; }
        case X_MOD: { I x = ev(e->a), y = ev(e->b); return y ? (I)(x % y) : 0; }
        case X_AND: { I x = ev(e->a); return x & ev(e->b); }
        case X_OR: { I x = ev(e->a); return x | ev(e->b); }
        case X_XOR: { I x = ev(e->a); return x ^ ev(e->b); }
        case X_SHL: { I x = ev(e->a); return (I)((u16)x << ev(e->b)); }
        case X_SHR: { I x = ev(e->a); return (I)(x >> ev(e->b)); }
        case X_LT: { I x = ev(e->a); return x < ev(e->b); }
        case X_GT: { I x = ev(e->a); return x > ev(e->b); }
        case X_LE: { I x = ev(e->a); return x <= ev(e->b); }
        case X_GE: { I x = ev(e->a); return x >= ev(e->b); }
        case X_EQ: { I x = ev(e->a); return x == ev(e->b); }
        case X_NE: { I x = ev(e->a); return x != ev(e->b); }
        case X_LAND: return ev(e->a) ? ev(e->b) != 0 : 0;
        case X_LOR: return ev(e->a) ? 1 : ev(e->b) != 0;
        case X_NOT: return !ev(e->a);
        case X_NEG: return (I)-ev(e->a);
        case X_INV: return (I)~ev(e->a);
        case X_COND: return ev(e->a) ? ev(e->b) : ev(e->c);
        case X_CALL: {
            I a = ev(e->a), b = ev(e->b);
            I sa = parA, sb = parB; bool sf = inFun;
            parA = a; parB = b; inFun = true;
            I v = ev(fbody[e->v]);
            parA = sa; parB = sb; inFun = sf;
            return v;
        }
        }
        return 0;
    }
    SP ms(int op) { auto s = std::make_shared<St>(); s->op = op; return s; }
    string word() {
        string s; int n = r.range(0, 18);
        while (n--) s += r.chance(1, 12) ? "\"\\'%/*#;\t"[r.below(9)] : (char)(' ' + r.below(95));
        for (auto& c : s) if (c == '%' && lib) c = '$';
        return s;
    }
    vector<SP> genBlock(int n, int depth) { vector<SP> v; while (n-- > 0) v.push_back(genSt(depth)); return v; }
    SP genSt(int depth) {
        int k = (int)r.below(depth > 0 ? 20 : 11);
        switch (k) {
        case 0: case 1: { auto s = ms(S_ASSIGN); s->v = (int)r.below(NV); s->e = genEx(2, false); return s; }
        case 2: { auto s = ms(S_OPASSIGN); s->v = (int)r.below(NV); s->w = (int)r.below(6); s->e = genEx(1, false); return s; }
        case 3: { auto s = ms(S_INC); s->v = (int)r.below(NV); s->w = (int)r.below(4); return s; }
        case 4: { auto s = ms(S_ARR); s->e = genEx(1, false); s->e2 = genEx(2, false); return s; }
        case 5: { auto s = ms(S_CHR); s->v = (int)r.below(NCH); s->e = genEx(1, false); return s; }
        case 6: { auto s = ms(S_FIELD); s->v = (int)r.below(NFLD); s->e = genEx(2, false); return s; }
        case 7: { auto s = ms(S_PTR); s->e = genEx(1, false); s->e2 = genEx(1, false); return s; }
        case 8: case 9: { auto s = ms(S_PNUM); s->e = genEx(2, false); return s; }
        case 10: { auto s = ms(S_PSTR); s->s = word(); return s; }
        case 11: case 12: case 13: { auto s = ms(S_IF); s->e = genEx(2, false); s->body = genBlock(r.range(1, 2), depth - 1); if (r.chance(1, 2)) s->body2 = genBlock(r.range(1, 2), depth - 1); return s; }
        case 14: case 15: { auto s = ms(r.pick({ (int)S_FOR, (int)S_WHILE, (int)S_DO })); s->v = r.range(1, 5); s->w = loopCount++; s->body = genBlock(r.range(1, 2), depth - 1); return s; }
        case 16: case 17: {
            auto s = ms(S_SWITCH); s->e = mk(X_AND, 0, genEx(1, false), mk(X_NUM, 7));
            int n = r.range(1, 4); std::set<int> used;
            for (int i = 0; i < n; ++i) { int c = (int)r.below(8); if (!used.insert(c).second) continue; s->cases.push_back(c); s->caseBodies.push_back(genBlock(1, 0)); }
            s->body = genBlock(r.below(2), 0); s->w = (int)r.below(2);
            return s;
        }
        default: { auto s = ms(S_BLOCK); s->body = genBlock(2, depth - 1); return s; }
        }
    }
    void pnum(I n) { for (int i = 12; i >= 0; i -= 4) out += "0123456789abcdef"[(n >> i) & 15]; out += ' '; }
    void pstr(const string& s) { for (char c : s) { if (c == '\n' && lib) out += '\r'; out += c; } }
    void run(const vector<SP>& b) { for (auto& s : b) { if (tooLong) return; run(s); } }
    void run(const SP& s) {
        if (++steps > 200000) { tooLong = true; return; }
        switch (s->op) {
        case S_ASSIGN: var[s->v] = ev(s->e); break;
        case S_OPASSIGN: {
            I e = ev(s->e); I& v = var[s->v];
            switch (s->w) { case 0: v = (I)(v + e); break; case 1: v = (I)(v - e); break; case 2: v = (I)(v & e); break; case 3: v = (I)(v | e); break; case 4: v = (I)(v ^ e); break; default: v = (I)(v * e); }
            break;
        }
        case S_INC: var[s->v] = (I)(var[s->v] + (s->w & 1 ? -1 : 1)); break;
        case S_ARR: { I i = ev(s->e) & 7; arr[i] = ev(s->e2); break; }
        case S_PTR: { I i = ev(s->e) & 7; arr[i] = ev(s->e2); break; }
        case S_CHR: chr[s->v] = (I)(signed char)ev(s->e); break;
        case S_FIELD: fld[s->v] = ev(s->e); break;
        case S_PNUM: pnum(ev(s->e)); break;
        case S_PSTR: pstr(s->s + "\n"); break;
        case S_IF: if (ev(s->e)) run(s->body); else run(s->body2); break;
        case S_FOR: case S_WHILE: case S_DO: for (int i = 0; i < s->v && !tooLong; ++i) run(s->body); break;
        case S_SWITCH: {
            I v = ev(s->e); bool hit = false;
            for (size_t i = 0; i < s->cases.size(); ++i) {
                if (!hit && s->cases[i] == v) hit = true;
                if (hit) { run(s->caseBodies[i]); if (((i + s->w) & 1)) return; }
            }
            // default is last
            run(s->body);
            break;
        }
        case S_BLOCK: run(s->body); break;
        }
    }
    string txB(const vector<SP>& b) { string t; for (auto& s : b) t += txS(s); return t; }
    string nl() { return style > 1 && r.chance(1, 6) ? ws(r, style) + "\n" : style > 0 && r.chance(1, 8) ? "  " : "\n"; }
    string txS(const SP& s) {
        static const char* ops[] = { "+=", "-=", "&=", "|=", "^=", "*=" };
        switch (s->op) {
        case S_ASSIGN: return vn[s->v] + o("=") + tx(s->e, false) + ";" + nl();
        case S_OPASSIGN: return vn[s->v] + " " + ops[s->w] + o(" ") + (s->w == 5 ? tn(s->e, false) : tx(s->e, false)) + ";" + nl();
        case S_INC: { const char* f[] = { "++%s;", "--%s;", "%s++;", "%s--;" }; return sfmt(f[s->w], vn[s->v].c_str()) + nl(); }
        case S_ARR: return "tab[" + tx(s->e, false) + "&7]" + o("=") + tx(s->e2, false) + ";" + nl();
        case S_PTR: return "ptr[" + tx(s->e, false) + "&7]" + o("=") + tx(s->e2, false) + ";" + nl();
        case S_CHR: return sfmt("c%d", s->v) + o("=") + tx(s->e, false) + ";" + nl();
        case S_FIELD: return sfmt("rec.f%d", s->v) + o("=") + tx(s->e, false) + ";" + nl();
        case S_PNUM: return "putn(" + tx(s->e, false) + ");" + nl();
        case S_PSTR: return string(lib ? "PutStr(" : "putstr(") + strLit(r, s->s + "\n", style) + ");" + nl();
        case S_IF: return "if" + o("(") + tx(s->e, false) + ")" + " {\n" + txB(s->body) + "}" + (s->body2.empty() ? nl() : " else {" + nl() + txB(s->body2) + "}\n");
        case S_FOR: return sfmt("for (i%d = 0; i%d < %d; ++i%d) {\n", s->w, s->w, s->v, s->w) + txB(s->body) + "}\n";
        case S_WHILE: return sfmt("i%d = %d; while (i%d--) {\n", s->w, s->v, s->w) + txB(s->body) + "}\n";
        case S_DO: return sfmt("i%d = 0; do {\n", s->w) + txB(s->body) + sfmt("} while (++i%d < %d);\n", s->w, s->v);
        case S_SWITCH: {
            string t = "switch (" + tx(s->e, false) + ") {\n";
            for (size_t i = 0; i < s->cases.size(); ++i) { t += sfmt("case %d:", s->cases[i]) + nl() + txB(s->caseBodies[i]); if ((i + s->w) & 1) t += "break;\n"; }
            return t + "default:\n" + txB(s->body) + "break;\n}\n";
        }
        case S_BLOCK: return "{" + nl() + txB(s->body) + "}\n";
        }
        return "";
    }
    Prog make(int size) {
        for (auto& f : fbody) f = genEx(2, true);
        main_ = genBlock(size, 2);
        // always end by printing state
        for (int i = 0; i < NV; ++i) { auto s = ms(S_PNUM); s->e = mk(X_VAR, i); main_.push_back(s); }
        { auto s = ms(S_PSTR); s->s = "end"; main_.push_back(s); }
        string t;
        if (lib) t += "#include \"lib.h\"\n";
        else {
            t += "void putchar(int ch) {\n    _emit 0x8B _emit 0x46|2<<3 _emit 0x04 // MOV DX, [BP+4]\n    _emit 0xB8 _emit 0x00 _emit 0x02\n    _emit 0xCD _emit 0x21\n}\n"
                 "void putstr(const char* s) { while (*s) putchar(*s++); }\n";
        }
        t += "void putn(int n) {\n    int i;\n    for (i = 0; i < 4; ++i) {\n        putchar(\"0123456789abcdef\"[(n>>12)&0xf]);\n        n <<= 4;\n    }\n    putchar(' ');\n}\n";
        if (!lib) t += "void main(void);\nvoid _start(void) {\n    char* bss = &_SBSS;\n    while (bss != &_EBSS) *bss++ = 0;\n    main();\n    _emit 0xB8 _emit 0x00 _emit 0x4C _emit 0xcd _emit 0x21\n}\n";
        t += "struct Rec { int f0; int f1; char pad; };\nstruct Rec rec;\nint tab[8];\n";
        t += "const char txt0[] = " + strLit(r, strs[0], style) + ";\n";
        t += "const char txt1[] = " + strLit(r, strs[1], style) + ";\n";
        for (int i = 0; i < 3; ++i) t += "int " + fn[i] + "(int a, int b) {" + nl() + "return " + tx(fbody[i], true) + ";" + nl() + "}\n";
        for (int i = 0; i < NV / 2; ++i) t += "int " + vn[i] + ";\n";
        t += lib ? "int main()\n{\n" : "void main()\n{\n";
        for (int i = NV / 2; i < NV; ++i) t += sfmt("    int %s = %d;\n", vn[i].c_str(), 0);
        t += "    char c0 = 0;\n    char c1 = 0;\n    char c2 = 0;\n    struct Rec* recp = &rec;\n    int* ptr = tab;\n";
        for (int i = 0; i < loopCount; ++i) t += sfmt("    int i%d;\n", i);
        t += txB(main_);
        if (lib) t += "return 0;\n";
        t += "}\n";
        run(main_);
        Prog p; p.src = t; p.expect = out;
        return p;
    }
};
} // namespace

Prog genProgram(Rng& r, int size, int style, bool useLib) {
    if (r.chance(2, 3)) return genProgram2(r, size, style, useLib);
    for (;;) {
        PG g(r, style, useLib);
        Prog p = g.make(size);
        if (!g.tooLong) return p;
    }
}

string padFront(Rng& r, const string& src, const char* comment) {
    int n = r.range(0, 520);
    string s;
    if (n > 0) { s = comment; while ((int)s.size() < n) s += r.chance(1, 30) ? string("\n") + comment : string(1, (char)('a' + r.below(26))); s += "\n"; }
    return s + src;
}

string genLexC(Rng& r, int size, bool inRange) {
    // token soup that always parses: declarations and expression statements over every operator
    string t;
    t += "int g0; char gc; unsigned gu; int ga[4]; struct S { int a; char b; struct S* n; } gs; struct S* gp;\n";
    t += "typedef unsigned char u8t; enum { E0, E1 = 5, E2 };\n";
    t += "int fn(int a, ...) { return a; }\n";
    auto lit = [&]() -> string {
        switch (r.below(9)) {
        case 0: return sfmt("%u", r.below(32768));
        case 1: return sfmt("0x%X", r.below(32768));
        case 2: return sfmt("0X%x", r.below(65536) & 0x7fff);
        case 3: return sfmt("0%o", r.below(4096));
        case 4: return sfmt("'%c'", "abcXYZ09 +-*\"#/;{"[r.below(17)]);
        case 5: return string("'\\") + "nrt'\"\\"[r.below(6)] + "'";
        case 6: return sfmt("'\\x%X'", r.below(128));
        case 7: return sfmt("'\\%o'", r.below(128));
        default: return sfmt("%u", r.below(10));
        }
    };
    auto id = [&]() -> string { return r.pick({ "g0", "gc", "gu", "ga[1]", "ga[g0&3]", "gs.a", "gs.b", "gp->a", "loc", "lo_ng_identifier_name_0123456789", "E1", "E2" }); };
    // inRange: constant subexpressions stay within a 16-bit int; constant folding is followed along
    bool cst = false; long val = 0;
    auto fits = [&](long v) { return v >= -32768 && v <= 32767; };
    auto litC = [&]() -> string { if (!inRange) return lit(); int k = (int)r.below(3); val = k == 0 ? (long)r.below(32768) : (long)r.below(40); cst = true; return k == 2 ? sfmt("0x%lx", val) : sfmt("%ld", val); };
    auto idC = [&](bool noConst) -> string { string s; do s = id(); while (noConst && s[0] == 'E'); cst = s[0] == 'E'; val = s == "E1" ? 5 : 6; return s; };
    std::function<string(int)> ex = [&](int d) -> string {
        string w1 = ows(r, 2), w2 = ows(r, 2);
        if (d <= 0) return r.chance(1, 2) ? litC() : idC(false);
        switch (r.below(11)) {
        case 0: case 1: {
            string a = ex(d - 1); bool c1 = cst; long v1 = val; string op = r.pick({ "+", "-", "*", "&", "|", "^" }); string b = ex(d - 1); bool c2 = cst; long v2 = val;
            cst = c1 && c2;
            if (cst) {
                long v = op == "+" ? v1 + v2 : op == "-" ? v1 - v2 : op == "*" ? v1 * v2 : op == "&" ? v1 & v2 : op == "|" ? v1 | v2 : v1 ^ v2;
                if (inRange && !fits(v)) { op = "&"; v = v1 & v2; }
                val = v;
            }
            return "(" + a + w1 + op + w2 + b + ")";
        }
        case 2: { string a = idC(inRange), op = r.pick({ "<", ">", "<=", ">=", "==", "!=" }), b = ex(d - 1), c = ex(d - 1); cst = false; return "((" + a + w1 + "+" + b + ") " + op + w2 + " (" + c + "))"; }
        case 3: { string a = idC(inRange), op = r.pick({ "&&", "||" }), b = idC(inRange), c = ex(d - 1); cst = false; return "((" + a + w1 + ") " + op + w2 + " (" + b + "-" + c + "))"; }
        case 4: return "(" + w1 + ex(d - 1) + w2 + ")";
        case 5: {
            string op = r.pick({ "!", "~", "-", "- ", "+" }), a = ex(d - 1);
            if (cst) { if (op == "!") val = !val; else if (op == "~") val = ~val; else if (op[0] == '-') { if (inRange && !fits(-val)) op = "~", val = ~val; else val = -val; } }
            return string(inRange ? "(" : "") + op + "(" + a + ")" + (inRange ? ")" : "");
        }
        case 6: {
            string a = ex(d - 1), op = r.pick({ "<<", ">>", " << ", ">> " }); int n = (int)r.below(10);
            if (cst) { bool l = op.find('<') != string::npos; if (l && inRange && !fits(val * (1l << n))) n = 0; val = l ? val * (1l << n) : val >> n; }
            return string(inRange ? "(" : "") + "(" + a + ")" + op + sfmt("%d", n) + (inRange ? ")" : "");
        }
        case 7: { string a = idC(inRange), b = ex(d - 1), c = ex(d - 1); cst = false; return "(" + a + "?" + w1 + b + ":" + w2 + c + ")"; }
        case 8: { string a = ex(d - 1), b = ex(d - 1); cst = false; return "fn(" + a + "," + w1 + b + ")"; }
        case 9: { string a = r.pick({ "int", "char", "struct S", "gs", "u8t" }); cst = true; val = 6; return "sizeof(" + a + ")"; }
        default: { string a = ex(d - 1), op = r.pick({ "/", "%" }); int n = r.range(1, 50); if (cst) val = op == "/" ? val / n : val % n; return string(inRange ? "(" : "") + "(" + a + ")" + op + sfmt("%d", n) + (inRange ? ")" : ""); }
        }
    };
    int fnNo = 0;
    while (size > 0) {
        t += ws(r, 2) + sfmt("int test%d(int p, char q)\n{ int loc; int lo_ng_identifier_name_0123456789;\nloc = p; lo_ng_identifier_name_0123456789 = q;\n", fnNo++);
        int n = r.range(2, 9);
        bool lbl = false;
        while (n-- > 0 && size-- > 0) {
            switch (r.below(13)) {
            case 0: case 1: t += "loc" + ows(r, 2) + r.pick({ "=", "+=", "-=", "*=", "&=", "|=", "^=", "<<=", ">>=" }) + ows(r, 2); t += t[t.size() - 2] == '<' || t[t.size() - 2] == '>' ? sfmt(" %u", r.below(8)) : ex(2); t += ";" + ws(r, 2); break;
            case 2: t += "loc /= " + sfmt("%u", r.range(1, 9)) + "; loc %= 7;" + ws(r, 2); break;
            case 3: t += string(r.pick({ "++loc", "--loc", "g0++", "gc--", "gp->a++" })) + ";" + ws(r, 2); break;
            case 4: t += "if (" + ex(2) + ")" + ws(r, 2) + "g0=" + ex(1) + "; else" + ws(r, 2) + "gu = " + ex(1) + ";\n"; break;
            case 5: t += "while (" + ex(1) + ") {" + r.pick({ "break;", "continue;", "g0--;" }) + "}" + ws(r, 2); break;
            case 6: t += "for (loc = " + ex(1) + "; loc < " + lit() + "; ++loc) " + ws(r, 2) + "g0 += loc;" + ws(r, 2); break;
            case 7: t += "do {" + ws(r, 2) + "gc = " + ex(1) + ";} while (" + ex(1) + ");" + ws(r, 2); break;
            case 8: {
                string s; int l = r.range(0, 30); while (l--) s += (char)(1 + r.below(255));
                t += "{ const char* st = " + strLit(r, s, 2) + "; gc = st[" + sfmt("%u", r.below(4)) + "]; }" + ws(r, 2); break;
            }
            case 9: t += "switch (" + ex(1) + ") { case " + sfmt("%u", r.below(5)) + ":" + ws(r, 2) + "loc = 1; break; case E2: loc=2;" + ws(r, 2) + "default: loc = 3; }" + ws(r, 2); break;
            case 10: if (!lbl) { lbl = true; t += "goto skip;" + ws(r, 2) + "g0 = 1;\nskip:" + ws(r, 2) + "g0 = 2;\n"; } break;
            case 11: t += "_emit 0x90 _emit " + sfmt("0x%X", r.below(256)) + " _emit 0x40|" + sfmt("%u", r.below(8)) + "<<3\n"; break;
            default: t += "{ struct S ls; struct S* lp = &ls; lp->a = " + ex(1) + "; ls.b = " + ex(1) + "; gp = lp; gs = *lp; }" + ws(r, 2); break;
            }
        }
        t += "return " + ex(2) + ";" + ws(r, 2) + "}\n";
        if (r.chance(1, 3)) t += "# 12 \"some line directive\"\n";
        if (fnNo > 12) break;
    }
    return t;
}

static size_t rndPos(Rng& r, const string& s) { return r.below((u32)s.size()); }
string breakC(Rng& r, const string& src) {
    string s = src;
    switch (r.below(7)) {
    case 0: s.insert(rndPos(r, s), r.pick({ "@", "`", "?", ")", "}", "]", "(", "{", "case", "=", "\"", "'", "/*", "\\" })); break;
    case 1: s = s.substr(0, rndPos(r, s)); break;
    case 2: { size_t p = rndPos(r, s); s.erase(p, 1 + r.below(12)); break; }
    case 3: s += "int undeclared() { return nosuchthing; }\n"; break;
    case 4: s += "int dup(int a) { return a; }\nint dup(int a) { return a; }\n"; break;
    case 5: s += string("int unterminated() { return \"abc"); break;
    default: { size_t p = rndPos(r, s); s[p] = "@;(){}=,\"'x1"[r.below(12)]; break; }
    }
    return s;
}
string breakAsm(Rng& r, const string& src) {
    string s = src;
    switch (r.below(6)) {
    case 0: s += "\tmov @, 1\n"; break;
    case 1: s += "\tfoo bar\n"; break;
    case 2: s += "\tdb 'unterminated"; break;
    case 3: s += "\tmov ax\n"; break;
    case 4: s.insert(rndPos(r, s), r.pick({ "@", "'", "[", "]]", "??" })); break;
    default: { size_t p = rndPos(r, s); s.erase(p, 1 + r.below(10)); }
    }
    return s;
}

string genAsm(Rng& r, int size) {
    string t;
    auto sp = [&]() -> string { return r.pick({ " ", "  ", "\t", " ", " " }); };
    auto numS = [&](int v) -> string {
        v &= 0xffff;
        switch (r.below(4)) { case 0: return sfmt("0x%x", v); case 1: return sfmt("0x%X", v); default: return sfmt("%d", v); }
    };
    auto r16 = [&]() -> string { return r.pick({ "ax", "cx", "dx", "bx", "bp", "si", "di", "AX", "Bx" }); };
    auto r8 = [&]() -> string { return r.pick({ "al", "cl", "dl", "bl", "ah", "ch", "dh", "bh", "AL" }); };
    vector<string> known; vector<string> pending; int lab = 0;
    auto mem = [&]() -> string {
        string m = r.pick({ "bx", "bp", "si", "di", "si+bx" });
        switch (r.below(5)) {
        case 0: return "[" + m + "]";
        case 1: return "[" + m + "+" + numS((int)r.below(300)) + "]";
        case 2: return "[" + m + "-" + sfmt("%u", r.range(1, 200)) + "]";
        case 3: return known.empty() ? "[" + numS((int)r.below(60000)) + "]" : "[" + r.pick(known) + "]";
        default: return "[" + numS(0x100 + (int)r.below(1000)) + "]";
        }
    };
    t += r.chance(1, 2) ? "\tcpu 8086\n\torg 0x100\n" : "org 256 ; start\n";
    int ne = (int)r.below(4);
    for (int i = 0; i < ne; ++i) t += sfmt("CONST%d", i) + sp() + "equ" + sp() + (r.chance(1, 2) ? numS((int)r.below(0x7fff)) : sfmt("%u|%u<<3", r.below(8), r.below(8))) + "\n";
    auto imm = [&]() -> string {
        if (ne && r.chance(1, 5)) return sfmt("CONST%u", r.below((u32)ne));
        switch (r.below(7)) {
        case 0: return sfmt("-%u", r.range(1, 128));
        case 1: return sfmt("%u+%u", r.below(100), r.below(100));
        case 2: return sfmt("'%c'", (char)('A' + r.below(26)));
        case 3: return sfmt("%u<<%u", r.below(16), r.below(8));
        case 4: return numS((int)r.below(65536));
        default: return numS((int)r.below(256));
        }
    };
    int sincePending = 0;
    for (int i = 0; i < size; ++i) {
        if (!pending.empty() && (++sincePending > 12 || r.chance(1, 6))) {
            for (auto& p : pending) { t += p + ":" + (r.chance(1, 2) ? "\n" : " "); known.push_back(p); }
            pending.clear(); sincePending = 0;
        }
        if (r.chance(1, 8)) { string l = sfmt("Lab%d%s", lab++, string(r.below(7), 'z').c_str()); t += l + ":"; known.push_back(l); if (r.chance(1, 2)) t += "\n"; }
        if (r.chance(1, 6)) t += "; comment " + string(r.below(50), '-') + " it's [x]\n";
        const char* alu = r.pick({ "add", "or", "adc", "sbb", "and", "sub", "xor", "cmp" });
        t += sp();
        switch (r.below(26)) {
        case 0: t += "mov" + sp() + r16() + ", " + imm(); break;
        case 1: t += "mov" + sp() + r8() + "," + sfmt("%u", r.below(256)); break;
        case 2: t += "mov " + r16() + "," + sp() + r16(); break;
        case 3: t += "mov " + r16() + ", " + mem(); break;
        case 4: t += "mov " + mem() + ", " + r8(); break;
        case 5: t += "mov word" + sp() + mem() + ", " + imm(); break;
        case 6: t += "mov byte " + mem() + ", " + sfmt("%u", r.below(256)); break;
        case 7: t += "mov " + string(r.pick({ "es", "ds", "ss" })) + ", " + r.pick({ "ax", "bx", "dx" }); break;
        case 8: t += string(alu) + " " + r16() + ", " + imm(); break;
        case 9: t += string(alu) + " " + r8() + ", " + r8(); break;
        case 10: t += string(alu) + " " + r16() + ", " + mem(); break;
        case 11: t += string(alu) + " word " + mem() + ", " + imm(); break;
        case 12: t += string(alu) + " " + mem() + ", " + r16(); break;
        case 13: t += string(r.pick({ "inc", "dec" })) + " " + (r.chance(1, 2) ? r16() : r8()); break;
        case 14: t += string(r.pick({ "inc", "dec" })) + " word " + mem(); break;
        case 15: t += string(r.pick({ "push", "pop" })) + " " + r.pick({ "ax", "bx", "si", "es", "ds" }); break;
        case 16: t += string(r.pick({ "shl", "shr", "sar" })) + " " + (r.chance(1, 2) ? r16() + ", 1" : r8() + ", cl"); break;
        case 17: t += string(r.pick({ "mul", "div", "imul", "idiv", "neg", "not" })) + " " + (r.chance(1, 2) ? r16() : r8()); break;
        case 18: t += r.pick({ "cbw", "cwd", "clc", "stc", "cli", "sti", "rep movsb", "rep stosb", "rep\n stosw", "lodsb", "stosb", "movsb", "cmpsb", "ret" }); break;
        case 19: t += "int " + string(r.chance(1, 2) ? "0x21" : "16"); break;
        case 20: t += "test " + (r.chance(1, 2) ? r8() + ", " + sfmt("%u", r.below(256)) : "word " + mem() + ", " + sfmt("%u", r.below(30000))); break;
        case 21: t += "lea " + string(r.pick({ "ax", "si", "di" })) + ", " + mem(); break;
        case 22: { // forward or backward jumps
            if (pending.size() < 4 && r.chance(1, 2)) {
                string l = (r.chance(1, 3) ? "." : "") + sfmt("fwd%d", lab++);
                if (l[0] == '.') l = l.substr(1);
                pending.push_back(l); sincePending = 0;
                t += string(r.pick({ "jmp", "jmp short", "jz", "jnc", "call", "je", "jbe" })) + " " + l;
            } else if (!known.empty()) t += string(r.pick({ "jmp", "call" })) + " " + r.pick(known);
            else t += "ret";
            break;
        }
        case 23: t += "db" + sp() + "'str" + string(r.below(20), '.') + "'," + numS((int)r.below(256)) + ", '" + string(1 + r.below(3), 'q') + "'" + (r.chance(1, 3) ? ",0" : ""); break;
        case 24: t += "dw " + imm() .substr(0, 0) + numS((int)r.below(65536)) + ", " + (known.empty() ? string("1") : r.pick(known)); break;
        default: t += "xchg ax, " + string(r.pick({ "bx", "cx", "si" })); break;
        }
        t += r.chance(1, 6) ? " ; tail\n" : r.chance(1, 10) ? "\r\n" : "\n";
    }
    for (auto& p : pending) t += p + ":\n";
    if (r.chance(1, 2)) t += "\tret\nbuf0: resb 10\nbuf1: resw 4\n";
    if (r.chance(1, 4)) while (!t.empty() && t.back() == '\n') t.pop_back();
    return t;
}

// ---------------------------------------------------------------- preprocessor inputs
void genPP(Rng& r, map<string, string>& files, const string& mainName, int size) {
    struct M { string name; int args; };
    vector<M> macros; int nMac = 0; int fileNo = 0;
    auto tok = [&]() -> string {
        switch (r.below(16)) {
        case 0: return sfmt("%u", r.below(1000));
        case 1: return sfmt("0x%X", r.below(65536));
        case 2: { string s; int n = r.range(0, 24); while (n--) { char c = (char)(' ' + r.below(95)); if (c == '"' || c == '\\') { s += '\\'; } s += c; } return "\"" + s + "\""; }
        case 3: return r.pick({ "'a'", "'\\n'", "'\\''", "'\\\\'", "'\"'", "'\\x41'" });
        case 4: case 5: return r.pick({ "+", "-", "*", "/", "%", "<", ">", "=", "==", "!=", "<=", ">=", "&&", "||", "&", "|", "^", "~", "!", "?", ":", ".", ";", "{", "}", "[", "]" });
        case 6: return "__LINE__";
        case 7: return r.chance(1, 3) ? "__FILE__" : "id";
        default: return r.pick({ "int", "foo", "x_1", "_under", "LongIdentifierName", "a", "bar2", "if", "return", "struct" });
        }
    };
    auto sp = [&]() -> string { return r.pick({ " ", "  ", "\t", " ", " /* c */ ", "/* a * b ** */ " }); };
    std::function<string(int)> body = [&](int n) { string s; while (n--) s += tok() + sp(); return s; };
    std::function<string(int, int)> gen = [&](int depth, int n) -> string {
        string t;
        auto nl = [&] { if (!t.empty() && t.back() != '\n') t += "\n"; }; // directives only at the start of a line
        while (n-- > 0) {
            switch (r.below(22)) {
            case 0: if (nMac < 7) { nl(); string nm = sfmt("MAC%d", nMac++); t += "#define " + nm + (r.chance(1, 6) ? "" : " " + body(r.range(1, 4))) + "\n"; macros.push_back({ nm, 0 }); } break;
            case 1: if (nMac < 7) {
                nl(); string nm = sfmt("FUN%d", nMac++);
                switch (r.below(4)) {
                case 0: t += "#define " + nm + "(a,b) ((a)+(b)*a)\n"; macros.push_back({ nm, 2 }); break;
                case 1: t += "#  define " + nm + "( p ) #p " + tok() + "\n"; macros.push_back({ nm, 1 }); break;
                case 2: t += "#define " + nm + "(p) pre_##p\n"; macros.push_back({ nm, 1 }); break;
                default: t += "#define " + nm + "(x) do { \\\n   foo(x); \\\n } while(0)\n"; macros.push_back({ nm, 1 });
                }
            } break;
            case 2: case 3: case 4: if (!macros.empty()) {
                auto& m = macros[r.below((u32)macros.size())];
                if (m.args == 0) t += m.name + sp();
                else if (m.args == 1) t += m.name + (r.chance(1, 4) ? " (" : "(") + r.pick({ "q", "42", "zz9" }) + ")" + sp();
                else t += m.name + "(" + r.pick({ "1", "u", "f(1,2)" }) + (r.chance(1, 4) ? " ,\n " : ",") + r.pick({ "2", "v w", "(3,4)" }) + ")\n";
            } break;
            case 5: {
                string c = r.pick({ "1", "0", "defined(MAC0)", "!defined MAC1", "0x10 == 16 && 1", "2 > 3 || 1 < 0", "(1?0:1)", "__LINE__ > 5", "defined(__SCC__)" });
                nl(); t += "#if " + c + "\n" + gen(depth, (int)r.below(3)) + (r.chance(1, 2) ? string("\n#e") + (r.chance(1, 3) ? "lif 1" : "lse") + "\n" + gen(depth, (int)r.below(3)) : "") + "\n#endif\n";
                break;
            }
            case 6: nl(); t += string(r.pick({ "#ifdef", "#ifndef" })) + " " + r.pick({ "MAC0", "FUN1", "NOPE", "__SCC__" }) + "\n" + gen(depth, (int)r.below(3)) + "\n#endif" + r.pick({ "\n", " // end\n", "\n" }); break;
            case 7: if (depth < 2 && fileNo < 7) {
                string nm = sfmt("inc%d.h", fileNo++);
                bool again = r.chance(1, 5) && fileNo > 1;
                if (again) { nm = sfmt("inc%u.h", r.below((u32)fileNo - 1)); --fileNo; if (!files.count(nm) || depth > 0) nm.clear(); }
                if (!nm.empty()) {
                    if (!again) { files[nm] = ""; string c = gen(depth + 1, r.range(0, 6)); if (r.chance(1, 5)) c = padFront(r, c, "//"); if (r.chance(1, 3)) while (!c.empty() && c.back() == '\n') c.pop_back(); files[nm] = c; }
                    t += "\n#include \"" + nm + "\"" + r.pick({ "\n", " \n", " // inc\n", "\r\n", "\n" });
                }
            } break;
            case 8: t += "// comment " + string(r.below(80), 'c') + " \"quote\n"; break;
            case 9: t += "/* block\n comment " + string(r.below(80), '*') + "\n end */\n"; break;
            case 10: t += "\n"; break;
            case 11: if (!macros.empty() && r.chance(1, 3)) { nl(); t += "#undef " + macros.back().name + "\n"; macros.pop_back(); } break;
            case 12: nl(); t += "#if 0\n garbage 'unterminated \" text # @ \n#else\n yes\n#endif\n"; break;
            case 13: t += "joined \\\n line" + sp(); break;
            case 14: t += r.pick({ "\n#pragma once\n", "\n#\n", "\n#line 7\n" }); break;
            default: t += body(r.range(1, 6)) + (r.chance(1, 2) ? "\n" : "");
            }
            if (!t.empty() && t.back() != '\n' && r.chance(2, 3)) t += "\n";
        }
        if (!t.empty() && t.back() != '\n') t += "\n";
        return t;
    };
    string m = gen(0, size);
    if (r.chance(1, 3)) m = padFront(r, m, "//");
    if (r.chance(1, 5)) while (!m.empty() && m.back() == '\n') m.pop_back();
    files[mainName] = m;
}

// ---------------------------------------------------------------- runnable assembly programs
Prog genRunAsm(Rng& r, int size) {
    // a 16-bit program interpreted here while its text is written
    static const char* const rn[] = { "ax", "bx", "cx", "dx", "si", "di", "bp" };
    static const char* const bn[] = { "al", "bl", "cl", "dl", "ah", "bh", "ch", "dh" };
    enum { A, B, C, D, SI_, DI_, BP_ };
    struct Fl { bool ok = false, okO = false, c = false, z = false, s = false, o = false; };
    struct St { u16 v[7]; u16 mem[8]; Fl f; std::map<u16, u8> m; };
    St S; memset(S.v, 0, sizeof S.v);
    string t, out; int lab = 0, lines = 0;
    for (auto& m : S.mem) m = (u16)(r.next() >> 9);
    u16 init[8]; memcpy(init, S.mem, sizeof S.mem);
    // memory the program sets up itself: numeric addresses, filled with a byte or copied from its data
    int BASE = 0x3000 + 16 * (int)r.below(0x200), LEN = r.chance(1, 14) ? r.range(0x4000, 0xA000) : r.range(16, 400); u8 fill = (u8)r.next();
    auto sp = [&]() -> string { return r.pick({ " ", "\t", "  ", " " }); };
    auto tab = [&]() -> string { return r.chance(1, 2) ? "\t" : "        "; };
    auto numS = [&](u16 n) -> string { switch (r.below(3)) { case 0: return sfmt("0x%X", n); case 1: return sfmt("0x%04x", n); default: return sfmt("%u", n); } };
    auto imm = [&]() -> u16 { switch (r.below(5)) { case 0: return (u16)r.below(16); case 1: return (u16)r.pick({ 0x7f, 0x80, 0x81, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0xff80, 0xff7f }); default: return (u16)(r.next() >> 9); } };
    auto memS = [&](int i) -> string { return i && r.chance(2, 3) ? sfmt("[data+%d]", 2 * i) : sfmt("[data%d]", i); };
    string eol = r.chance(1, 8) ? "\r\n" : "\n";
    auto line = [&](const string& s) { ++lines; t += tab() + s + (r.chance(1, 8) ? " ; " + string(r.below(30), 'x') : "") + eol; };
    auto pr = [&](int reg) { if (reg) { line("push ax"); line("mov ax," + sp() + rn[reg]); } line("call putn"); if (reg) line("pop ax"); for (int i = 12; i >= 0; i -= 4) out += "0123456789abcdef"[S.v[reg] >> i & 15]; out += ' '; S.f.ok = false; };
    auto getB = [&](int i) -> u8 { return (u8)(i < 4 ? S.v[i] : S.v[i - 4] >> 8); };
    auto setB = [&](int i, u8 x) { if (i < 4) S.v[i] = (u16)((S.v[i] & 0xFF00) | x); else S.v[i - 4] = (u16)((S.v[i - 4] & 0xFF) | x << 8); };
    auto mget = [&](u16 a) -> u8 { auto i = S.m.find(a); return i == S.m.end() ? fill : i->second; };
    auto flags = [&](u32 l, u32 x, u32 res, bool sub, bool logic, int w) { // w bits
        u32 M = w == 8 ? 0x80 : 0x8000, full = 2 * M - 1; S.f.ok = S.f.okO = true; res &= full;
        S.f.z = !res; S.f.s = res & M;
        (void)sub; (void)logic; (void)l; (void)x;
    };
    // ALU operation on values; sets the flags; returns the result
    auto alu = [&](int k, u32 l, u32 x, int w) -> u32 { // 0 add 1 sub 2 and 3 or 4 xor 5 adc 6 sbb 7 cmp
        u32 M = w == 8 ? 0x80 : 0x8000, full = 2 * M - 1; l &= full; x &= full; u32 c = S.f.c, res; bool cf = false, of = false;
        switch (k) {
        case 0: case 5: res = l + x + (k == 5 ? c : 0); cf = res > full; of = (~(l ^ x) & (l ^ res)) & M; break;
        case 1: case 6: case 7: res = l - x - (k == 6 ? c : 0); cf = l < (u32)x + (k == 6 ? c : 0); of = ((l ^ x) & (l ^ res)) & M; break;
        case 2: res = l & x; break; case 3: res = l | x; break; default: res = l ^ x;
        }
        flags(l, x, res, false, false, w); S.f.c = cf; S.f.o = of;
        return res & full;
    };
    static const char* const opn[] = { "add", "sub", "and", "or", "xor", "adc", "sbb", "cmp" };
    auto pickOp = [&]() -> int { int k = (int)r.below(8); if ((k == 5 || k == 6) && !S.f.ok) { line(r.chance(1, 2) ? "cmp ax, ax" : "sub ax, ax"); if (t.find("sub ax, ax", t.size() > 60 ? t.size() - 60 : 0) != string::npos) S.v[A] = (u16)alu(1, S.v[A], S.v[A], 16); else alu(7, 0, 0, 16); } return k; };
    // an address inside the set-up memory through some addressing mode; emits the register loads
    auto addr = [&](int w, u16& a, int avoid) -> string {
        a = (u16)(BASE + (int)r.below((u32)(LEN - w / 8 + 1)));
        string seg = r.chance(1, 10) ? "es:" : r.chance(1, 12) ? "cs:" : "";
        auto load = [&](int reg, u16 x) { if (S.v[reg] != x || r.chance(1, 3)) line(string("mov ") + rn[reg] + "," + sp() + numS(x)); S.v[reg] = x; };
        auto disp = [&](u16 d) -> string { if (!d) return ""; if (d >= 0x8000 && r.chance(2, 3)) return sfmt("-%u", 0x10000 - d); return "+" + numS(d); };
        auto split = [&]() -> u16 { switch (r.below(4)) { case 0: return 0; case 1: return (u16)r.below(128); case 2: return (u16)-(int)r.below(128); default: return (u16)r.next(); } };
        switch (r.below(8)) {
        case 0: case 1: return "[" + seg + numS(a) + "]";
        case 2: { int g = r.pick({ 1, 4, 5, 6 }); if (g == avoid) return "[" + seg + numS(a) + "]"; u16 d = split(); if (g == 6 && !d) d = 2; load(g, (u16)(a - d)); return "[" + seg + rn[g] + disp(d) + "]"; }
        case 3: case 4: { int b = 1, i = 4; if (b == avoid || i == avoid) return "[" + seg + numS(a) + "]"; u16 d = split(), x = r.chance(1, 2) ? (u16)r.below(64) : (u16)r.next(); load(b, (u16)(a - d - x)); load(i, x); return "[" + seg + rn[i] + "+" + rn[b] + disp(d) + "]"; }
        default: { int g = r.pick({ 1, 4, 5 }); if (g == avoid) return "[" + seg + numS(a) + "]"; load(g, a); return "[" + seg + rn[g] + "]"; }
        }
    };
    auto rdM = [&](u16 a, int w) -> u16 { return w == 8 ? mget(a) : (u16)(mget(a) | mget((u16)(a + 1)) << 8); };
    auto wrM = [&](u16 a, u16 x, int w) { S.m[a] = (u8)x; if (w == 16) S.m[(u16)(a + 1)] = (u8)(x >> 8); };
    struct Sub { string name; int kind; u16 k; }; vector<Sub> subs;
    for (int i = (int)r.below(3); i > 0; --i) subs.push_back({ sfmt("sub%d", i), (int)r.below(3), imm() });
    std::function<void(int, bool)> gen = [&](int depth, bool live) {
        St sv; string so;
        if (!live) { sv = S; so = out; }
        int a = (int)r.below(7), b = (int)r.below(7);
        switch (r.below(30)) {
        case 0: case 1: { u16 n = imm(); S.v[a] = n; line(string("mov ") + rn[a] + "," + sp() + numS(n)); break; }
        case 2: S.v[a] = S.v[b]; line(string("mov") + sp() + rn[a] + ", " + rn[b]); break;
        case 3: case 4: case 5: { // register, memory or number into a register
            int k = pickOp(); u16 x; string rhs;
            switch (r.below(3)) { case 0: x = imm(); rhs = numS(x); break; case 1: x = S.v[b]; rhs = rn[b]; break; default: { int i = (int)r.below(8); x = S.mem[i]; rhs = memS(i); } }
            u16 res = (u16)alu(k, S.v[a], x, 16); if (k != 7) S.v[a] = res;
            line(string(opn[k]) + sp() + rn[a] + ", " + rhs); break;
        }
        case 6: { int i = (int)r.below(8); S.mem[i] = S.v[a]; line("mov " + memS(i) + ", " + rn[a]); break; }
        case 7: { int i = (int)r.below(8); S.v[a] = S.mem[i]; line(string("mov ") + rn[a] + ", " + memS(i)); break; }
        case 8: { bool c = S.f.c, ok = S.f.ok; int dec = (int)r.below(2);
            if (r.chance(1, 3)) { int q = (int)r.below(8); u8 x = (u8)alu(dec, getB(q), 1, 8); setB(q, x); line(string(dec ? "dec " : "inc ") + bn[q]); }
            else { S.v[a] = (u16)alu(dec, S.v[a], 1, 16); line(string(dec ? "dec " : "inc ") + rn[a]); }
            S.f.c = c; S.f.ok = ok; break; }
        case 9: if (r.chance(1, 2)) { S.v[a] = (u16)alu(1, 0, S.v[a], 16); line(string("neg ") + rn[a]); } else { S.v[a] = (u16)~S.v[a]; line(string("not ") + rn[a]); } break;
        case 10: { int k = (int)r.below(3); u16 x = S.v[a], y;
            if (r.chance(1, 2)) { y = k == 0 ? (u16)(x << 1) : k == 1 ? x >> 1 : (u16)((int16_t)x >> 1); line(string(k == 0 ? "shl " : k == 1 ? "shr " : "sar ") + rn[a] + ", 1"); S.v[a] = y; flags(0, 0, y, 0, 0, 16); S.f.c = k == 0 ? x >> 15 : x & 1; S.f.okO = false; }
            else { if (a == C) a = D; x = S.v[a]; int n = (int)r.below(16); line(string("mov cl,") + sp() + numS((u16)n)); setB(2, (u8)n); y = k == 0 ? (u16)(x << n) : k == 1 ? x >> n : (u16)((int16_t)x >> n); line(string(k == 0 ? "shl " : k == 1 ? "shr " : "sar ") + rn[a] + ", cl"); S.v[a] = y; S.f.ok = false; }
            break; }
        case 11: { u16 x = S.v[0]; S.v[0] = S.v[b]; S.v[b] = x; line(string("xchg ax, ") + rn[b]); break; }
        case 12: { line(string("push ") + rn[a]); line(string("pop ") + rn[b]); S.v[b] = S.v[a]; break; }
        case 13: case 14: case 15: { // compare and jump over something
            if (!S.f.ok || r.chance(2, 3)) { u16 x = r.chance(1, 2) ? imm() : S.v[b]; string rhs = numS(x); if (x == S.v[b] && r.chance(1, 2)) rhs = rn[b]; line(string("cmp ") + rn[a] + ", " + rhs); alu(7, S.v[a], x, 16); S.f.okO = true; }
            const Fl f = S.f; struct J { const char* n; bool t; bool o; };
            const J js[] = { { "jz", f.z, 0 }, { "jnz", !f.z, 0 }, { "jc", f.c, 0 }, { "jnc", !f.c, 0 }, { "ja", !f.c && !f.z, 0 }, { "jna", f.c || f.z, 0 }, { "js", f.s, 0 }, { "jns", !f.s, 0 },
                             { "jl", f.s != f.o, 1 }, { "jng", f.s != f.o || f.z, 1 }, { "jg", f.s == f.o && !f.z, 1 }, { "jnl", f.s == f.o, 1 }, { "jo", f.o, 1 }, { "jno", !f.o, 1 } };
            J j = js[r.below(f.okO ? 14 : 8)]; string l = sfmt(r.chance(1, 2) ? "skip%d" : "L%d_", lab++);
            string before = t; int l0 = lines; t.clear();
            int n = r.range(1, 3); while (n-- && depth > 0) gen(depth - 1, live && !j.t);
            string body = t; t = before; int used = lines - l0;
            if (used > 18) { line(string(j.n) + " j" + l); line("jmp n" + l); t += "j" + l + ": jmp " + l + eol + "n" + l + ":" + eol; }
            else if (r.chance(1, 12)) { line(string(j.n) + " j" + l); line("jmp short n" + l); t += "j" + l + ": jmp " + l + eol + "n" + l + ":" + eol; }
            else line(string(j.n) + " " + l);
            t += body + l + ":" + (r.chance(1, 2) ? eol : string());
            break;
        }
        case 16: { // counted loop around register-only work
            if (depth <= 0) break;
            string l = sfmt("loop%d", lab++); int n = r.range(1, 6); u16 d = imm(); int c = r.pick({ 4, 5, 2 }); if (a == c) a = 0; u16 v0 = S.v[a];
            line(string("mov ") + rn[c] + ", " + sfmt("%d", n)); t += l + ":" + eol;
            line(string("add ") + rn[a] + ", " + numS(d)); if (r.chance(1, 2)) { line(string("sub ") + rn[c] + ", 1"); alu(1, 1, 1, 16); } else { line(string("dec ") + rn[c]); alu(0, (u16)(v0 + d * (n - 1)), d, 16); bool cc = S.f.c; alu(1, 1, 1, 16); S.f.c = cc; } line("jnz " + l);
            S.v[a] = (u16)(v0 + d * n); S.v[c] = 0; break;
        }
        case 17: case 18: { // bytes
            int q = (int)r.below(8), p = (int)r.below(8);
            if (r.chance(1, 3)) { u8 n = (u8)imm(); if (r.chance(1, 2)) { setB(q, n); line(string("mov ") + bn[q] + ", " + numS(n)); } else { setB(q, getB(p)); line(string("mov ") + bn[q] + ", " + bn[p]); } break; }
            int k = pickOp(); u8 x = (u8)imm(); bool reg = r.chance(1, 2); if (reg) x = getB(p);
            u8 res = (u8)alu(k, getB(q), x, 8); if (k != 7) setB(q, res);
            line(string(opn[k]) + sp() + bn[q] + ", " + (reg ? string(bn[p]) : numS(x))); break;
        }
        case 19: case 20: case 21: case 22: { // memory through an addressing mode
            int w = r.chance(1, 2) ? 8 : 16; u16 ad; int kind = (int)r.below(6); int q = (int)r.below(w == 8 ? 8 : 7); int own = w == 8 ? q & 3 : q; int k = pickOp();
            const char* nm = w == 8 ? bn[q] : rn[q];
            string m = addr(w, ad, kind == 0 || kind == 2 || kind == 3 ? -1 : own); // the register may be part of the address when its old value isn't needed
            if (kind >= 2 && kind < 4) { own = -1; }
            auto val = [&]() -> u16 { return w == 8 ? getB(q) : S.v[q]; }; auto set = [&](u16 x) { if (w == 8) setB(q, (u8)x); else S.v[q] = x; };
            switch (kind) {
            case 0: set(rdM(ad, w)); line(string("mov ") + nm + ", " + m); break;
            case 1: wrM(ad, val(), w); line("mov " + m + ", " + nm); break;
            case 2: { u16 x = imm(); wrM(ad, x, w); line(string("mov ") + (w == 8 ? "byte " : "word ") + m + ", " + numS(w == 8 ? (u8)x : x)); break; }
            case 3: { u16 x = imm(); if (w == 8) x = (u8)x; u16 res = (u16)alu(k, rdM(ad, w), x, w); if (k != 7) wrM(ad, res, w); line(string(opn[k]) + (w == 8 ? " byte " : " word ") + m + ", " + numS(x)); break; }
            case 4: { u16 res = (u16)alu(k, rdM(ad, w), val(), w); if (k != 7) wrM(ad, res, w); line(string(opn[k]) + " " + m + ", " + nm); break; }
            default: { u16 res = (u16)alu(k, val(), rdM(ad, w), w); if (k != 7) set(res); line(string(opn[k]) + " " + nm + ", " + m); }
            }
            break;
        }
        case 23: { int w = r.chance(1, 2) ? 8 : 16; u16 ad; int dec = (int)r.below(2); string m = addr(w, ad, -1); bool c = S.f.c, ok = S.f.ok; wrM(ad, (u16)alu(dec, rdM(ad, w), 1, w), w); S.f.c = c; S.f.ok = ok; line(string(dec ? "dec " : "inc ") + (w == 8 ? "byte " : "word ") + m); break; }
        case 24: { // multiply: only the low word is the same everywhere
            if (a == D) a = B; line(string(r.chance(1, 2) ? "mul " : "imul ") + rn[a]); S.v[A] = (u16)(S.v[A] * S.v[a]); S.f.ok = false; u16 n = imm(); line("mov dx, " + numS(n)); S.v[D] = n; break; }
        case 25: { // divide
            if (a == D || a == A) a = r.pick({ 1, 2, 4, 5 });
            if (S.v[a] == 0) { S.v[a] = 7; line(string("mov ") + rn[a] + ", 7"); }
            if (r.chance(1, 2)) { line("xor dx, dx"); line(string("div ") + rn[a]); u16 q = S.v[A] / S.v[a], m = S.v[A] % S.v[a]; S.v[A] = q; S.v[D] = m; }
            else { if (S.v[A] == 0x8000) { S.v[A] = 0x8001; line("mov ax, 0x8001"); } line("cwd"); line(string("idiv ") + rn[a]); int16_t x = (int16_t)S.v[A], y = (int16_t)S.v[a]; S.v[A] = (u16)(x / y); S.v[D] = (u16)(x % y); }
            S.f.ok = false; break;
        }
        case 26: if (r.chance(1, 2)) { line("cbw"); S.v[A] = (u16)(int16_t)(int8_t)S.v[A]; } else { line("cwd"); S.v[D] = S.v[A] & 0x8000 ? 0xFFFF : 0; } break;
        case 27: { u16 x = imm(); static const int ix[] = { 1, 4, 5, 6 }; int g = ix[r.below(4)]; if (r.chance(1, 2)) { line(string("lea ") + rn[a] + ", [si+bx+" + numS(x) + "]"); S.v[a] = (u16)(S.v[B] + S.v[SI_] + x); } else { line(string("lea ") + rn[a] + ", [" + rn[g] + "+" + numS(x) + "]"); S.v[a] = (u16)(S.v[g] + x); } break; }
        case 28: { // string instructions inside the set-up memory
            int n = (int)r.below((u32)std::min(LEN, 40)); u16 dst = (u16)(BASE + (int)r.below((u32)(LEN - n + 1))), src = (u16)(BASE + (int)r.below((u32)(LEN - n + 1)));
            auto load = [&](int reg, u16 x) { line(string("mov ") + rn[reg] + "," + sp() + numS(x)); S.v[reg] = x; };
            switch (r.below(5)) {
            case 0: load(C, (u16)n); load(DI_, dst); load(SI_, src); line("rep movsb"); for (int i = 0; i < n; ++i) S.m[(u16)(dst + i)] = mget((u16)(src + i)); S.v[C] = 0; S.v[DI_] = (u16)(dst + n); S.v[SI_] = (u16)(src + n); break;
            case 1: load(C, (u16)n); load(DI_, dst); line("rep stosb"); for (int i = 0; i < n; ++i) S.m[(u16)(dst + i)] = (u8)S.v[A]; S.v[C] = 0; S.v[DI_] = (u16)(dst + n); break;
            case 2: load(C, (u16)(n / 2)); load(DI_, dst); line("rep stosw"); for (int i = 0; i < n / 2; ++i) wrM((u16)(dst + 2 * i), S.v[A], 16); S.v[C] = 0; S.v[DI_] = (u16)(dst + n / 2 * 2); break;
            case 3: if (!n) break; load(SI_, src); line("lodsb"); setB(0, mget(src)); S.v[SI_] = (u16)(src + 1); break;
            default: if (n < 2) break; load(DI_, dst); if (r.chance(1, 2)) { line("stosb"); S.m[dst] = (u8)S.v[A]; S.v[DI_] = (u16)(dst + 1); } else { line("stosw"); wrM(dst, S.v[A], 16); S.v[DI_] = (u16)(dst + 2); }
            }
            break;
        }
        case 29: if (!subs.empty()) {
            auto& u = subs[r.below((u32)subs.size())];
            if (u.kind == 0) { if (r.chance(1, 3)) { line("mov bx, " + u.name); line("call bx"); u16 n = imm(); line("mov bx, " + numS(n)); S.v[B] = n; } else line("call " + u.name); S.v[A] = (u16)alu(0, S.v[A], u.k, 16); }
            else if (u.kind == 1) { line(string("push ") + rn[a]); line("call " + u.name); line(string("pop ") + rn[b]); u16 x = (u16)alu(4, S.v[a], u.k, 16); S.v[A] = x; S.v[b] = x; }
            else { line(string("push ") + rn[a]); line("call " + u.name); line(string("pop ") + rn[b]); u16 x = S.v[a]; u16 y = (int16_t)x < (int16_t)u.k ? u.k : x; alu(7, x, u.k, 16); S.v[A] = y; S.v[b] = y; S.f.ok = false; }
            break;
        } // fallthrough
        default: pr(a);
        }
        if (!live) { S = sv; out = so; }
    };
    t += tab() + "org 0x100" + eol;
    for (int i = 0; i < 7; ++i) { S.v[i] = (u16)(i * 257); }
    line("mov di, " + numS((u16)BASE)); line("mov al, " + numS(fill)); line("mov cx, " + numS((u16)LEN)); line("rep stosb");
    for (int i = 0; i < 7; ++i) line(string("mov ") + rn[i] + ", " + sfmt("%d", S.v[i]));
    for (int i = 0; i < size; ++i) gen(2, true);
    for (int i = 0; i < 7; ++i) pr(i);
    for (int i = 0; i < 8; ++i) { S.v[0] = S.mem[i]; line("mov ax, " + memS(i)); pr(0); }
    // every byte of the set-up memory
    { u16 s = 0; for (int i = 0; i < LEN; ++i) s = (u16)((s << 1) + (s >> 15) + mget((u16)(BASE + i)));
      line("mov si, " + numS((u16)BASE)); line("mov cx, " + numS((u16)LEN)); line("call sum"); line("call putn"); for (int i = 12; i >= 0; i -= 4) out += "0123456789abcdef"[s >> i & 15]; out += ' '; }
    string msg = "end of program"; for (int i = (int)r.below(8); i > 0; --i) msg += (char)('a' + r.below(26));
    line("mov si, msg"); line("call puts"); out += msg;
    line("mov ax, 0x4c00"); line("int 0x21");
    t += "putn:" + eol + "\tpush ax\n\tpush bx\n\tpush cx\n\tpush dx\n\tpush di\n\tmov bx, ax\n\tmov di, 4\npn1:\tmov dx, bx\n\tmov cl, 12\n\tshr dx, cl\n\tcmp dl, 10\n\tjc pn2\n\tadd dl, 39\npn2:\tadd dl, 48\n\tmov ah, 2\n\tint 0x21\n\tmov cl, 4\n\tshl bx, cl\n\tsub di, 1\n\tjnz pn1\n\tmov dl, ' '\n\tmov ah, 2\n\tint 0x21\n\tpop di\n\tpop dx\n\tpop cx\n\tpop bx\n\tpop ax\n\tret\n";
    t += "sum:\n\txor dx, dx\nsum1:\n\tlodsb\n\txor ah, ah\n\tmov bx, dx\n\tshl dx, 1\n\tjnc sum2\n\tinc dx\nsum2:\tadd dx, ax\n\tdec cx\n\tjnz sum1\n\tmov ax, dx\n\tret\n";
    t += "puts:\n\tlodsb\n\tand al, al\n\tjz puts2\n\tmov dl, al\n\tmov ah, 2\n\tint 0x21\n\tjmp puts\nputs2: ret\n";
    for (auto& u : subs) {
        if (u.kind == 0) t += u.name + ":\n\tadd ax, " + numS(u.k) + "\n\tret\n";
        else if (u.kind == 1) t += u.name + ":\n\tpush bp\n\tmov bp, sp\n\tmov ax, [bp+4]\n\txor ax, " + numS(u.k) + "\n\tmov [bp+4], ax\n\tpop bp\n\tret\n";
        else t += u.name + ":\n\tpush bp\n\tmov bp, sp\n\tmov ax, [bp+4]\n\tcmp ax, " + numS(u.k) + "\n\tjnl .done\n\tmov ax, " + numS(u.k) + "\n.done:\tmov [bp+4], ax\n\tpop bp\n\tret\n";
    }
    t += "msg: db '" + msg + "', 0\n";
    t += "data:\n"; for (int i = 0; i < 8; ++i) t += sfmt("data%d: dw ", i) + numS(init[i]) + "\n";
    Prog p; p.src = t; p.expect = out; return p;
}

// ---------------------------------------------------------------- C programs using the file functions of lib.h
string genFileProg(Rng& r, map<string, string>& files, int nops, vector<FileOp>* opsOut) {
    vector<string> ins, outs; vector<FileOp> ops;
    int ni = r.range(1, 3), no = r.range(1, 2);
    for (int i = 0; i < ni; ++i) { string n = sfmt("IN%d.TXT", i); int sz = r.pick({ 0, 1, r.range(2, 300), r.range(2, 2500), 512, 513 }); string d; for (int k = 0; k < sz; ++k) d += (char)(r.next() >> 20); files[n] = d; ins.push_back(n); }
    for (int i = 0; i < no; ++i) { string n = sfmt("OUT%d.BIN", i); if (r.chance(1, 2)) { string d; int sz = r.range(0, 700); for (int k = 0; k < sz; ++k) d += (char)(r.next() >> 20); files[n] = d; } outs.push_back(n); }
    struct S { int st = 0; string n; } h[4];
    for (int i = 0; i < nops; ++i) {
        FileOp o; o.slot = (int)r.below(4); S& s = h[o.slot];
        if (r.chance(1, 14)) { o.k = 'O'; o.slot = 3; o.name = "MISSING"; if (h[3].st) continue; }
        else if (s.st == 0) {
            if (r.chance(1, 2)) { o.k = 'O'; o.name = ins[r.below((u32)ins.size())]; s.st = 1; }
            else { o.k = 'C'; o.name = outs[r.below((u32)outs.size())]; bool used = false; for (auto& x : h) if (x.st && x.n == o.name) used = true; if (used) continue; s.st = 2; }
            s.n = o.name;
        } else if (r.chance(1, 5)) { o.k = 'X'; s = S(); }
        else { o.k = s.st == 1 ? 'R' : 'W'; o.n = r.pick({ 0, 1, 2, r.range(1, 40), r.range(1, 1000), 512, 511, 1000 }); o.off = (int)r.below((u32)(1025 - o.n)); }
        ops.push_back(o);
    }
    for (int i = 0; i < 4; ++i) if (h[i].st) { FileOp o; o.k = 'X'; o.slot = i; ops.push_back(o); }
    if (opsOut) *opsOut = ops;
    return "";
}
string fileProgSource(const vector<FileOp>& ops, int exitCode) {
    string t = "#include \"lib.h\"\nint h0; int h1; int h2; int h3; int r;\nchar buf[1024];\nint zeros[100];\n"
        "void putx(int v) { int i; for (i = 0; i < 4; ++i) { raw_putchar(\"0123456789abcdef\"[(v>>12)&0xf]); v <<= 4; } raw_putchar(' '); }\n"
        "int sum(void) { int s = 0; int i; for (i = 0; i < 1024; ++i) s = (s<<1) + ((s>>15)&1) + (buf[i]&0xff); return s; }\n"
        "int main(int argc, char** argv)\n{\n    int i; int nz = 0;\n    for (i = 0; i < 100; ++i) if (zeros[i]) ++nz;\n    for (i = 0; i < 1024; ++i) if (buf[i]) ++nz;\n    putx(nz + h0 + h1 + h2 + h3 + r);\n"
        "    putx(argc);\n    for (i = 1; i < argc; ++i) { const char* s = argv[i]; while (*s) raw_putchar(*s++); raw_putchar('|'); }\n    putx(argv[argc] == 0);\n"
        "    for (i = 0; i < 1024; ++i) buf[i] = i*7;\n";
    for (auto& o : ops) switch (o.k) {
    case 'O': t += sfmt("    h%d = open(\"%s\", O_RDONLY | O_BINARY); putx(h%d < 0);\n", o.slot, o.name.c_str(), o.slot); break;
    case 'C': t += sfmt("    h%d = open(\"%s\", O_CREAT | O_WRONLY | O_TRUNC | O_BINARY, 0600); putx(h%d < 0);\n", o.slot, o.name.c_str(), o.slot); break;
    case 'R': t += sfmt("    r = read(h%d, buf + %d, %d); putx(r); putx(sum());\n", o.slot, o.off, o.n); break;
    case 'W': t += sfmt("    r = write(h%d, buf + %d, %d); putx(r);\n", o.slot, o.off, o.n); break;
    case 'X': t += sfmt("    r = close(h%d); putx(r != 0);\n", o.slot); break;
    }
    return t + sfmt("    return %d;\n}\n", exitCode);
}
string fileOpsText(const vector<FileOp>& v) { string t; for (auto& o : v) t += o.k == 'O' || o.k == 'C' ? sfmt("%c %d %s\n", o.k, o.slot, o.name.c_str()) : o.k == 'X' ? sfmt("X %d\n", o.slot) : sfmt("%c %d %d %d\n", o.k, o.slot, o.off, o.n); return t; }
vector<FileOp> parseFileOps(const string& t) {
    vector<FileOp> v; size_t p = 0;
    while (p < t.size()) {
        size_t e = t.find('\n', p); if (e == string::npos) e = t.size();
        string l = t.substr(p, e - p); p = e + 1; FileOp o; char nm[64] = "";
        if (sscanf(l.c_str(), "%c %d", &o.k, &o.slot) != 2 || o.slot < 0 || o.slot > 3) continue;
        if (o.k == 'O' || o.k == 'C') { if (sscanf(l.c_str(), "%c %d %63s", &o.k, &o.slot, nm) != 3) continue; o.name = nm; bool ok = true; for (char c : o.name) if (!isalnum((u8)c) && c != '.') ok = false; if (!ok) continue; }
        else if (o.k == 'R' || o.k == 'W') { if (sscanf(l.c_str(), "%c %d %d %d", &o.k, &o.slot, &o.off, &o.n) != 4 || o.off < 0 || o.n < 0 || o.off + o.n > 1024) continue; }
        else if (o.k != 'X') continue;
        v.push_back(o);
    }
    return v;
}
