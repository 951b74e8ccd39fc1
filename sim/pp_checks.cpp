// P26: scpp against an executable reference of C preprocessing: seeded trees of directives, macros and
// text within scpp's documented limits x read sizes, host and DOS build, machine state.
#include "progs.h"
#include "jobs.h"
#include "checks.h"
#include "pp_ref.h"
namespace {
struct Mac { string name; int nparam = -1; u32 reach = 0; bool line = false; vector<int> mode; int atom = 0; int depth = 1; bool defd = false; int size = 0; }; // mode per parameter: 0 any, 1 single token (##), 2 stringized only; atom: 1 number, 2 other single token
struct PG {
    Rng& r; map<string, string>& files; ppref::PP ref; vector<Mac> macs; int params = 0, bytes = 0, live = 0, nfile = 0, conds = 0;
    vector<string> pn; // three parameter names; some can also come out of ##
    PG(Rng& g, map<string, string>& f) : r(g), files(f) { ref.files = &files; pn = r.pick(vector<vector<string>>{ { "p", "q", "r" }, { "p", "q", "pq" }, { "p", "xp", "q" }, { "xp", "_p1", "p" }, { "q", "q1", "p" }, { "pre_p", "p", "q" } }); }
    string sp() { return r.pick({ " ", " ", "  ", "\t", " /* c */ ", "/**/", " /* a, ( \" * b ** */ " }); }
    string osp() { return r.chance(1, 3) ? sp() : r.chance(1, 2) ? " " : ""; }
    string ident() { return r.pick({ "foo", "x_1", "_u", "a", "bar2", "int", "if", "define", "elif", "pq", "M", "xp", "q1" }); }
    string number() { switch (r.below(4)) { case 0: return sfmt("%u", r.below(10)); case 1: return sfmt("%u", r.below(30000)); case 2: return sfmt("0x%X", r.below(0x7fff)); default: return sfmt("0%o", 1 + r.below(500)); } }
    string str() { return r.pick({ "\"a\"", "\"(\"", "\",\"", "\"a\\\"b\"", "\"/* no */\"", "\"// no\"", "\"\"", "\"\\\\\"", "\"p q\"", "\"M0\"", "'x'", "'('", "','", "'\\''", "'\"'", "'\\\\'" }); }
    string op() { return r.pick({ "+", "-", "*", "/", "%", "<", ">", "=", "==", "!=", "<=", ">=", "&&", "||", "&", "|", "^", "~", "!", "?", ":", ".", ";", "{", "}", "[", "]", "+=", "->", "<<" }); }
    // a token that is no macro and no parenthesis
    string plain() { switch (r.below(6)) { case 0: return number(); case 1: return str(); case 2: case 3: return op(); default: return ident(); } }
    static string apart(string t) { for (size_t i = 0; (i = t.find("//*", i)) != string::npos;) t.insert(i + 1, " "); return t; } // a division, then a comment
    static string plainText(string t) { for (const char* c : { "/* c */", "/**/", "/* a, ( \" * b ** */" }) for (size_t i; (i = t.find(c)) != string::npos;) t.replace(i, strlen(c), " "); return t; }
    void cost(const string& t) { auto l = ppref::lexLine(plainText(t)); for (auto& x : l) bytes += (int)x.s.size() + 1; }
    int listSize(const string& t) { int n = 0; for (auto& k : ppref::lexLine(plainText(t))) n += 1 + k.ws; return n; }
    // text of an argument; macros only from those whose reach is disjoint from avoid
    string arg(u32 avoid, int mode, int depth, bool nl, bool noLine, u32* used) {
        if (mode == 1) { if (r.chance(1, 8)) return ""; return r.chance(1, 2) ? string(r.pick({ "foo", "x_1", "zed", "ab", "k", "p", "q", "xp" })) : sfmt("%u", r.below(100)); }
        if (r.chance(1, 14)) return "";
        string t; int n = r.pick({ 1, 1, 1, 2, 3 });
        while (n--) {
            switch (r.below(9)) {
            case 0: case 1: case 2: if (mode != 2) { string u = use(avoid, depth + 1, nl, noLine, used); if (!u.empty()) { t += u; break; } } t += plain(); break;
            case 3: t += "(" + plain() + (r.chance(1, 2) ? "," : " ") + plain() + ")"; break;
            case 4: t += "(" + arg(avoid, mode, depth + 1, false, noLine, used) + ")"; break;
            case 5: if (!nl && r.chance(1, 3)) { t += r.pick({ "k # k", "#", "j ##", "## p", "# p", "#p#" }); break; } // fallthrough: operators only in definitions
            default: t += plain();
            }
            if (n) t += nl && r.chance(1, 6) ? "\n" : r.chance(1, 3) ? sp() : " ";
        }
        return t;
    }
    // a use of a defined macro, "" if none fits
    string use(u32 avoid, int depth, bool nl, bool noLine, u32* used) {
        vector<int> c; for (size_t i = 0; i < macs.size(); ++i) if (macs[i].defd && !(macs[i].reach & avoid) && !(noLine && macs[i].line) && macs[i].depth + depth <= 5) c.push_back((int)i);
        if (c.empty()) return "";
        Mac& m = macs[(size_t)r.pick(c)];
        *used |= m.reach;
        if (m.nparam < 0) return m.name;
        if (r.chance(1, 14) && depth == 0) return m.name + " ;"; // no call
        bool n2 = nl && depth == 0 && !m.line;
        string t = m.name + (r.chance(1, 6) ? (n2 && r.chance(1, 3) ? "\n" : sp()) : "") + "(";
        if (m.nparam == 0) return t + osp() + ")";
        for (int i = 0; i < m.nparam; ++i) t += (i ? "," : "") + osp() + arg(avoid | m.reach, m.mode[(size_t)i], depth + m.depth - 1, n2, noLine || n2, used) + osp();
        t = apart(t); cost(t);
        return t + ")";
    }
    void define(string& t) {
        int redo = -1; for (size_t i = 0; i < macs.size(); ++i) if (!macs[i].defd && r.chance(1, 2)) redo = (int)i;
        if (redo < 0 && macs.size() >= 11) return;
        if (bytes > 1000 || live > 56) return;
        Mac m; size_t idx = redo >= 0 ? (size_t)redo : macs.size(); m.name = sfmt("M%zu", idx);
        // everything defined may be mentioned in a body; a mention of the macro itself ends the expansion
        bool func = r.chance(3, 5) && params < 24; string ps, body; u32 self = 1u << idx; m.reach = self; m.depth = 1;
        // names referring to this macro (redefinition) must not be mentioned: that would be recursion
        auto mention = [&](bool noFunc) -> int { vector<int> c; for (size_t i = 0; i < macs.size(); ++i) if (i != idx && macs[i].defd && !(macs[i].reach & self) && !(noFunc && macs[i].nparam >= 0) && macs[i].depth <= 2) c.push_back((int)i); return c.empty() ? -1 : r.pick(c); };
        auto also = [&](const Mac& o, int extra) { m.reach |= o.reach; m.line |= o.line; m.depth = std::max(m.depth, o.depth + 1 + extra); };
        if (func) {
            m.nparam = r.pick({ 0, 1, 1, 2, 2, 3 }); m.mode.assign((size_t)m.nparam, 0); params += m.nparam;
            for (int k = 2; k > 0; --k) std::swap(pn[(size_t)k], pn[r.below((u32)k + 1)]);
            for (int i = 0; i < m.nparam; ++i) ps += (i ? "," : "") + osp() + pn[(size_t)i] + osp();
            if (m.nparam == 0 && r.chance(1, 3)) ps = " ";
            for (int i = 0; i < m.nparam; ++i) m.mode[(size_t)i] = r.pick({ 0, 0, 0, 1, 2 });
            int n = r.range(1, 5);
            while (n--) {
                int i = m.nparam ? (int)r.below((u32)m.nparam) : -1; string p = i >= 0 ? pn[(size_t)i] : "0"; int md = i >= 0 ? m.mode[(size_t)i] : 0;
                if (i < 0 || r.chance(1, 4)) { int k = r.chance(1, 3) ? mention(true) : -1; if (k >= 0) { string nm = macs[(size_t)k].name; if (r.chance(1, 4)) nm.insert(1, r.pick({ "##", " ## " })); body += nm; also(macs[(size_t)k], 0); } else body += r.chance(1, 12) ? (m.line = true, string("__LINE__")) : plain(); }
                else if (md == 1 && !r.chance(1, 5)) body += r.pick({ 0, 1, 2 }) == 0 ? p + osp() + "##" + osp() + sfmt("%u", r.below(10)) : r.chance(1, 2) ? string("pre_") + osp() + "##" + osp() + p : (r.chance(1, 2) ? string("_ ## ") + p + " ## 1" : string("x##") + p);
                else if (md == 2 && !r.chance(1, 6)) body += "#" + osp() + p;
                else if (r.chance(1, 3)) body += "(" + p + ")";
                else if (r.chance(1, 4)) { // hand the parameter on
                    int k = mention(false);
                    if (k >= 0 && macs[(size_t)k].nparam > 0) { Mac& o = macs[(size_t)k]; bool ok = o.mode[0] != 1 || md == 1; // scpp pastes what is handed on without expanding it: a known finding
                        if (ok) { body += o.name + "("; for (int a = 0; a < o.nparam; ++a) body += (a ? "," : "") + string(a == 0 ? (o.mode[0] == 1 ? p : md == 2 ? (r.chance(1, 2) ? p : "#" + p) : r.pick({ 0, 0, 0, 1, 2, 3 }) == 0 ? p : md == 1 ? (r.chance(1, 2) ? "x##" + p : "(" + p + "##1)") : r.chance(1, 2) ? "(" + p + ")" : "#" + p + " " + p) : o.mode[(size_t)a] == 1 ? number() : r.chance(1, 2) ? p : number()); body += ")"; also(o, 1); } else body += p; } else body += p;
                }
                else body += p;
                if (n) body += r.chance(1, 2) ? " " : r.chance(1, 3) ? sp() : r.chance(1, 6) ? " \\\n " : "";
                if (n && !body.empty() && (isalnum((unsigned char)body.back()) || body.back() == '_')) body += " "; // tokens stay apart in the definition
            }
            // two params pasted together
            if (m.nparam >= 2 && m.mode[0] == 1 && m.mode[1] == 1 && r.chance(2, 3)) body += " " + pn[0] + "##" + pn[1];
        } else {
            int n = r.pick({ 0, 1, 1, 1, 2, 3 }); if (n == 1 && r.chance(1, 2)) { body = number(); m.atom = 1; n = 0; }
            while (n-- > 0) {
                int k = r.chance(1, 3) ? mention(false) : -1;
                if (k >= 0) { Mac& o = macs[(size_t)k]; also(o, 0); body += o.name; if (o.nparam >= 0 && r.chance(4, 5)) { body += "("; for (int a = 0; a < o.nparam; ++a) body += (a ? "," : "") + string(o.mode[(size_t)a] == 1 ? string("k") : plain()); body += ")"; } else if (o.nparam >= 0) body += " ;"; }
                else if (r.chance(1, 12)) body += m.name;
                else if (r.chance(1, 10)) body += "#";
                else if (r.chance(1, 12)) { body += "__LINE__"; m.line = true; }
                else body += plain();
                if (n) body += r.chance(1, 2) ? " " : r.chance(1, 6) ? " \\\r\n " : sp();
            }
        }
        if (m.depth > 3) return;
        string line = "#" + osp() + "define" + string(r.chance(1, 4) ? sp() : " ") + m.name + (func ? "(" + ps + ")" : "") + " " + body;
        line = apart(line); body = apart(body); m.size = listSize(body); if (live + m.size > 56) return; // the token list is limited
        cost(line); live += m.size;
        t += line + (r.chance(1, 6) ? " // c" : r.chance(1, 8) ? " /* c */" : "") + "\n";
        // as the reference sees it
        string plainLine; { map<string, string> f; f["d"] = line + "\n"; ppref::PP x; x.files = &f; x.run("d"); for (auto& k : x.macros) ref.macros[k.first] = k.second; }
        m.defd = true; if (redo >= 0) macs[idx] = m; else macs.push_back(m);
    }
    string condNum() {
        vector<int> c; for (size_t i = 0; i < macs.size(); ++i) if (macs[i].defd && macs[i].atom == 1) c.push_back((int)i);
        if (!c.empty() && r.chance(1, 3)) return macs[(size_t)r.pick(c)].name;
        switch (r.below(6)) { case 0: return "NOPE"; case 1: { string n = r.chance(1, 3) ? string("NOPE") : r.chance(1, 6) ? string("__SCC__") : sfmt("M%u", r.below(11)); return r.chance(1, 2) ? "defined " + n : "defined(" + osp() + n + osp() + ")"; } case 2: return sfmt("0x%x", r.below(40)); default: return sfmt("%u", r.below(r.chance(1, 3) ? 2000 : 6)); }
    }
    // divides by zero if it is evaluated; only for operands that are not
    string dead(int d) {
        switch (d <= 0 ? r.below(2) : r.below(6)) {
        case 0: return condNum() + " / 0";
        case 1: return condNum() + "%0";
        case 2: return "(" + condNum() + " ? " + dead(d - 1) + " : " + dead(d - 1) + ")";
        case 3: return condNum() + " ? " + condNum() + " : " + dead(d - 1);
        case 4: return condNum() + r.pick({ " + ", " && ", " || ", " * ", " < " }) + "(" + dead(d - 1) + ")";
        default: return condNum() + " ? " + dead(d - 1) + " : " + condNum();
        }
    }
    string condExpr(int d) {
        if (d > 0 && r.chance(1, 8)) switch (r.below(4)) {
        case 0: return "(0 && (" + dead(d - 1) + "))";
        case 1: return "(1 || (" + dead(d - 1) + "))";
        case 2: return "(1 ? " + condExpr(d - 1) + " : " + dead(d - 1) + ")";
        default: return "(0 ? " + dead(d - 1) + " : " + condExpr(d - 1) + ")";
        }
        if (d <= 0 || r.chance(1, 6)) return condNum();
        string s1 = r.chance(1, 3) ? "" : " ", s2 = r.chance(1, 3) ? "" : " ";
        switch (r.below(8)) {
        case 0: return "!" + osp() + condExpr(d - 1);
        case 1: return "(" + osp() + condExpr(d - 1) + osp() + ")";
        case 2: return "(" + condExpr(d - 1) + " ? " + condExpr(d - 1) + " : " + condExpr(d - 1) + ")";
        case 3: if (r.chance(1, 2)) return condExpr(d - 1) + s1 + "?" + s2 + condExpr(d - 1) + s2 + ":" + s1 + condExpr(d - 1);
        default: return condExpr(d - 1) + s1 + r.pick({ "+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||" }) + s2 + condExpr(d - 1);
        }
    }
    string cond(bool* v) {
        for (int k = 0; k < 30; ++k) { string e = apart(condExpr(r.range(0, 3))); long x; ppref::PP p = ref; auto l = ppref::lexLine(e); string noc; // comments are blanks
            { size_t i = 0; while (i < e.size()) { if (!e.compare(i, 2, "/*")) { size_t q = e.find("*/", i + 2); noc += ' '; i = q == string::npos ? e.size() : q + 2; } else noc += e[i++]; } l = ppref::lexLine(noc); }
            if (p.evalIf(l, &x) && l.size() < 24) { *v = x != 0; return e; } }
        *v = true; return "1";
    }
    string textLine() {
        string t; int n = r.range(1, 6); if (r.chance(1, 4)) t += sp();
        bool nl = r.chance(1, 4), splice = !nl && r.chance(1, 6); u32 used = 0; // no line numbers on lines that go on
        while (n-- > 0) {
            bool mac = false;
            switch (r.below(6)) {
            case 0: t += r.chance(1, 5) || nl || splice ? string("__FILE__") : string("__LINE__"); break;
            case 1: case 2: if (bytes < 1350) { string u; for (int k = 0; k < 4; ++k) { u = use(0, 0, nl, nl || splice, &used); if (listSize(u) <= 24) break; u.clear(); } if (!u.empty()) { t += u; mac = true; break; } } // fallthrough
            default: t += plain();
            }
            if (n <= 0) break;
            if (mac && r.chance(1, 3)) { t += r.pick({ "+", "-", ">", "=", "&", "|", "<", ".", "!", "*", "%", "^", "->", "++", "<<", ">=", "." }); bytes += 2; if (r.chance(1, 2)) { --n; u32 was = used; string u = bytes < 1350 ? use(0, 0, nl, nl || splice, &used) : string(); if (listSize(u) <= 24) t += u; else used = was; if (!n) break; } }
            if (r.chance(1, 3) && !t.empty() && t.back() != '\n' && !isalnum((unsigned char)t.back()) && t.back() != '_' && t.back() != '/') continue; // directly adjacent
            t += splice && r.chance(1, 3) ? " \\\n" : r.chance(1, 3) ? sp() : " ";
        }
        bytes += 8;
        t = apart(t);
        return t + (r.chance(1, 8) ? " // it's a comment\n" : "\n");
    }
    string garbage() { string t; int n = r.range(0, 3); while (n--) t += r.pick({ "don't expand M0( M1 ) here\n", "#error not here\n", "#unknown directive\n", "#if 1/0\n#else\n#endif\n", "M0(1,2,3 M1(\n", "\" unterminated\n", "#define M0 wrong\n", "#undef M0\n", "#include \"missing.h\"\n", "/* #endif */ x\n", "// #endif\n", "# if 0\n# elif 1\n not this\n# endif\n", "#ifdef M0\n#endif\n", "#ifndef NOPE\nno\n#else\n#endif\n", "a # b ## c\n" }); return t; }
    string block(int depth, int n) {
        string t;
        while (n-- > 0) {
            switch (r.below(16)) {
            case 0: case 1: case 2: case 3: define(t); break;
            case 4: { vector<int> c; for (size_t i = 0; i < macs.size(); ++i) if (macs[i].defd) c.push_back((int)i); if (c.empty() || r.chance(1, 2)) { if (r.chance(1, 3)) t += "#undef NOPE\n"; break; } Mac& m = macs[(size_t)r.pick(c)];
                // no other definition may go on mentioning it with a different shape: forget only unreferenced ones
                u32 bit = 1u << (&m - &macs[0]); bool refd = false; for (auto& o : macs) if (&o != &m && o.defd && (o.reach & bit)) refd = true; if (refd) break;
                t += "#undef " + m.name + (r.chance(1, 4) ? " // gone\n" : "\n"); if (r.chance(1, 5)) t += "#undef " + m.name + "\n"; m.defd = false; live -= m.size; ref.macros.erase(m.name); break; }
            case 5: case 6: if (conds < 3) {
                ++conds; bool v; string open;
                if (r.chance(1, 3)) { string nm = r.chance(1, 4) ? string("NOPE") : r.chance(1, 6) ? string("__SCC__") : sfmt("M%u", r.below(11)); bool neg = r.chance(1, 2); v = (nm == "__SCC__" || ref.macros.count(nm)) != neg; open = string(neg ? "#ifndef " : "#ifdef ") + nm; }
                else { string c = cond(&v); open = "#" + osp() + "if " + c; }
                t += string(r.chance(1, 4) ? "  " : "") + open + (r.chance(1, 6) ? " /* why */" : "") + "\n";
                bool taken = v; t += v ? block(depth, r.range(0, 4)) : garbage();
                int alts = r.pick({ 0, 1, 1, 2 });
                while (alts--) {
                    bool last = !alts && r.chance(2, 3);
                    if (last) { t += string("#") + osp() + "else" + (r.chance(1, 5) ? " // else" : "") + "\n"; if (!taken) { t += block(depth, r.range(0, 3)); taken = true; } else t += garbage(); break; }
                    bool w; string c;
                    if (taken && r.chance(1, 4)) { c = r.pick({ "1/0", "not an expression (", "M0(1,2,3,4" }); w = false; } else c = cond(&w);
                    t += "#elif " + c + "\n"; if (!taken && w) { t += block(depth, r.range(0, 3)); taken = true; } else t += garbage();
                }
                t += string(r.chance(1, 4) ? " " : "") + "#endif" + (r.chance(1, 5) ? " // end" : r.chance(1, 6) ? " /* end */" : "") + "\n"; --conds;
            } break;
            case 7: if (depth < 2 && nfile < 4) {
                string nm = sfmt("inc%d.h", nfile++); string c = block(depth + 1, r.range(0, 5)); if (r.chance(1, 4)) while (!c.empty() && c.back() == '\n') c.pop_back(); if (r.chance(1, 5)) c = padFront(r, c, "//");
                files[nm] = c; t += "#" + osp() + "include " + (r.chance(1, 4) ? "<" + nm + ">" : "\"" + nm + "\"") + r.pick({ "\n", "\n", "\n\n", " // i\n" });
            } break;
            case 8: t += r.pick({ "#\n", "# // nothing\n", "#pragma once\n", "#pragma pack(1) it's\n", "\n", "\n\n", "/* a\n comment ' */\n", "// don't\n", "   \n" }); break;
            default: t += textLine();
            }
        }
        return t;
    }
};
Scenario genPrep(Rng& r, u64 i) {
    Scenario s; s.num["seed"] = (long long)(r.next() >> 1); s.kind = "tree"; s.num["fixed"] = 1;
    if (i == 0) { s.kind = "nested"; s.files["t.c"] = "#define SQ(x) ((x)*(x))\nint v = SQ(SQ(2));\n"; return s; }
    if (i == 1) { s.kind = "handed-on"; s.files["t.c"] = "#define CAT(x,y) x##y\n#define XCAT(x,y) CAT(x,y)\n#define A 5\nint v = XCAT(A,6);\n"; return s; }
    PG g(r, s.files);
    string m = g.block(0, r.range(2, 24));
    if (r.chance(1, 16)) { s.kind = "error"; if (r.chance(1, 2)) m += "#error this\nafter\n"; else m += "#include \"missing.h\"\nafter\n"; }
    if (r.chance(1, 3)) m = padFront(r, m, r.chance(1, 2) ? "//" : "//");
    if (r.chance(1, 6)) while (!m.empty() && m.back() == '\n') m.pop_back();
    if (r.chance(1, 8)) { string c; for (char ch : m) { if (ch == '\n' && (c.empty() || c.back() != '\r')) c += '\r'; c += ch; } m = c; }
    s.files["t.c"] = m;
    if (r.chance(1, 8)) { s.num["dos"] = 1; s.num["garbage"] = r.below(4); if (r.chance(1, 2)) s.num["irq"] = r.pick({ 5, 50, 2000 }); }
    if (r.chance(2, 3)) s.num["mode"] = r.chance(1, 2) ? -1 : r.pick({ 1, 2, 7, 64, 100, 511 });
    return s;
}
string toksText(const vector<string>& v, size_t at) { string t; for (size_t i = at > 4 ? at - 4 : 0; i < v.size() && i < at + 8; ++i) t += (i == at ? ">>" : "") + v[i] + " "; return t; }
void execPrep(const Scenario& s, Outcome& o) {
    ppref::PP p; p.files = &s.files; p.run("t.c");
    if (p.invalid) { o.skipped = true; o.st.inc("probe.reference-undefined"); return; }
    string refText; for (auto& t : p.out) refText += t + "\n";
    vector<string> want = p.out;
    World w; w.sc = &s; w.oc = &o; w.disk.ci = s.n("dos") != 0; w.disk.load(s.files);
    string out, d; bool ok; int code; u64 steps; bool clean;
    if (s.n("dos")) { PcSpec c; c.name = "scpp"; c.image = toolCom("scpp"); c.tail = " t.c t.i"; c.seed = (u64)s.n("seed"); c.garbage = (int)s.n("garbage"); c.irqEvery = (int)s.n("irq"); c.readMode = (int)s.n("mode"); c.fuel = 400000000ull; if (c.image.empty()) { o.fail("build", "scpp.com cannot be built from the working tree"); return; } PcResult x = runPc(w, c); ok = x.ok(); d = x.describe(); code = x.code; out = x.out; steps = x.steps; clean = x.end == E_EXIT; }
    else { HostSpec h; h.tool = "scpp"; h.args = { "t.c", "t.i" }; h.seed = (u64)s.n("seed"); h.readMode = (int)s.n("mode"); HostResult x = w.run(h); ok = x.ok(); d = x.describe(); code = x.code; out = x.out + x.err; steps = x.ops.size(); clean = x.end == E_EXIT; }
    (void)code;
    Hash hh; hh.add(hashStr(refText)); hh.add(steps); hh.add(s.n("dos")); o.shape = hh.h; o.nontrivial = !want.empty() || p.error;
    o.st.inc("probe.kind-" + s.kind); o.st.inc(s.n("dos") ? "probe.dos-build" : "probe.host-build");
    string who = s.n("dos") ? "scpp.com" : "scpp";
    if (p.error) {
        if (ok) o.fail("accepted", who + ": accepts a source with " + (s.files.at("t.c").find("#error") != string::npos ? "an active #error" : "a missing include file"));
        else if (clean && out.empty()) o.fail("silent", who + ": fails without a message");
        return;
    }
    if (!ok) { o.fail("rejected", who + ": valid source, " + d); return; }
    auto* f = w.disk.find("t.i"); if (!f) { o.fail("no-output", who + ": succeeds without writing t.i"); return; }
    vector<string> got = ppref::cTokens(f->data);
    // the reference's tokens as C sees them: its text lexed again would be the same, one per line
    vector<string> w2; for (auto& t : want) { auto l = ppref::cTokens(t); w2.insert(w2.end(), l.begin(), l.end()); }
    size_t i = 0; while (i < got.size() && i < w2.size() && got[i] == w2[i]) ++i;
    if (i < got.size() || i < w2.size()) o.fail("tokens", who + sfmt(": token %zu of the output: expected ", i) + toksText(w2, i) + " but got " + toksText(got, i) + (s.kind == "nested" ? " [a macro invoked in its own argument]" : s.kind == "handed-on" ? " [an argument handed on to ##]" : ""));
}
} // namespace
string genPrepTree(Rng& r, map<string, string>& files) { PG g(r, files); return g.block(0, r.range(2, 18)); }
void registerPpChecks() {
    registerCheck({ "P26", genPrep, execPrep, 200000, 3000000, "seeded trees of macros, conditionals, includes and text x read sizes, host and DOS build, memory and register contents, interrupts; output compared token by token with an executable reference of C preprocessing; non-trivial: the tree yields tokens or must be refused; distinct by reference output, operations and build", "scpp.c of the working tree (host build; every 8th run the DOS build made by the host scc)", "disk, system calls; reference 8086 with DOS; the reference preprocessor is the oracle", "I/O operations and 8086 instructions" });
}
