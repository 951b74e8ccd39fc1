#include "pp_ref.h"
namespace ppref {
static bool idc(char c) { return isalnum((unsigned char)c) || c == '_'; }
bool isId(const string& s) { return !s.empty() && (isalpha((unsigned char)s[0]) || s[0] == '_'); }
static const char* const ops[] = { "<<=", ">>=", "...", "##", "++", "--", "->", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=" };
vector<Tok> lexLine(const string& s, bool* bad) {
    vector<Tok> v; size_t i = 0; bool ws = false;
    while (i < s.size()) {
        char c = s[i];
        if ((unsigned char)c <= ' ') { ws = true; ++i; continue; }
        Tok t; t.ws = ws; ws = false; size_t b = i;
        if (c == '"' || c == '\'') {
            ++i; while (i < s.size() && s[i] != c) { if (s[i] == '\\') ++i; ++i; }
            if (i >= s.size()) { if (bad) *bad = true; i = s.size(); } else ++i;
        } else if (isdigit((unsigned char)c)) { while (i < s.size() && idc(s[i])) ++i; }
        else if (idc(c)) { while (i < s.size() && idc(s[i])) ++i; }
        else { i += 1; for (auto o : ops) { size_t n = strlen(o); if (!s.compare(b, n, o)) { i = b + n; break; } } }
        t.s = s.substr(b, i - b); v.push_back(t);
    }
    return v;
}
vector<string> cTokens(const string& text) { vector<string> r; size_t p = 0; while (p < text.size()) { size_t e = text.find('\n', p); if (e == string::npos) e = text.size(); for (auto& t : lexLine(text.substr(p, e - p))) r.push_back(t.s); p = e + 1; } return r; }

// Physical text -> logical lines with line numbers; comments become blanks, spliced lines joined.
struct Line { string s; int no; };
static vector<Line> logical(const string& t) {
    vector<Line> v; string cur; int no = 1, start = 1; size_t i = 0; char q = 0;
    auto flush = [&] { v.push_back({ cur, start }); cur.clear(); start = no; };
    while (i < t.size()) {
        char c = t[i];
        if (c == '\\' && i + 1 < t.size() && (t[i + 1] == '\n' || (t[i + 1] == '\r' && i + 2 < t.size() && t[i + 2] == '\n'))) { i += t[i + 1] == '\n' ? 2 : 3; ++no; continue; }
        if (c == '\n') { q = 0; ++no; ++i; flush(); continue; }
        if (q) { cur += c; if (c == '\\' && i + 1 < t.size() && t[i + 1] != '\n') cur += t[++i]; else if (c == q) q = 0; ++i; continue; }
        if (c == '"' || c == '\'') { q = c; cur += c; ++i; continue; }
        if (c == '/' && i + 1 < t.size() && t[i + 1] == '/') { while (i < t.size() && t[i] != '\n') ++i; continue; }
        if (c == '/' && i + 1 < t.size() && t[i + 1] == '*') { i += 2; while (i < t.size() && !(t[i] == '*' && i + 1 < t.size() && t[i + 1] == '/')) { if (t[i] == '\n') ++no; ++i; } i += 2; cur += ' '; continue; }
        cur += c; ++i;
    }
    if (!cur.empty()) flush();
    return v;
}
static string stringize(const vector<Tok>& a) {
    string r; bool first = true, pend = false;
    for (auto& t : a) {
        pend |= t.ws || t.nl;
        if (t.place) continue; // where something expanded to nothing
        if (!first && pend) r += ' ';
        first = pend = false;
        if (t.s[0] == '"' || t.s[0] == '\'') { for (char c : t.s) { if (c == '"' || c == '\\') r += '\\'; r += c; } } else r += t.s;
    }
    return "\"" + r + "\"";
}
void PP::define(vector<Tok>& l, size_t i) {
    if (i >= l.size() || !isId(l[i].s)) { invalid = true; why = "#define"; return; }
    string name = l[i++].s; Macro m;
    if (i < l.size() && l[i].s == "(" && !l[i].ws) {
        m.func = true; ++i;
        while (i < l.size() && l[i].s != ")") { if (l[i].s == ",") { ++i; continue; } if (!isId(l[i].s)) { invalid = true; why = "params"; return; } m.params.push_back(l[i++].s); }
        if (i >= l.size()) { invalid = true; why = "params"; return; }
        ++i;
    }
    for (; i < l.size(); ++i) m.body.push_back(l[i]);
    if (!m.body.empty()) m.body[0].ws = false;
    if (macros.count(name)) { auto& o = macros[name]; bool same = o.func == m.func && o.params == m.params && o.body.size() == m.body.size(); for (size_t k = 0; same && k < m.body.size(); ++k) same = o.body[k].s == m.body[k].s; if (!same) { invalid = true; why = "redefinition of " + name; return; } }
    macros[name] = m;
}
Toks PP::expand(Toks in) {
    Toks out; int guard = 0;
    while (!in.empty()) {
        if (++guard > 200000) { invalid = true; why = "expansion"; return out; }
        Tok t = in.front();
        if (t.place) { in.pop_front(); out.push_back(t); continue; }
        if (t.s == "__LINE__") { t.s = sfmt("%d", t.line); in.pop_front(); out.push_back(t); continue; }
        if (t.s == "__FILE__") { t.s = "\"" + file + "\""; in.pop_front(); out.push_back(t); continue; }
        if (t.s == "__SCC__") { t.s = "1"; in.pop_front(); out.push_back(t); continue; }
        auto it = isId(t.s) && !t.hide.count(t.s) ? macros.find(t.s) : macros.end();
        if (it == macros.end()) { in.pop_front(); out.push_back(t); continue; }
        Macro m = it->second; string name = t.s;
        vector<vector<Tok>> args, bare; std::set<string> hs;
        if (m.func) {
            auto p = std::next(in.begin());
            while (p != in.end() && p->place) ++p;
            if (p == in.end() || p->s != "(") { in.pop_front(); out.push_back(t); continue; }
            ++p; int nest = 0; args.push_back({}); bool closed = false;
            for (; p != in.end(); ++p) {
                if (p->s == "(") ++nest; else if (p->s == ")") { if (!nest--) { closed = true; break; } } else if (p->s == "," && !nest) { args.push_back({}); continue; }
                args.back().push_back(*p);
            }
            if (!closed) { invalid = true; why = "unterminated call of " + name; return out; }
            auto real = [](const vector<Tok>& l) { vector<Tok> q; for (auto& x : l) if (!x.place) q.push_back(x); return q; };
            if (m.params.empty() && args.size() == 1 && real(args[0]).empty()) args.clear();
            for (auto& a : args) bare.push_back(real(a));
            if (args.size() != m.params.size()) { invalid = true; why = "argument count of " + name; return out; }
            for (auto& h : t.hide) if (p->hide.count(h)) hs.insert(h); // both the name's and the parenthesis'
            in.erase(in.begin(), std::next(p));
        } else { hs = t.hide; in.pop_front(); }
        hs.insert(name);
        for (auto* v : { &args, &bare }) for (auto& a : *v) if (!a.empty()) { a[0].ws = false; a[0].nl = false; }
        // substitute
        vector<Tok> sub; auto param = [&](const Tok& k) -> int { for (size_t i = 0; i < m.params.size(); ++i) if (m.params[i] == k.s) return (int)i; return -1; };
        for (size_t i = 0; i < m.body.size(); ++i) {
            Tok k = m.body[i]; k.line = t.line;
            bool pasteNext = i + 1 < m.body.size() && m.body[i + 1].s == "##";
            if (m.func && k.s == "#" ) { int a = i + 1 < m.body.size() ? param(m.body[i + 1]) : -1; if (a < 0) { invalid = true; why = "#"; return out; } Tok x; x.s = stringize(args[(size_t)a]); x.ws = k.ws; x.line = t.line; sub.push_back(x); ++i; continue; }
            if (k.s == "##" && i && i + 1 < m.body.size()) {
                Tok r = m.body[i + 1]; r.line = t.line; vector<Tok> rv; int a = m.func ? param(r) : -1;
                if (a >= 0) { rv = bare[(size_t)a]; if (rv.size() > 1) { invalid = true; why = "## with several tokens"; return out; } } else rv.push_back(r);
                ++i;
                if (rv.empty()) continue;
                if (sub.empty() || sub.back().place) { bool w = !sub.empty() && sub.back().ws; if (!sub.empty()) sub.pop_back(); rv[0].ws = w; rv[0].line = t.line; rv[0].hide.clear(); sub.push_back(rv[0]); }
                else { sub.back().s += rv[0].s; sub.back().hide.clear(); auto chk = lexLine(sub.back().s); if (chk.size() != 1) { invalid = true; why = "## makes no token"; return out; } }
                continue;
            }
            int a = m.func ? param(k) : -1;
            if (a < 0) { sub.push_back(k); continue; }
            if (pasteNext) { if (bare[(size_t)a].size() > 1) { invalid = true; why = "## with several tokens"; return out; } if (bare[(size_t)a].empty()) { Tok x; x.place = true; x.ws = k.ws; sub.push_back(x); } else { Tok x = bare[(size_t)a][0]; x.ws = k.ws; sub.push_back(x); } continue; }
            Toks ex = expand(Toks(args[(size_t)a].begin(), args[(size_t)a].end())); bool first = true;
            if (invalid) return out;
            if (ex.empty()) { Tok x; x.place = true; ex.push_back(x); }
            for (auto x : ex) { if (first) x.ws = k.ws; first = false; sub.push_back(x); }
        }
        vector<Tok> fin; for (auto& x : sub) { if (!x.place) x.hide.insert(hs.begin(), hs.end()); x.line = t.line; fin.push_back(x); }
        if (fin.empty()) { Tok x; x.place = true; fin.push_back(x); }
        { fin[0].ws = t.ws; fin[0].nl = t.nl; }
        in.insert(in.begin(), fin.begin(), fin.end());
    }
    return out;
}
static int prec(const string& o) {
    if (o == "*" || o == "/" || o == "%") return 10; if (o == "+" || o == "-") return 9;
    if (o == "<" || o == ">" || o == "<=" || o == ">=") return 7; if (o == "==" || o == "!=") return 6;
    if (o == "&") return 5; if (o == "^") return 4; if (o == "|") return 3; if (o == "&&") return 2; if (o == "||") return 1; return 0;
}
static bool fits(long v) { return v >= -32768 && v <= 32767; }
bool PP::evalUnary(Toks& t, long* v) {
    if (t.empty()) return false;
    string s = t.front().s; t.pop_front();
    if (s == "!") { if (!evalUnary(t, v)) return false; *v = !*v; return true; }
    if (s == "(") { if (!evalExpr(t, 0, v)) return false; if (t.empty() || t.front().s != ")") return false; t.pop_front(); return true; }
    if (isdigit((unsigned char)s[0])) { char* e; *v = strtol(s.c_str(), &e, 0); return !*e && fits(*v); }
    if (isId(s)) { *v = 0; return true; }
    return false;
}
bool PP::evalExpr(Toks& t, int min, long* v) { // min 0: with ?:
    if (!evalUnary(t, v)) return false;
    for (;;) {
        if (t.empty()) return true;
        string o = t.front().s;
        if (o == "?") {
            if (min > 0) return true;
            t.pop_front(); long a, b;
            dead += !*v; bool fine = evalExpr(t, 0, &a); dead -= !*v; if (!fine) return false; if (t.empty() || t.front().s != ":") return false; t.pop_front();
            dead += !!*v; fine = evalExpr(t, 0, &b); dead -= !!*v; if (!fine) return false;
            *v = *v ? a : b; return true;
        }
        int p = prec(o); if (!p || p < min || p < 1) return true;
        t.pop_front(); long r; int skip = (o == "&&" && !*v) || (o == "||" && *v); dead += skip; bool fine = evalExpr(t, p + 1, &r); dead -= skip; if (!fine) return false;
        long l = *v;
        if ((o == "/" || o == "%") && !r) { if (!dead) return false; r = 1; } // only matters where the result is used
        *v = o == "*" ? l * r : o == "/" ? l / r : o == "%" ? l % r : o == "+" ? l + r : o == "-" ? l - r : o == "<" ? l < r : o == ">" ? l > r : o == "<=" ? l <= r : o == ">=" ? l >= r : o == "==" ? l == r : o == "!=" ? l != r : o == "&" ? (l & r) : o == "^" ? (l ^ r) : o == "|" ? (l | r) : o == "&&" ? (l && r) : (l || r);
        if (!fits(*v)) return false;
    }
}
bool PP::evalIf(const vector<Tok>& line, long* v) {
    Toks in;
    for (size_t i = 0; i < line.size(); ++i) {
        if (line[i].s == "defined") {
            bool par = i + 1 < line.size() && line[i + 1].s == "("; size_t k = i + 1 + par; if (k >= line.size()) return false;
            Tok t; const string& n = line[k].s; t.s = macros.count(n) || n == "__LINE__" || n == "__FILE__" || n == "__SCC__" ? "1" : "0"; t.ws = true; in.push_back(t);
            if (par) { if (k + 1 >= line.size() || line[k + 1].s != ")") return false; ++k; }
            i = k; continue;
        }
        in.push_back(line[i]);
    }
    Toks e = expand(in); e.remove_if([](const Tok& x) { return x.place; }); if (invalid) return false;
    return evalExpr(e, 0, v) && e.empty();
}
void PP::directive(const string& line) { auto l = lexLine(line); if (l.size() > 1 && l[1].s == "define") define(l, 2); else if (l.size() > 2 && l[1].s == "undef") macros.erase(l[2].s); }
void PP::run(const string& name) {
    auto it = files->find(name); if (it == files->end()) { error = true; return; }
    if (++depth > 3) { invalid = true; why = "include depth"; return; }
    string outer = file; file = name;
    struct Cond { bool active, taken, parent, seenElse; }; vector<Cond> cs; Toks pend;
    auto active = [&] { return cs.empty() || cs.back().active; };
    auto flush = [&] { for (auto& t : expand(pend)) if (!t.place) out.push_back(t.s); pend.clear(); };
    for (auto& ln : logical(it->second)) {
        if (invalid || error) break;
        size_t p = ln.s.find_first_not_of(" \t\r\f\v"); bool dir = p != string::npos && ln.s[p] == '#';
        if (!dir) {
            if (!active()) continue;
            bool bad = false; auto l = lexLine(ln.s, &bad); if (bad) { invalid = true; why = "unterminated literal"; break; }
            for (size_t i = 0; i < l.size(); ++i) { l[i].line = ln.no; if (!i) l[i].nl = true; pend.push_back(l[i]); }
            continue;
        }
        auto l = lexLine(ln.s); for (auto& t : l) t.line = ln.no;
        if (l.size() == 1) continue;
        string d = l[1].s;
        if (d == "ifdef" || d == "ifndef" || d == "if") {
            flush(); bool par = active(), v = false;
            if (par) {
                if (d == "if") { long x; if (!evalIf(vector<Tok>(l.begin() + 2, l.end()), &x)) { invalid = true; why = "#if " + ln.s; break; } v = x != 0; }
                else { if (l.size() < 3) { invalid = true; break; } const string& n = l[2].s; v = (macros.count(n) || n == "__SCC__" || n == "__LINE__" || n == "__FILE__") == (d == "ifdef"); }
            }
            cs.push_back({ par && v, v, par, false });
        } else if (d == "elif" || d == "else") {
            flush(); if (cs.empty() || cs.back().seenElse) { invalid = true; why = d; break; }
            auto& c = cs.back();
            if (!c.parent || c.taken) c.active = false;
            else if (d == "else") c.active = c.taken = true;
            else { long x; if (!evalIf(vector<Tok>(l.begin() + 2, l.end()), &x)) { invalid = true; why = "#elif"; break; } c.active = c.taken = x != 0; }
            if (d == "else") c.seenElse = true;
        } else if (d == "endif") { flush(); if (cs.empty()) { invalid = true; why = "#endif"; break; } cs.pop_back(); }
        else if (!active()) continue;
        else if (d == "define") { flush(); define(l, 2); }
        else if (d == "undef") { flush(); if (l.size() < 3) { invalid = true; break; } macros.erase(l[2].s); }
        else if (d == "include") {
            flush(); if (invalid) break;
            size_t a = ln.s.find_first_of("\"<"); if (a == string::npos) { invalid = true; break; } size_t b = ln.s.find_first_of("\">", a + 1); if (b == string::npos) { invalid = true; break; }
            run(ln.s.substr(a + 1, b - a - 1)); file = name;
        } else if (d == "error") { flush(); error = true; errFile = file; errLine = ln.no; }
        else if (d == "pragma" || d == "line") flush();
        else { error = true; }
    }
    if (!invalid && !error) { flush(); if (!cs.empty()) { invalid = true; why = "unterminated conditional"; } }
    file = outer; --depth;
}
} // namespace ppref
