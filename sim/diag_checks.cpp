// P27: where error messages point. P28: what the map file says against the running program.
#include "progs.h"
#include "jobs.h"
#include "checks.h"
#include "pp_ref.h"
namespace {
vector<string> linesOf(const string& t) { vector<string> v; size_t p = 0; while (p < t.size()) { size_t e = t.find('\n', p); if (e == string::npos) e = t.size() - 1; v.push_back(t.substr(p, e - p + 1)); p = e + 1; } return v; }
string join(const vector<string>& v) { string t; for (auto& x : v) t += x; return t; }
// true: the end of text lies outside comments and literals of C
bool outsideC(const string& t) {
    for (size_t i = 0; i < t.size(); ++i) {
        char c = t[i];
        if (c == '/' && i + 1 < t.size() && t[i + 1] == '/') { while (i < t.size() && t[i] != '\n') ++i; if (i >= t.size()) return false; }
        else if (c == '/' && i + 1 < t.size() && t[i + 1] == '*') { size_t e = t.find("*/", i + 2); if (e == string::npos) return false; i = e + 1; }
        else if (c == '"' || c == '\'') { size_t k = i + 1; while (k < t.size() && t[k] != c) k += t[k] == '\\' ? 2 : 1; if (k >= t.size()) return false; i = k; }
    }
    return true;
}
string blankComments(string t) {
    for (size_t i = 0; i < t.size(); ++i) {
        char c = t[i];
        if (c == '/' && i + 1 < t.size() && t[i + 1] == '/') while (i < t.size() && t[i] != '\n') t[i++] = ' ';
        else if (c == '/' && i + 1 < t.size() && t[i + 1] == '*') { size_t e = t.find("*/", i + 2); e = e == string::npos ? t.size() : e + 2; while (i < e) { if (t[i] != '\n') t[i] = ' '; ++i; } --i; }
        else if (c == '#' && (!i || t[i - 1] == '\n')) while (i < t.size() && t[i] != '\n') t[i++] = ' ';
        else if (c == '"' || c == '\'') { size_t k = i + 1; while (k < t.size() && t[k] != c) k += t[k] == '\\' ? 2 : 1; i = k; }
    }
    return t;
}
// Blank lines, comments and other line ends that leave the meaning as it is.
string clutter(Rng& r, const string& src, bool c) {
    auto L = linesOf(src); string t; bool crlf = r.chance(1, 5); int every = r.range(1, 12); size_t done = 0; string sofar;
    for (size_t i = 0; i <= L.size(); ++i) {
        bool at = r.chance(1, (u32)every);
        if (at && (!c || outsideC(sofar))) {
            if (c) t += r.pick({ "\n", "\n\n", "// note\n", "  // \"note\n", "/* a\n b\n*/\n", "/* ' */ \n", "/**\n**/ // x\n", "\t\n", "# 12 \"file\"\n", "#\n" });
            else t += r.pick({ "\n", "\n\n", "; note\n", "  ; 'note\n", "\t \n", ";\n" });
        }
        if (i < L.size()) { t += L[i]; sofar += L[i]; }
        (void)done;
    }
    if (r.chance(1, 3)) t = padFront(r, t, c ? "//" : ";");
    if (crlf) { string u; for (char ch : t) { if (ch == '\n' && (u.empty() || u.back() != '\r')) u += '\r'; u += ch; } t = u; }
    return t;
}
int countNl(const string& t) { int n = 0; for (char c : t) n += c == '\n'; return n; }
// ---------------------------------------------------------------- P27
Scenario genDiag(Rng& r, u64) {
    Scenario s; s.kind = r.pick({ "scc", "scc", "scc", "sas", "sas", "scpp" }); s.num["fixed"] = 1; s.num["seed"] = (long long)(r.next() >> 1);
    if (s.kind == "scc") {
        Prog p = genProgram(r, r.range(1, 12), r.range(0, 3), false);
        string t = clutter(r, p.src, true); auto L = linesOf(t);
        size_t mainAt = 0, mainEnd = 0; for (size_t i = 0; i < L.size(); ++i) if (L[i][0] == '}') mainEnd = i; for (size_t i = 0; i < L.size(); ++i) if (L[i].find("main()") != string::npos) mainAt = i;
        for (int k = 0; k < 200; ++k) {
            bool body = r.chance(2, 3) && mainAt + 2 < mainEnd;
            size_t at = body ? (size_t)r.range((int)mainAt + 1, (int)mainEnd) : r.below((u32)L.size());
            string head; for (size_t i = 0; i < at; ++i) head += L[i];
            if (!outsideC(head)) continue;
            string bare = blankComments(head); size_t q = bare.find_last_not_of(" \t\r\n"); // after a whole statement or block start
            if (q == string::npos) continue;
            if (!strchr(";{}", head[q])) continue;
            string bad = body ? r.pick({ "@", "nosuchname = 1;", ") ;", "] = 2;", "*nosuchname = 3;", "x.y;", "while 5;", "char 5;", "putn(1 2);", "= 3 ;;", "putn(7 / 0);", "putn(7 % (3 - 3));" })
                              : r.pick({ "int 5;", "int nosuch q;", "char ];", "struct 7 x;", "@ @ @", "nosuchtype_q x y;", ") ) )", "int q_zero = 1 / 0;" });
            string ws = r.pick({ "", "  ", "\t", "    ", "/* c */ " }), tail = r.pick({ "", " ", " // why", " /* more\n */", "\t" });
            L.insert(L.begin() + (long)at, ws + bad + tail + (r.chance(1, 6) ? "\r\n" : "\n"));
            s.num["line"] = countNl(head) + 1; s.str["bad"] = bad; break;
        }
        if (!s.n("line")) { L.push_back("int 5;\n"); s.num["line"] = countNl(t) + 1; s.str["bad"] = "int 5;"; }
        s.files["t.c"] = join(L);
    } else if (s.kind == "sas") {
        Prog p = genRunAsm(r, r.range(1, 20));
        string t = clutter(r, p.src, false); auto L = linesOf(t);
        size_t at = r.below((u32)L.size() + 1); string head; for (size_t i = 0; i < at; ++i) head += L[i];
        if (!head.empty() && head.back() != '\n') { head += "\n"; L[at - 1] += "\n"; }
        string bad = r.pick({ "frob ax", "mov ax, ]", "mov ax ax", "] ax", "push ,", "add ax, )", "jmp ]", "mov [ax], 1", "mov ax, [cx]", "nolabel ax", "dw ]", "!" });
        string ws = r.pick({ "", "  ", "\t", "        " }), tail = r.pick({ "", " ", " ; why", "\t" });
        L.insert(L.begin() + (long)at, ws + bad + tail + (r.chance(1, 6) ? "\r\n" : "\n"));
        s.num["line"] = countNl(head) + 1; s.str["bad"] = bad; s.files["t.s"] = join(L);
    } else {
        for (int k = 0; k < 50; ++k) {
            map<string, string> f; f["t.c"] = genPrepTree(r, f); vector<string> names; for (auto& x : f) names.push_back(x.first);
            string nm = names[r.below((u32)names.size())]; auto L = linesOf(f[nm]); size_t at = r.below((u32)L.size() + 1);
            if (at && L[at - 1].find('\n') == string::npos) L[at - 1] += "\n";
            string head; for (size_t i = 0; i < at; ++i) head += L[i];
            if (!outsideC(head)) continue; size_t n = head.size(); if (n > 1 && head[n - 2] == '\\') continue;
            int line = countNl(head) + 1;
            L.insert(L.begin() + (long)at, string(r.pick({ "#error stop\n", "# error\n", "  #error here // now\n", "#error \"x\"\n", "#/**/error y\r\n" })));
            f[nm] = join(L);
            ppref::PP p; p.files = &f; p.run("t.c");
            if (p.invalid || !p.error || p.errFile != nm || p.errLine != line) continue;
            s.files = f; s.num["line"] = line; s.str["file"] = nm; s.str["bad"] = "#error"; break;
        }
        if (s.files.empty()) { s.files["t.c"] = "\n#error\n"; s.num["line"] = 2; s.str["file"] = "t.c"; s.str["bad"] = "#error"; }
    }
    if (r.chance(1, 2)) s.num["mode"] = r.chance(1, 2) ? -1 : r.pick({ 1, 2, 7, 64, 100, 511, 512 });
    if (r.chance(1, 8)) { s.num["dos"] = 1; if (r.chance(1, 2)) s.num["irq"] = r.pick({ 5, 50, 2000 }); }
    return s;
}
void execDiag(const Scenario& s, Outcome& o) {
    { string f = s.kind == "scc" ? "t.c" : s.kind == "sas" ? "t.s" : s.s("file"); auto it = s.files.find(f); vector<string> L; if (it != s.files.end()) L = linesOf(it->second); long long n = s.n("line"); if (n < 1 || n > (long long)L.size() || (s.kind != "scpp" && L[(size_t)n - 1].find(s.s("bad")) == string::npos)) { o.skipped = true; return; } }
    World w; w.sc = &s; w.oc = &o; w.disk.ci = s.n("dos") != 0; w.disk.load(s.files);
    vector<string> args = s.kind == "scc" ? vector<string>{ "t.c", "t.com" } : s.kind == "sas" ? vector<string>{ "t.s", "t.com" } : vector<string>{ "t.c", "t.i" };
    string text, d; bool ok; EndKind end; u64 steps;
    if (s.n("dos")) { PcSpec p; p.name = s.kind; p.image = toolCom(s.kind); for (auto& x : args) p.tail += " " + x; p.seed = (u64)s.n("seed"); p.garbage = 3; p.irqEvery = (int)s.n("irq"); p.readMode = (int)s.n("mode"); p.fuel = 400000000ull; if (p.image.empty()) { o.fail("build", s.kind + ".com cannot be built from the working tree"); return; } PcResult x = runPc(w, p); text = x.out; ok = x.ok(); d = x.describe(); end = x.end; steps = x.steps; }
    else { HostSpec h; h.tool = s.kind; h.args = args; h.seed = (u64)s.n("seed"); h.readMode = (int)s.n("mode"); HostResult x = w.run(h); text = x.out + x.err; ok = x.ok(); d = x.describe(); end = x.end; steps = x.ops.size(); }
    Hash hh; hh.add(hashStr(text)); hh.add(steps); hh.add(s.n("dos")); hh.add((u64)s.n("line")); o.shape = hh.h; o.nontrivial = true;
    o.st.inc("probe.kind-" + s.kind); o.st.inc(s.n("dos") ? "probe.dos-build" : "probe.host-build");
    string who = s.kind + (s.n("dos") ? ".com" : ""), what = who + sfmt(": line %lld has `", s.n("line")) + s.s("bad") + "`";
    if (ok) { o.fail("accepted", what + ", yet the run succeeds"); return; }
    long got = -1; string file; bool assertion = text.find("ssertion") != string::npos;
    if (s.kind == "scc") { size_t p = text.rfind("In line "); if (p != string::npos) got = atol(text.c_str() + p + 8); }
    else if (s.kind == "sas") { size_t p = text.rfind("Line "); if (p != string::npos) got = atol(text.c_str() + p + 5); }
    else { size_t p = text.rfind("#error in "); if (p != string::npos) { size_t q = text.find('!', p), c = text.rfind(':', q); if (q != string::npos && c != string::npos && c > p) { file = text.substr(p + 10, c - p - 10); got = atol(text.c_str() + c + 1); } } }
    if (got < 0) { if (end != E_EXIT && assertion) { o.st.inc("probe.message-without-line"); return; } o.fail("no-line", what + ", the message names no line: " + diffText("", text)); return; }
    if (got != s.n("line")) { o.fail("line", what + sfmt(", the message says line %ld: ", got) + diffText("", text)); return; }
    { // the message itself: something readable after the line number
        for (unsigned char c : text) if ((c < 32 && c != '\n' && c != '\r' && c != '\t') || c > 126) { bool src = false; for (auto& f : s.files) if (f.second.find((char)c) != string::npos) src = true; if (!src) { o.fail("garbled", what + sfmt(", the message contains the byte 0x%02X: ", c) + diffText("", text)); return; } }
        size_t p = text.rfind(s.kind == "scc" ? "In line " : "Line "); if (s.kind != "scpp" && p != string::npos) { p = text.find(':', p); size_t q = s.kind == "sas" && p != string::npos ? text.find(':', p + 1) : p; int letters = 0; if (q != string::npos) for (size_t i = q + 1; i < text.size(); ++i) if (isalpha((unsigned char)text[i])) ++letters; if (letters < 3) { o.fail("no-reason", what + ", the message gives no reason: " + diffText("", text)); return; } }
    }
    if (s.kind == "scpp" && strcasecmp(file.c_str(), s.s("file").c_str())) o.fail("file", what + " in " + s.s("file") + ", the message says " + file);
}
// ---------------------------------------------------------------- P28
Scenario genMap(Rng& r, u64) {
    Scenario s; s.kind = "map"; s.num["fixed"] = 1; s.num["seed"] = (long long)(r.next() >> 1);
    string t = "void putchar(int ch) {\n    _emit 0x8B _emit 0x46|2<<3 _emit 0x04\n    _emit 0xB8 _emit 0x00 _emit 0x02\n    _emit 0xCD _emit 0x21\n}\nvoid putn(int n) {\n    int i;\n    for (i = 0; i < 4; ++i) {\n        putchar(\"0123456789ABCDEF\"[(n>>12)&0xf]);\n        n <<= 4;\n    }\n    putchar(' ');\n}\nvoid main(void);\nvoid _start(void) {\n    main();\n    _emit 0xB8 _emit 0x00 _emit 0x4C _emit 0xcd _emit 0x21\n}\nstruct S { int a; char b; char c[3]; };\n";
    vector<std::pair<string, string>> syms; // name, address expression
    syms.push_back({ "putchar", "putchar" }); syms.push_back({ "putn", "putn" }); syms.push_back({ "_start", "_start" }); syms.push_back({ "main", "main" }); syms.push_back({ "_SBSS", "&_SBSS" }); syms.push_back({ "_EBSS", "&_EBSS" });
    int n = r.range(1, 40), late = 0; vector<string> order; string tailText;
    auto name = [&](const char* p, int i) { return string(p) + sfmt("%d", i) + (r.chance(1, 6) ? string(r.range(1, 12), (char)('a' + r.below(26))) : string()); };
    for (int i = 0; i < n; ++i) {
        string x;
        switch (r.below(10)) {
        case 0: x = name("i", i); t += (r.chance(1, 4) ? "static int " : "int ") + x + ";\n"; syms.push_back({ x, "&" + x }); break;
        case 1: x = name("c", i); t += "char " + x + ";\n"; syms.push_back({ x, "&" + x }); break;
        case 2: x = name("a", i); t += string(r.chance(1, 2) ? "char " : "int ") + x + sfmt("[%u];\n", 1 + r.below(r.chance(1, 6) ? 5000 : 40)); syms.push_back({ x, "&" + x + "[0]" }); break;
        case 3: x = name("s", i); t += "struct S " + x + (r.chance(1, 2) ? sfmt("[%u]", 1 + r.below(6)) : string()) + ";\n"; syms.push_back({ x, "&" + x }); if (t[t.size() - 3] == ']') syms.back().second += "[0]"; break;
        case 4: x = name("d", i); t += "int " + x + sfmt(" = %u;\n", r.below(30000)); syms.push_back({ x, "&" + x }); break;
        case 5: x = name("t", i); t += "const char " + x + "[] = \"" + string(r.range(0, 30), 'q') + "\";\n"; syms.push_back({ x, "&" + x + "[0]" }); break;
        case 6: x = name("p", i); t += (r.chance(1, 2) ? "int* " : "struct S* ") + x + ";\n"; syms.push_back({ x, "&" + x }); break;
        case 7: x = name("f", i); { string pr = "int " + x + "(int x)"; t += pr + ";\n"; tailText += pr + " { return x" + sfmt(" + %u", r.below(900)) + "; }\n"; ++late; } syms.push_back({ x, x }); break;
        default: x = name("g", i); t += "int " + x + "(int x) { "; for (int k = r.range(0, 6); k--;) t += "x = x * 3 + 1; "; t += r.chance(1, 3) ? "putchar(\"" + string(r.range(1, 9), 'z') + "\"[x]); " : ""; t += "return x; }\n"; syms.push_back({ x, x });
        }
    }
    string m = "void main(void) {\n", list;
    if (r.chance(1, 2)) { t += tailText; tailText.clear(); }
    for (auto& x : syms) { m += "  putn((int)" + x.second + ");\n"; list += x.first + "\n"; }
    m += "}\n"; t += m + tailText; s.files["t.c"] = t; s.str["symbols"] = list;
    if (r.chance(1, 2)) s.num["mode"] = r.chance(1, 2) ? -1 : r.pick({ 1, 2, 7, 64, 100, 511, 512 });
    if (r.chance(1, 6)) { s.num["dos"] = 1; if (r.chance(1, 2)) s.num["irq"] = r.pick({ 5, 50, 2000 }); }
    return s;
}
void execMap(const Scenario& s, Outcome& o) {
    World w; w.sc = &s; w.oc = &o; w.disk.ci = true; w.disk.load(s.files); bool ok; string d;
    if (s.n("dos")) { PcSpec p; p.name = "scc"; p.image = toolCom("scc"); p.tail = " t.c t.com"; p.seed = (u64)s.n("seed"); p.garbage = 3; p.irqEvery = (int)s.n("irq"); p.readMode = (int)s.n("mode"); p.fuel = 400000000ull; if (p.image.empty()) { o.fail("build", "scc.com cannot be built from the working tree"); return; } PcResult x = runPc(w, p); ok = x.ok(); d = x.describe(); }
    else { HostSpec h; h.tool = "scc"; h.args = { "t.c", "t.com" }; h.seed = (u64)s.n("seed"); h.readMode = (int)s.n("mode"); HostResult x = w.run(h); ok = x.ok(); d = x.describe(); }
    if (!ok) { o.fail("rejected", "valid source, " + d); return; }
    auto *c = w.disk.find("t.com"), *m = w.disk.find("t.map"); if (!c || !m) { o.fail("no-output", "the compiler succeeds without writing the executable and the map"); return; }
    World v; v.sc = &s; v.oc = &o; v.disk.ci = true; PcSpec p; p.name = "prog"; p.image = c->data; p.seed = (u64)s.n("seed"); p.garbage = (int)(s.n("seed") & 3); p.irqEvery = (int)s.n("irq"); p.fuel = 100000000ull;
    PcResult x = runPc(v, p); if (!x.ok()) { o.fail("end", "the program ends with " + x.describe()); return; }
    map<string, int> inMap; map<string, string> addr;
    for (auto& l : linesOf(m->data)) { char a[16], nm[128]; if (sscanf(l.c_str(), "%15s %127s", a, nm) == 2) { ++inMap[nm]; addr[nm] = a; } else { o.fail("format", "map line \"" + l + "\""); return; } }
    auto syms = linesOf(s.s("symbols")); size_t at = 0;
    for (auto& l : syms) {
        string nm = l.substr(0, l.find('\n')), real = x.out.substr(std::min(at, x.out.size()), 4); at += 5;
        if (!inMap.count(nm)) { o.fail("missing", "the map leaves out " + nm + " (" + real + " in the running program)"); return; }
        if (inMap[nm] > 1) { o.fail("twice", sfmt("the map names %s %d times", nm.c_str(), inMap[nm])); return; }
        if (strcasecmp(addr[nm].c_str(), real.c_str())) { o.fail("address", "the map has " + nm + " at " + addr[nm] + ", the running program at " + real); return; }
    }
    for (auto& i : inMap) { bool known = false; for (auto& l : syms) known |= l.substr(0, l.find('\n')) == i.first; if (!known) { o.fail("unknown", "the map names " + i.first + ", which the source does not define"); return; } }
    Hash hh; hh.add(hashStr(x.out)); hh.add(x.steps); hh.add((u64)s.n("dos")); o.shape = hh.h; o.nontrivial = syms.size() > 6; o.st.inc("probe.symbols", syms.size());
}
} // namespace
void registerDiagChecks() {
    registerCheck({ "P27", genDiag, execDiag, 80000, 1200000, "seeded valid C and assembly programs and include trees with one rejected construct put at a known line x clutter (comments, blank lines, line ends, padding) x read sizes, host and DOS build, memory, interrupts; distinct by message, operations and build", "scc.c, sas.c, scpp.c of the working tree (host build; every 8th run the DOS build made by the host scc)", "disk, system calls; reference 8086 with DOS", "I/O operations and 8086 instructions" });
    registerCheck({ "P28", genMap, execMap, 60000, 1000000, "seeded programs printing the address of each of their functions and globals x read sizes, host and DOS build x machine state; every printed address compared with the map file; distinct by addresses and instruction count", "scc.c of the working tree (host build; every 6th run the DOS build)", "reference 8086 with DOS, disk, system calls", "8086 instructions and I/O operations" });
}
