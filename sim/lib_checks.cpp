// P20: programs using the DOS runtime library (lib.h) on the reference machine.
#include "progs.h"
#include "jobs.h"
#include "checks.h"
namespace {
enum { NBUF = 3000 };
struct LOp { char k = 0; int slot = 0, a = 0, b = 0; string name; };
// O slot name | C slot name | R slot off n | W slot off n | X slot | T | r/w handle off n (raw) | x handle
vector<LOp> parse(const string& t) {
    vector<LOp> v; size_t p = 0;
    while (p < t.size() && v.size() < 60) {
        size_t e = t.find('\n', p); if (e == string::npos) e = t.size();
        string l = t.substr(p, e - p); p = e + 1; LOp o; char nm[64] = ""; if (l.empty()) continue; o.k = l[0];
        const char* c = l.c_str() + 1;
        switch (o.k) {
        case 'O': case 'C': { if (sscanf(c, "%d %63s", &o.slot, nm) != 2) continue; o.name = nm; bool ok = !o.name.empty(); for (char ch : o.name) if (!isalnum((u8)ch) && ch != '.') ok = false; if (!ok) continue; break; }
        case 'R': case 'W': if (sscanf(c, "%d %d %d", &o.slot, &o.a, &o.b) != 3 || o.a < 0 || o.b < 0 || o.a + o.b > NBUF) continue; break;
        case 'r': case 'w': if (sscanf(c, "%d %d %d", &o.slot, &o.a, &o.b) != 3 || o.a < 0 || o.b < 0 || o.a + o.b > NBUF || o.slot < 32 || o.slot > 65535) continue; break;
        case 'X': if (sscanf(c, "%d", &o.slot) != 1) continue; break;
        case 'x': if (sscanf(c, "%d", &o.slot) != 1 || o.slot < 32 || o.slot > 65535) continue; break;
        case 'T': break;
        default: continue;
        }
        if (!strchr("rwx", o.k) && (o.slot < 0 || o.slot > 3)) continue;
        v.push_back(o);
    }
    return v;
}
string source(const vector<LOp>& ops, int code, int style, int odd) {
    string t = "#include \"lib.h\"\n";
    t += "int h0; int h1; int h2; int h3; int r;\nchar buf[3000];\nint zeros[100];\nstruct Z { int a; char b; char* p; struct Z* n; };\nstruct Z zs[5]; struct Z* zp; unsigned zu; char zc;\nint one = 1; const char text[] = \"initialised\";\n";
    if (odd) t += "char odd[" + sfmt("%d", odd) + "];\n";
    t += "void putx(int v) { int i; for (i = 0; i < 4; ++i) { raw_putchar(\"0123456789abcdef\"[(v>>12)&0xf]); v <<= 4; } raw_putchar(' '); }\n"
         "int sum(void) { int s = 0; int i; for (i = 0; i < 3000; ++i) s = (s<<1) + ((s>>15)&1) + (buf[i]&0xff); return s; }\n"
         "int nonzero(char* p, int n) { int k = 0; while (n--) if (*p++) ++k; return k; }\n";
    t += "int main(int argc, char** argv)\n{\n    int i; int nz = 0;\n    nz = nonzero((char*)zeros, sizeof(zeros)) + nonzero(buf, sizeof(buf)) + nonzero((char*)zs, sizeof(zs));\n"
         "    if (zp) ++nz; if (zu) ++nz; if (zc) ++nz; if (h0) ++nz; if (h1) ++nz; if (h2) ++nz; if (h3) ++nz; if (r) ++nz;\n    " + string(odd ? "nz = nz + nonzero(odd, sizeof(odd)); " : "") + "putx(nz); putx(one); putx(strlen(text));\n"
         "    putx(argc);\n    for (i = 1; i < argc; ++i) { const char* s = argv[i]; while (*s) raw_putchar(*s++); raw_putchar(1); }\n    putx(argv[argc] == 0);\n"
         "    for (i = 0; i < 3000; ++i) buf[i] = i*7;\n";
    for (auto& o : ops) switch (o.k) {
    case 'O': t += sfmt("    h%d = open(\"%s\", O_RDONLY | O_BINARY); putx(h%d);\n", o.slot, o.name.c_str(), o.slot); break;
    case 'C': t += sfmt("    h%d = open(\"%s\", O_CREAT | O_WRONLY | O_TRUNC | O_BINARY, 0600); putx(h%d);\n", o.slot, o.name.c_str(), o.slot); break;
    case 'R': t += sfmt("    r = read(h%d, buf + %d, %d); putx(r); putx(sum());\n", o.slot, o.a, o.b); break;
    case 'W': t += sfmt("    r = write(h%d, buf + %d, %d); putx(r);\n", o.slot, o.a, o.b); break;
    case 'X': t += sfmt("    r = close(h%d); putx(r);\n", o.slot); break;
    case 'r': t += sfmt("    putx(read(%d, buf + %d, %d)); putx(sum());\n", o.slot, o.a, o.b); break;
    case 'w': t += sfmt("    putx(write(%d, buf + %d, %d));\n", o.slot, o.a, o.b); break;
    case 'x': t += sfmt("    putx(close(%d));\n", o.slot); break;
    case 'T': t += "    putx(clock());\n"; break;
    }
    if (style == 1) return t + sfmt("    exit(%d);\n}\n", code);
    return t + sfmt("    return %d;\n}\n", code);
}
Scenario gen(Rng& r, u64) {
    Scenario s; s.kind = "lib";
    s.num["seed"] = (long long)(r.next() >> 1); s.num["garbage"] = r.pick({ 0, 1, 2, 3, 3, 3 }); if (r.chance(1, 2)) s.num["irq"] = r.pick({ 3, 20, 200, 2000, 20000 });
    if (r.chance(1, 2)) s.num["mode"] = r.chance(1, 2) ? -1 : r.pick({ 1, 2, 7, 64, 100, 511, 512 });
    s.num["ticks"] = r.chance(1, 4) ? r.pick({ 0, 0xFFFF, 0x7FFF, 0x8000, 0xFFFE, 0x1800AF, 0x1800B0 }) : (int)r.below(0x1800B0); s.num["tickEvery"] = r.pick({ 50, 500, 3000, 20000, 20000 });
    s.num["exit"] = r.chance(1, 6) ? r.pick({ 0, 255, 256, -1, 0x4C00, 300, 32767, -256 }) : (int)r.below(256); s.num["style"] = r.below(2); if (r.chance(1, 2)) s.num["odd"] = r.chance(1, 12) ? r.range(1000, 12000) : r.range(1, 5);
    vector<string> ins, outs; int ni = r.range(1, 3), no = r.range(1, 2);
    for (int i = 0; i < ni; ++i) { string n = sfmt("IN%d.TXT", i); int sz = r.pick({ 0, 1, r.range(2, 300), r.range(2, 5000), 512, 3000, 513 }); string d; for (int k = 0; k < sz; ++k) d += (char)(r.next() >> 20); s.files[n] = d; ins.push_back(n); }
    for (int i = 0; i < no; ++i) { string n = sfmt("OUT%d.BIN", i); if (r.chance(1, 2)) { string d; int sz = r.range(0, 700); for (int k = 0; k < sz; ++k) d += (char)(r.next() >> 20); s.files[n] = d; } outs.push_back(n); }
    struct S { int st = 0; string n; } h[4]; string t; int nops = r.range(1, 25), nf = 0;
    auto span = [&](int& off, int& n) { n = r.chance(1, 10) ? r.range(1000, NBUF) : r.pick({ 0, 1, 2, r.range(1, 40), r.range(1, 1000), 512, 511, 1000 }); off = (int)r.below((u32)(NBUF + 1 - n)); };
    for (int i = 0; i < nops; ++i) {
        int sl = (int)r.below(4), off, n; S& x = h[sl];
        u32 q = r.below(20);
        if (q == 0) { t += "T\n"; continue; }
        if (q == 1) { span(off, n); int bad = r.pick({ 32, 99, 255, 256, 1000, 0x7FFF, 0x8000, 0xFFFF, 0xFFFE }); switch (r.below(3)) { case 0: t += sfmt("r %d %d %d\n", bad, off, n); break; case 1: t += sfmt("w %d %d %d\n", bad, off, n); break; default: t += sfmt("x %d\n", bad); } ++nf; continue; }
        if (q == 2 && !x.st) { t += sfmt("%c %d MISSING\n", 'O', sl); ++nf; continue; }
        if (x.st == 0) {
            if (r.chance(1, 2)) { t += sfmt("O %d %s\n", sl, ins[r.below((u32)ins.size())].c_str()); x.st = 1; }
            else { string nm = outs[r.below((u32)outs.size())]; bool used = false; for (auto& y : h) if (y.st && y.n == nm) used = true; if (used) continue; t += sfmt("C %d %s\n", sl, nm.c_str()); x.st = 2; x.n = nm; }
        } else if (r.chance(1, 5)) { t += sfmt("X %d\n", sl); x = S(); }
        else { span(off, n); t += sfmt("%c %d %d %d\n", x.st == 1 ? 'R' : 'W', sl, off, n); }
        ++nf;
    }
    for (int i = 0; i < 4; ++i) if (h[i].st && r.chance(3, 4)) { t += sfmt("X %d\n", i); ++nf; }
    s.files["@ops"] = t;
    string tail; int na = r.chance(1, 3) ? 0 : r.chance(1, 5) ? r.range(15, 63) : r.range(1, 6); bool tiny = na > 12;
    while (na--) { string a = r.chance(1, 8) ? " \t" : r.chance(1, 10) ? "   " : " "; if (tail.empty() && r.chance(1, 12)) a = ""; int l = tiny ? (r.chance(1, 8) ? 2 : 1) : r.chance(1, 12) ? r.range(20, 100) : r.range(1, 12); while (l--) a += r.chance(1, 15) ? (char)r.range(128, 255) : (char)r.range(33, 126); if (tail.size() + a.size() > 126) break; tail += a; }
    if (r.chance(1, 5) && tail.size() < 126) tail += r.chance(1, 2) ? " " : "\t";
    s.files["@tail"] = tail;
    int f = r.pick({ 0, 1, 1, 1, 2, 4 });
    while (f-- > 0 && nf) { Fault x; x.op = (int)r.below((u32)nf); x.kind = (FaultKind)r.pick({ F_ERR, F_ERR, F_SHORT, F_ZERO }); x.arg = r.range(1, 600); s.faults.push_back(x); }
    if (r.chance(1, 12)) s.num["fds"] = r.range(1, 3);
    if (r.chance(1, 10)) s.num["capacity"] = 1 + (long long)r.below(3000);
    return s;
}
void exec(const Scenario& s, Outcome& o) {
    auto ops = parse(s.files.count("@ops") ? s.files.at("@ops") : ""); int code = (int)(short)s.n("exit");
    string src = source(ops, code, (int)s.n("style"), (int)(s.n("odd") & 0x3FFF)), err, img;
    img = buildCom(src, true, &err);
    if (img.empty()) { o.fail("build", "program using the library is rejected: " + err); return; }
    map<string, string> files; for (auto& f : s.files) if (f.first[0] != '@') files[f.first] = f.second;
    World w; w.sc = &s; w.oc = &o; w.disk.ci = true; w.disk.load(files); w.setFaults(s.faults);
    if (s.n("capacity") > 0) w.disk.capacity = w.disk.used() + s.n("capacity");
    string tail = s.files.count("@tail") ? s.files.at("@tail") : ""; if (tail.size() > 126) tail.resize(126);
    for (char& c : tail) if (!c || c == '\r' || c == '\n') c = ' ';
    PcSpec p; p.name = "prog"; p.image = img; p.tail = tail; p.seed = (u64)s.n("seed"); p.garbage = (int)s.n("garbage"); p.irqEvery = (int)s.n("irq"); p.readMode = (int)s.n("mode");
    p.ticks0 = (u32)s.n("ticks"); p.tickEvery = (int)std::max(20ll, s.n("tickEvery", 20000)); p.fuel = 200000000; if (s.n("fds")) p.maxFds = (int)s.n("fds");
    PcResult r = runPc(w, p);
    Hash hh; for (auto& d : r.calls) { hh.add(d.ah); hh.add(d.rax * 2 + d.cf); } hh.add(hashStr(tail)); o.shape = hh.h; o.nontrivial = !ops.empty();
    string ctx = faultText(s);
    if (r.end != E_EXIT) { o.fail("end", "program using the library: " + r.describe() + ctx); return; }
    // what it must have printed, from the calls DOS saw
    size_t at = 0; bool bad = false; string what;
    auto num = [&](const char* name) -> int {
        if (bad) return 0;
        if (at + 5 > r.out.size() || r.out[at + 4] != ' ') { bad = true; what = string("no number where the program prints ") + name; return 0; }
        int v = 0; for (int i = 0; i < 4; ++i) { char c = r.out[at + i]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; if (d < 0) { bad = true; what = string("no number where the program prints ") + name; return 0; } v = v * 16 + d; }
        at += 5; return v;
    };
    vector<string> args; { string c; for (char ch : tail + " ") { if ((u8)ch <= ' ') { if (!c.empty()) args.push_back(c); c.clear(); } else c += ch; } }
    bool high = false; for (char c : tail) if ((u8)c >= 128) high = true;
    int nz = num("the number of non-zero static bytes"); if (!bad && nz) { o.fail("bss", sfmt("%d bytes of static data without initialiser are not zero at the start", nz) + ctx); return; }
    int one = num("an initialised variable"), tl = num("the length of an initialised string"); if (!bad && (one != 1 || tl != 11)) { o.fail("data", "initialised static data is wrong" + ctx); return; }
    if (high) { // lib.h treats bytes above 127 as blanks or as letters: only what cannot depend on that
        o.st.inc("probe.high-bytes"); size_t e = r.out.rfind(ops.empty() ? "0001 " : "\x01" "0001 ", string::npos); (void)e;
        // find the end of the argument list: the program prints argc, the arguments and 0001
        int argc = num("argc"); string rest; for (int i = 1; !bad && i < argc; ++i) { size_t q = r.out.find('\x01', at); if (q == string::npos) { bad = true; break; } at = q + 1; }
    } else {
        int argc = num("argc");
        if (!bad && argc != (int)args.size() + 1) { o.fail("args", sfmt("command tail ") + quote(tail) + sfmt(" gives argc=%d, %zu expected", argc, args.size() + 1) + ctx); return; }
        for (size_t i = 0; !bad && i < args.size(); ++i) {
            size_t q = r.out.find('\x01', at); string got = q == string::npos ? "" : r.out.substr(at, q - at);
            if (got != args[i]) { o.fail("args", "command tail " + quote(tail) + sfmt(": argument %zu is ", i + 1) + quote(got) + ", expected " + quote(args[i]) + ctx); return; }
            at = q + 1;
        }
    }
    int nul = num("argv[argc]==0"); if (!bad && nul != 1) { o.fail("args", "argv is not ended by a null pointer" + ctx); return; }
    string buf(NBUF, 0); for (int i = 0; i < NBUF; ++i) buf[i] = (char)(i * 7);
    auto sum = [&]() { u16 v = 0; for (char c : buf) v = (u16)((v << 1) + (v >> 15) + (u8)c); return (int)v; };
    int h[4] = { 0, 0, 0, 0 }; struct F { string name; size_t pos = 0; bool wr = false; }; map<int, F> open; map<string, string> content = files; size_t call = 0; u64 lastStep = 0;
    for (size_t i = 0; i < ops.size() && !bad; ++i) {
        auto& op = ops[i]; string w1 = sfmt("operation %zu (%c %d %s)", i + 1, op.k, op.slot, op.name.c_str());
        if (op.k == 'T') {
            int v = num("the clock"); u64 hi = call < r.calls.size() ? r.calls[call].step : r.steps;
            u32 t0 = p.ticks0 + (u32)(lastStep / (u64)p.tickEvery), t1 = p.ticks0 + (u32)(hi / (u64)p.tickEvery) + 1; bool ok = false;
            for (u32 t = t0; t != t1 + 1; ++t) if ((u16)t == v) ok = true;
            if (t1 - t0 >= 0xFFFF) ok = true;
            if (!bad && !ok) { o.fail("clock", w1 + sfmt(": clock() gave %04X, the BIOS tick count was between %04X and %04X", v, t0 & 0xFFFF, t1 & 0xFFFF) + ctx); return; }
            continue;
        }
        if (call >= r.calls.size()) { o.fail("calls", w1 + ": no DOS call was made" + ctx); return; }
        auto& d = r.calls[call++]; lastStep = d.step;
        bool raw = strchr("rwx", op.k); char K = raw ? (char)(op.k - 32) : op.k; int ah = K == 'O' ? 0x3D : K == 'C' ? 0x3C : K == 'R' ? 0x3F : K == 'W' ? 0x40 : 0x3E;
        if (d.ah != ah) { o.fail("calls", w1 + sfmt(": DOS function %02X was called", d.ah) + ctx); return; }
        if (K == 'O' || K == 'C') {
            if (d.path != op.name) { o.fail("calls", w1 + ": DOS got the name " + quote(d.path) + ctx); return; }
            if (K == 'O' && (d.ax & 0xFF)) { o.fail("calls", w1 + sfmt(": opened with mode %02X", d.ax & 0xFF) + ctx); return; }
            if (K == 'C' && d.cx) { o.fail("calls", w1 + sfmt(": created with attributes %04X", d.cx) + ctx); return; }
            int v = num("a handle"); h[op.slot] = v; if (bad) break;
            if (d.cf ? !(v & 0x8000) : v != d.rax) { o.fail("result", w1 + sfmt(": open returned %04X, DOS %s %04X", v, d.cf ? "reported error" : "gave handle", d.rax) + ctx); return; }
            if (!d.cf) { F f; f.name = op.name; f.wr = K == 'C'; open[v] = f; if (K == 'C') content[op.name].clear(); }
            continue;
        }
        int hd = raw ? op.slot : h[op.slot];
        if (d.bx != hd) { o.fail("calls", w1 + sfmt(": handle %04X became %04X", hd, d.bx) + ctx); return; }
        if (K == 'X') {
            int v = num("the result of close"); if (!bad && (d.cf ? !v : v)) { o.fail("result", w1 + sfmt(": close returned %04X, DOS %s", v, d.cf ? "reported an error" : "succeeded") + ctx); return; }
            if (d.rax != 6 || !d.cf) open.erase(hd); else { auto it = open.find(hd); if (it != open.end()) open.erase(it); }
            continue;
        }
        if (d.cx != op.b) { o.fail("calls", w1 + sfmt(": DOS was asked for %u bytes, the program for %d", d.cx, op.b) + ctx); return; }
        int v = num("a byte count"); if (bad) break;
        if (d.cf ? !(v & 0x8000) : v != d.rax) { o.fail("result", w1 + sfmt(": returned %04X, DOS %s %04X", v, d.cf ? "reported error" : "transferred", d.rax) + ctx); return; }
        auto it = open.find(hd);
        if (K == 'R') {
            if (!d.cf && it != open.end()) { auto& c = content[it->second.name]; for (int k = 0; k < d.rax; ++k) buf[(size_t)(op.a + k)] = c[it->second.pos + (size_t)k]; it->second.pos += d.rax; if (d.rax == 0 && op.b && it->second.pos < c.size()) { o.fail("model", w1 + ": reference machine ended a file early"); return; } }
            int q = num("a checksum"); if (!bad && q != sum()) { o.fail("memory", w1 + ": the buffer does not hold what was read" + ctx); return; }
        } else if (!d.cf && it != open.end()) {
            auto& c = content[it->second.name]; if (op.b == 0) c.resize(it->second.pos); else { if (c.size() < it->second.pos + d.rax) c.resize(it->second.pos + d.rax); c.replace(it->second.pos, d.rax, buf, (size_t)op.a, d.rax); it->second.pos += d.rax; }
        }
    }
    if (bad) { o.fail("output", what + ": " + quote(r.out.substr(at)) + ctx); return; }
    if (at != r.out.size()) { o.fail("output", "extra output " + quote(r.out.substr(at)) + ctx); return; }
    if (call != r.calls.size()) { o.fail("calls", sfmt("%zu DOS calls instead of %zu", r.calls.size(), call) + ctx); return; }
    if (r.code != (code & 0xFF)) { o.fail("exit", sfmt("the program's exit code is %d, DOS got %d", code, r.code) + ctx); return; }
    auto disk = w.disk.snapshot(); string why;
    std::set<string> names; for (auto& f : content) names.insert(f.first); for (auto& f : disk) names.insert(f.first);
    for (auto& n : names) if (!sameFile(content, disk, n, &why)) { o.fail("files", "files are not what the calls transferred: " + why + ctx); return; }
}
} // namespace
void registerLibChecks() {
    registerCheck({ "P20", gen, exec, 16000, 300000, "seeded histories of library calls, command tails and clock values x DOS errors, short transfers, full disk, handle limit, memory and register garbage, interrupts; distinct by DOS call/result sequence and command tail", "lib.h of the working tree inside programs built by the host scpp and scc, executed instruction by instruction", "8086 processor, DOS services, disk, interrupts and initial memory (reference machine)", "8086 instructions (probe.instructions) and DOS calls" });
}
