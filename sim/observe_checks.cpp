// P33: the simulator's tracing (-v) and profiling (-p) observe a program without changing it and report what
// it did, whatever the map file next to the program contains.
#include "guest.h"
#include "progs.h"
#include "gen.h"
#include "checks.h"
#include "genutil.h"
#include "jobs.h"
namespace {
vector<string> lines(const string& t) { vector<string> v; size_t p = 0; while (p < t.size()) { size_t e = t.find('\n', p); if (e == string::npos) e = t.size(); v.push_back(t.substr(p, e - p)); p = e + 1; } return v; }
// Machine code with every operand form, harmless wherever the operands point; also reports its command tail.
string formsCode(Rng& r, int n) {
    Emit e; auto rm = [&](int reg) { int mod = r.below(4), m = r.below(8); if (mod == 3 && m == 4) m = 6; e.u8_(mod << 6 | reg << 3 | m); if (mod == 1) e.u8_(r.below(256)); else if (mod == 2 || (!mod && m == 6)) e.u16_(r.pick({ 0x8000, 0xFFFF, 0x7FFF, (int)r.below(65536) })); return mod; };
    static const int regs[] = { 0, 1, 2, 3, 5, 6, 7 };
    e.raw({ 0xB4, 0x40 }); e.movi(3, 1); e.movi(1, 128); e.movi(2, 0x80); e.int21(); e.movi(0, 0); // the command tail to the console
    while (n--) {
        int reg = regs[r.below(7)];
        switch (r.below(14)) {
        case 0: e.movi(reg, r.below(65536)); break;
        case 1: case 2: { if (r.chance(1, 3)) e.u8_(0x26 + 8 * r.below(4)); e.u8_(0x8D); int mod = r.below(3), m = r.below(8); e.u8_(mod << 6 | reg << 3 | m); if (mod == 1) e.u8_(r.below(256)); else if (mod == 2 || m == 6) e.u16_(r.pick({ 0x8000, 0xFFFF, 0x7FFF, (int)r.below(65536) })); break; }
        case 3: case 4: if (r.chance(1, 2)) e.u8_(0x26 + 8 * r.below(4)); e.u8_(r.pick({ 0x38, 0x39, 0x3A, 0x3B })); rm(reg); break; // CMP
        case 5: { if (r.chance(1, 2)) e.u8_(0x26 + 8 * r.below(4)); int op = r.pick({ 0x80, 0x81, 0x83 }); e.u8_(op); rm(7); if (op == 0x81) e.u16_(r.below(65536)); else e.u8_(r.below(256)); break; }
        case 6: e.u8_(r.pick({ 0x01, 0x03, 0x29, 0x2B, 0x31, 0x33, 0x21, 0x09 })); e.u8_(0xC0 | (int)regs[r.below(7)] << 3 | reg); break;
        case 7: e.u8_(0xB0 + r.below(8)); e.u8_(r.below(256)); break;
        case 8: e.u8_(r.pick({ 0x90, 0x98, 0x99, 0x40 + reg, 0x48 + reg, 0x93 })); break;
        case 9: e.u8_(0x50 + reg); e.u8_(0x58 + regs[r.below(7)]); break;
        case 10: { e.movi(0, r.below(65536)); e.u8_(0x3D); e.u16_(r.below(65536)); e.u8_(r.pick({ 0x74, 0x75, 0x72, 0x7C, 0x7F, 0xEB })); int k = r.below(3); e.u8_(k); while (k--) e.u8_(0x90); break; }
        case 11: e.raw({ 0xB4, 0x02 }); e.raw({ 0xB2, (int)r.pick({ 0x41, 0x0A, 0x25, 0xC3, 0x07 }) }); e.int21(); e.movi(0, r.below(65536)); break;
        case 12: e.raw({ 0xB1, (int)r.below(20), 0xD3, 0xE0 + (int)r.pick({ 0, 8, 24 }) + reg }); break;
        default: e.u8_(0xA0 + r.below(2)); e.u16_(0x100 + r.below((u32)e.b.size())); break;
        }
    }
    e.raw({ 0xB8, (int)r.below(4), 0x4C }); e.int21(); return e.b;
}
string image(const Scenario& s, string* err) {
    static map<u64, string> cache; auto it = s.files.find("@src"); if (it == s.files.end()) return "";
    if (s.kind == "forms") { string x; auto b = it->second; for (size_t i = 0; i + 1 < b.size(); i += 2) x += (char)strtol(b.substr(i, 2).c_str(), nullptr, 16); return x; }
    u64 key = mix64(hashStr(it->second), hashStr(s.kind), (u64)s.n("exit")); auto i = cache.find(key); if (i != cache.end()) return i->second;
    if (cache.size() > 64) cache.clear();
    string c = s.kind == "asm" ? buildAsm(it->second, err) : s.kind == "file" ? buildCom(fileProgSource(parseFileOps(it->second), (int)s.n("exit")), true, err) : buildCom(it->second, s.kind == "clib" || s.kind == "deep", err);
    return cache[key] = c;
}
string deepProgram(Rng& r) {
    int d = r.pick({ 1, 5, 20, 47, 49, 50, 51, 60, 200 });
    return sfmt("#include \"lib.h\"\nint down(int n, int k) { int a[%d]; a[0] = n; if (!n) return k; return down(n - 1, k + a[0]); }\nint other(int n) { return down(n, %d); }\nint main(void) { int v = other(%d); putchar('A' + v %% 26); putchar('\\n'); return v & 3; }\n", r.range(1, 6), (int)r.below(10), d);
}
string genMap(Rng& r, int imgSize, string* kind) {
    int n; string t; *kind = "good"; string many;
    switch (r.below(12)) { case 0: n = r.pick({ 4094, 4095, 4096, 4097, 5000, 9000 }); many = "large-"; break; case 1: n = 0; break; default: n = r.range(1, 60); }
    std::set<int> at; int top = std::min(0xFFF0, std::max(0x104 + imgSize + 20, n > 60 ? 0xFF00 : 0));
    while ((int)at.size() < n) at.insert(r.range(0x100, std::max(0x101 + n, top)));
    vector<int> v(at.begin(), at.end()); int i = 0;
    for (int a : v) { string nm = r.chance(1, 30) ? string(63, 'n') : r.chance(1, 10) ? "_f" : "s"; if (nm.size() == 63) nm.resize(58); t += sfmt("%04X %s%d\n", a, nm.c_str(), i++); }
    switch (r.below(8)) {
    case 0: *kind = "torn"; t.resize(t.empty() ? 0 : r.below((u32)t.size())); break;
    case 1: *kind = "garbage"; { size_t p = t.empty() ? 0 : r.below((u32)t.size()); int l = r.range(1, 600); string g; for (int k = 0; k < l; ++k) g += (char)r.pick({ 0, ' ', '\n', 'F', '0', '%', 'z', '-', 0xFF, (int)r.below(256) }); t = t.substr(0, p) + g + t.substr(std::min(t.size(), p + (size_t)r.below(50))); } break;
    case 2: if (n > 1 && n < 100) { *kind = "shuffled"; auto l = lines(t); for (size_t k = l.size(); k > 1; --k) std::swap(l[k - 1], l[r.below((u32)k)]); t.clear(); for (auto& x : l) t += x + "\n"; } break;
    case 3: if (n > 0) { *kind = "long-name"; auto l = lines(t); l[r.below((u32)l.size())] += string(r.pick({ 40, 64, 65, 300, 5000 }), 'q'); t.clear(); for (auto& x : l) t += x + "\n"; } break;
    default: break;
    }
    *kind = many + *kind; return t;
}
Scenario genObserve(Rng& r, u64) {
    Scenario s; s.num["fixed"] = 1; s.num["seed"] = (long long)(r.next() >> 1);
    switch (r.below(10)) {
    case 0: { s.kind = "c"; Prog p = genProgram(r, r.range(1, 8), r.below(3), false); s.files["@src"] = p.src; break; }
    case 1: { s.kind = "clib"; Prog p = genProgram(r, r.range(1, 8), r.below(3), true); s.files["@src"] = p.src; break; }
    case 2: { s.kind = "asm"; Prog p = genRunAsm(r, r.range(5, 40)); s.files["@src"] = p.src; break; }
    case 3: case 4: { s.kind = "file"; vector<FileOp> ops; genFileProg(r, s.files, r.range(2, 12), &ops); s.files["@src"] = fileOpsText(ops); s.num["exit"] = r.below(4); break; }
    case 5: s.kind = "deep"; s.files["@src"] = deepProgram(r); break;
    default: { s.kind = "forms"; string c = formsCode(r, r.range(3, 120)), h; for (char x : c) h += sfmt("%02X", (u8)x); s.files["@src"] = h; }
    }
    string a; int n = (int)r.below(4); while (n--) { string x; int l = r.range(1, 12); while (l--) x += (char)r.range(33, 126); if (r.chance(1, 6)) x = r.pick({ "-v", "-p" }); a += x + "\n"; } s.files["@args"] = a;
    string name = r.chance(2, 3) ? "prog.com" : r.pick({ "PROG", "prog.x", "d.x/prog", "d.x/prog.com", ".com", "p.com.com" }); if (r.chance(1, 8)) { name.clear(); int want = r.pick({ 240, 250, 251, 252, 253, 254, 255, 256, 257, 300, 1000 }); while ((int)name.size() < want - 12) name += "directory/"; name += "p"; while ((int)name.size() < want - 4) name += "x"; name += r.chance(1, 4) ? "yyyy" : ".com"; }
    s.str["name"] = name; s.str["opts"] = r.pick({ "-p", "-p", "-p", "-p", "-v", "-p -p", "-p -v", "-v -p" });
    if (r.chance(4, 5)) { string k; s.str["map"] = genMap(r, s.kind == "forms" ? (int)s.files["@src"].size() / 2 : r.range(100, 3000), &k); s.str["mapkind"] = k; }
    s.num["outmode"] = r.below(3); if (r.chance(1, 3)) s.num["mode"] = r.chance(1, 2) ? -1 : r.pick({ 1, 2, 7, 64, 511 });
    if (s.kind == "file" && r.chance(1, 3)) { Fault f; f.op = (int)r.below(1000); f.kind = (FaultKind)r.pick({ F_ERR, F_ERR, F_SHORT, F_ZERO }); f.arg = r.range(1, 300); s.faults.push_back(f); }
    if (r.chance(1, 6)) { s.num["mapfault"] = 1 + r.below(4); }
    return s;
}
// whether the simulator starts the command tail with a blank, as DOS does
bool leadingBlank() {
    static int known = -1; if (known >= 0) return known;
    Emit e; e.raw({ 0xB4, 0x40 }); e.movi(3, 1); e.movi(1, 2); e.movi(2, 0x81); e.int21(); e.raw({ 0xB8, 0, 0x4C }); e.int21();
    World w; w.applyFaults = false; w.disk.put("t.com", e.b); HostSpec h; h.tool = "sim86"; h.args = { "t.com", "A" }; HostResult r = w.run(h);
    return known = r.out.empty() || r.out[0] == ' ';
}
void execObserve(const Scenario& s, Outcome& o) {
    string err, img = image(s, &err); if (img.empty()) { o.fail("build", s.kind + " program cannot be built: " + err); return; }
    vector<string> args; for (auto& x : lines(s.files.count("@args") ? s.files.at("@args") : "")) { string c; for (char ch : x) if ((u8)ch > ' ') c += ch; if (!c.empty()) args.push_back(c); }
    string name = s.s("name"); if (name.empty() || name[0] == '-') name = "prog.com";
    size_t tail = 0; for (auto& x : args) tail += x.size() + 1;
    if (tail > 100) { o.skipped = true; return; }
    map<string, string> files; for (auto& f : s.files) if (f.first[0] != '@') files.insert(f);
    string mapName = name; size_t dot = mapName.rfind('.'); bool mapKnown = dot != string::npos && mapName.find('/', dot) == string::npos; if (mapKnown) mapName = mapName.substr(0, dot) + ".map";
    if (files.count(name) || files.count(mapName)) { o.skipped = true; return; }
    bool hasMap = mapKnown && s.str.count("map");
    if (hasMap) files[mapName] = s.s("map");
    string on = s.s("opts"); vector<string> opts; { string c; for (char ch : on + " ") if (ch == ' ') { if (!c.empty()) opts.push_back(c); c.clear(); } else c += ch; }
    bool prof = on.find("-p") != string::npos, verb = on.find("-v") != string::npos;
    // the program on the 8086: what is executed, and how deep the stack is
    PcResult p; { World w; w.sc = &s; w.disk.ci = true; map<string, string> up; for (auto& f : files) if (f.first != mapName) up.insert(f); w.disk.load(up); PcSpec c; c.name = "prog"; c.image = img; for (auto& x : args) c.tail += (c.tail.empty() && !leadingBlank() ? "" : " ") + x; c.seed = 1; c.garbage = 0; c.fuel = verb ? 20000 : 400000; c.trace = true; p = runPc(w, c); }
    if (p.end != E_EXIT) { o.skipped = true; o.st.inc("probe.too-long-or-invalid"); return; }
    struct Run { HostResult h; map<string, string> d; };
    auto run = [&](bool observe, const vector<Fault>& fs, Outcome* oc) {
        Run b; World w; w.sc = &s; w.oc = oc; w.disk.load(files); w.disk.put(name, img); w.setFaults(fs);
        HostSpec h; h.tool = "sim86"; if (observe) h.args = opts; h.args.push_back(name); for (auto& x : args) h.args.push_back(x); h.seed = (u64)s.n("seed"); h.outMode = (int)s.n("outmode"); h.readMode = (int)s.n("mode");
        h.fuel = 4000 * p.steps + 40000000; b.h = w.run(h); b.d = w.disk.snapshot(); return b;
    };
    auto count = [](const HostResult& h) { int n = 0; for (auto& op : h.ops) if (!op.console) ++n; return n; };
    Run a = run(false, {}, nullptr); if (a.h.end != E_EXIT) { o.skipped = true; o.st.inc("probe.plain-run-fails"); return; }
    int loader = 0; for (auto& op : a.h.ops) { if (op.console) continue; if (op.path != name) break; ++loader; }
    int own = count(a.h) - loader; string ctx; vector<Fault> fs;
    if (!s.faults.empty() && own > 0) {
        for (auto f : s.faults) { int at = f.op % own; int k = 0; const OpRec* op = nullptr; for (auto& x : a.h.ops) { if (x.console) continue; if (k++ == loader + at) op = &x; } if (!op) continue; if (op->kind == OP_WRITE && op->want > 1 && f.kind == F_SHORT) f.arg = 1 + f.arg % (int)(op->want - 1); else if (op->kind == OP_READ && op->got > 1 && f.kind == F_SHORT) f.arg = 1 + f.arg % (int)(op->got - 1); else { f.kind = F_ERR; f.arg = 0; } f.op = loader + at; fs.push_back(f); ctx += sfmt(" [the program's file operation %d: %s]", at, faultNames[f.kind]); }
        a = run(false, fs, nullptr); if (a.h.end != E_EXIT) { o.skipped = true; return; }
        own = count(a.h) - loader;
    }
    bool mapFault = prof && s.n("mapfault"); if (mapFault) { Fault f; f.kind = s.n("mapfault") == 4 ? F_SHORT : F_ERR; f.arg = s.n("mapfault") == 4 ? 1 : 0; f.op = loader + own + (int)(s.n("mapfault") - 1) % 3; fs.push_back(f); ctx += sfmt(" [operation %d on the map file: %s]", (int)(s.n("mapfault") - 1) % 3, faultNames[f.kind]); }
    Run b = run(true, fs, &o);
    Hash hh; hh.add(p.steps); hh.add(hashStr(b.h.out)); hh.add(on); o.shape = hh.h; o.nontrivial = p.steps > 3;
    o.st.inc("probe.kind-" + s.kind); o.st.inc("probe.instructions", p.steps); if (hasMap) o.st.inc("probe.map-" + s.s("mapkind")); o.st.inc("probe.opts " + on);
    string who = "sim86 " + on + " (" + s.kind + " program"; if (hasMap) who += ", " + s.s("mapkind") + " map"; who += ")"; if (name.size() > 40) who += sfmt(" [file name of %zu characters]", name.size()); ctx += " [" + name.substr(0, 30) + "]";
    if (b.h.end != E_EXIT) { o.fail(b.h.end == E_MEM ? "memory" : b.h.end == E_HANG ? "hang" : "crash", who + ": " + b.h.describe() + "; without the option: " + a.h.describe() + ctx); return; }
    if (b.h.code != a.h.code) { o.fail("exit", who + sfmt(": exit status %d, without the option %d", b.h.code, a.h.code) + ctx); return; }
    string why; std::set<string> names; for (auto& x : a.d) names.insert(x.first); for (auto& x : b.d) names.insert(x.first);
    for (auto& n : names) if (!sameFile(a.d, b.d, n, &why)) { o.fail("files", who + ": files differ from those of a run without the option: " + why + ctx); return; }
    { // the program's file operations
        vector<const OpRec*> x, y; for (auto& op : a.h.ops) if (!op.console) x.push_back(&op); for (auto& op : b.h.ops) if (!op.console) y.push_back(&op);
        for (size_t i = 0; i < x.size(); ++i) if (i >= y.size() || x[i]->kind != y[i]->kind || x[i]->path != y[i]->path || x[i]->want != y[i]->want || x[i]->got != y[i]->got) { o.fail("operations", who + sfmt(": file operation %zu is not that of a run without the option", i) + ctx); return; }
        for (size_t i = x.size(); i < y.size(); ++i) if (!prof || y[i]->kind == OP_WRITE || y[i]->kind == OP_CREATE) { o.fail("operations", who + ": additional operation " + opNames[y[i]->kind] + " " + y[i]->path.substr(0, 40) + ctx); return; }
    }
    if (!verb && b.h.out.compare(0, a.h.out.size(), a.h.out)) { o.fail("output", who + ": the program's output with the option: " + diffText(a.h.out, b.h.out) + ctx); return; }
    bool same8086 = s.faults.empty() && a.h.code == p.code && a.h.out == p.out; // else the program saw something else than on the 8086
    if (!same8086) { o.st.inc("probe.not-compared-with-8086"); return; }
    if (verb) {
        size_t n = 0; auto ls = lines(b.h.out); u64 bad = 0;
        for (size_t i = 0; i + 1 < ls.size(); ++i) {
            int v[8]; int seg[4], ip; if (ls[i].compare(0, 3, "AX=")) continue;
            if (sscanf(ls[i].c_str(), "AX=%x BX=%x CX=%x DX=%x SP=%x BP=%x SI=%x DI=%x", v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7) != 8 || sscanf(ls[i + 1].c_str(), "DS=%x ES=%x SS=%x CS=%x IP=%x", seg, seg + 1, seg + 2, seg + 3, &ip) != 5) { ++bad; continue; }
            ++n; if (n >= p.steps_.size()) { if (n > p.steps_.size()) break; continue; }
            auto& q = p.steps_[n]; if (ip != q.ip || v[4] != q.sp || v[5] != q.bp) { o.fail("trace", who + sfmt(": after %zu instructions the trace says IP=%04X SP=%04X BP=%04X, on the 8086 it is IP=%04X SP=%04X BP=%04X", n, ip, v[4], v[5], q.ip, q.sp, q.bp) + ctx); return; }
        }
        if (bad || n != p.steps_.size() - 1) { o.fail("trace", who + sfmt(": the trace shows %zu states, the program executes %zu instructions", n, p.steps_.size()) + ctx); return; }
        o.st.inc("probe.traces");
    }
    if (!prof) return;
    size_t at = b.h.out.rfind("\nFilesize;Total cylces;Stack low;_EBSS\n"); if (at == string::npos) at = b.h.out.rfind("\nFilesize;"); if (at == string::npos) { o.fail("report", who + ": no report" + ctx); return; }
    if (!verb && at != a.h.out.size()) { o.fail("output", who + ": text between the program's output and the report: " + quote(b.h.out.substr(a.h.out.size(), at - a.h.out.size())) + ctx); return; }
    vector<string> ls = lines(b.h.out.substr(at + 1)); size_t i = 1; int fsz, low, ebss; unsigned long long total, sum = 0;
    if (ls.size() < 6 || sscanf(ls[1].c_str(), "%d;%llu;%d;%d", &fsz, &total, &low, &ebss) != 4) { o.fail("report", who + ": no totals in the report" + ctx); return; }
    if (fsz != (int)img.size()) { o.fail("report", who + sfmt(": program size %d, it is %zu", fsz, img.size()) + ctx); return; }
    if (low != p.minSp) { o.fail("report", who + sfmt(": lowest stack pointer %04X, it is %04X", low, p.minSp) + ctx); return; }
    vector<std::pair<int, string>> sym; sym.push_back({ 0, "@@start" }); bool checkNames = !mapFault && (!hasMap || s.s("mapkind") == "good"); if (mapKnown == false && s.str.count("map")) checkNames = true;
    if (hasMap && checkNames) for (auto& l : lines(s.s("map"))) { unsigned v; char nm[80]; if (sscanf(l.c_str(), "%4X %63s", &v, nm) == 2) sym.push_back({ (int)v, nm }); }
    auto nameOf = [&](int addr) { size_t k = 0; while (k + 1 < sym.size() && sym[k + 1].first <= addr) ++k; return sfmt("%s+0x%X", sym[k].second.c_str(), addr - sym[k].first); };
    if (checkNames && ebss != sym.back().first) { o.fail("report", who + sfmt(": last symbol at %04X, the report says %04X", sym.back().first, ebss) + ctx); return; }
    while (i < ls.size() && ls[i] != "Count;Address;Name;Instruction") ++i;
    std::set<int> want, got; for (auto& q : p.steps_) want.insert(q.ip); map<string, unsigned long long> per;
    for (++i; i < ls.size() && !ls[i].empty(); ++i) {
        unsigned long long c; unsigned ad; char nm[200] = ""; size_t pos = ls[i].rfind(';') + 1; int f3 = sscanf(ls[i].c_str(), "%llu;0x%X;%150[^;]", &c, &ad, nm);
        if (checkNames ? f3 != 3 || std::count(ls[i].begin(), ls[i].end(), ';') != 3 : f3 < 2) { o.fail("report", who + ": odd line " + quote(ls[i]) + ctx); return; }
        string text = ls[i].substr(pos); if (!got.insert((int)ad).second) { o.fail("report", who + sfmt(": address %04X appears twice", ad) + ctx); return; }
        if (text.empty() || text.size() > 48 || std::count(text.begin(), text.end(), '[') != std::count(text.begin(), text.end(), ']') || std::count(text.begin(), text.end(), '[') > 1) { o.fail("text", who + sfmt(": instruction at %04X shown as ", ad) + quote(text) + ctx); return; }
        if (checkNames && nm != nameOf((int)ad)) { o.fail("names", who + sfmt(": address %04X is %s, the report says %s", ad, nameOf((int)ad).c_str(), nm) + ctx); return; }
        string f = nm; f = f.substr(0, f.rfind('+')); per[f] += c; sum += c; if (!c) { o.fail("report", who + ": count 0 in the report" + ctx); return; }
    }
    if (!got.count(p.steps_.back().ip)) want.erase(p.steps_.back().ip); // the call that ends the program never completes
    if (got != want) { int d = -1; for (int x : want) if (!got.count(x)) { d = x; break; } bool miss = d >= 0; if (!miss) for (int x : got) if (!want.count(x)) { d = x; break; } o.fail("executed", who + sfmt(": %04X %s", d, miss ? "was executed, but isn't in the report" : "is in the report, but wasn't executed") + ctx); return; }
    if (sum != total) { o.fail("report", who + sfmt(": counts add up to %llu, the total says %llu", sum, total) + ctx); return; }
    while (i < ls.size() && ls[i] != "Count;Function") ++i;
    map<string, unsigned long long> fn; for (++i; i < ls.size() && !ls[i].empty(); ++i) { unsigned long long c; char nm[100] = ""; if (sscanf(ls[i].c_str(), "%llu;%90s", &c, nm) != 2 && checkNames) { o.fail("report", who + ": odd line " + quote(ls[i]) + ctx); return; } fn[nm] += c; }
    if (checkNames && fn != per) { o.fail("report", who + ": the functions' counts aren't those of their instructions" + ctx); return; }
    while (i < ls.size() && ls[i] != "BP;Return address;Size;Symbol") ++i;
    size_t k = 0; for (++i; i < ls.size(); ++i) {
        if (ls[i].empty()) continue; unsigned bp, ra; int size; char nm[200] = ""; if (sscanf(ls[i].c_str(), "0x%X;0x%X;%d;%150s", &bp, &ra, &size, nm) < (checkNames ? 4 : 3)) { o.fail("report", who + ": odd line " + quote(ls[i]) + ctx); return; }
        if (k >= p.stack.size() || p.stack[k].first != bp || p.stack[k].second != ra) { o.fail("stack", who + sfmt(": stack frame %zu has BP=%04X, address %04X", k, bp, ra) + (k < p.stack.size() ? sfmt("; on the 8086 it is BP=%04X, address %04X", p.stack[k].first, p.stack[k].second) : string("; there is none")) + ctx); return; }
        if (checkNames && nm != nameOf((int)ra)) { o.fail("names", who + sfmt(": stack frame %zu's address %04X is %s, the report says %s", k, ra, nameOf((int)ra).c_str(), nm) + ctx); return; }
        ++k; if (bp < p.minSp || bp >= 0xFFFC) { k = p.stack.size(); break; } // not a frame on the stack: memory in which the machines may differ
    }
    if (k != p.stack.size()) { o.fail("stack", who + sfmt(": %zu stack frames in the report, %zu on the 8086", k, p.stack.size()) + ctx); return; }
    o.st.inc("probe.reports");
}
} // namespace
void registerObserveChecks() {
    registerCheck({ "P33", genObserve, execObserve, 16000, 600000, "seeded C, assembly, file, deeply recursive and all-operand-form programs x tracing and profiling options, map files (none, right, torn, garbage, more symbols than the table, long names, failing or short operations on it), file names, file faults at the same operation, read splits and output buffering; distinct by option, output and instruction count", "sim86.c of the working tree (host build, with the real stdio of the C library); programs built by the real scpp, scc, sas and lib.h", "reference 8086 (executed addresses, stack), host system calls, disk", "8086 instructions (probe.instructions) and host operations" });
}
