// P15-P18: the simulator (host build) against DOS reference behaviour.
#include "guest.h"
#include "progs.h"
#include "jobs.h"
#include "checks.h"
#include <sstream>
namespace {
string hexr(u16 v) { return sfmt("%04X", v); }
string opText(const GOp& o, int i) {
    string t = sfmt("call %d (", i + 1);
    switch (o.k) {
    case 'C': return t + "create \"" + o.name.substr(0, 100) + "\")";
    case 'O': return t + "open \"" + o.name.substr(0, 100) + "\")";
    case 'R': case 'r': return t + sfmt("read %d bytes to %s:%04X)", o.cx, o.seg ? "other segment" : "DS", o.dx);
    case 'W': case 'w': return t + sfmt("write %d bytes from %s:%04X)", o.cx, o.seg ? "other segment" : "DS", o.dx);
    default: return t + "close)";
    }
}
map<string, string> visible(const Scenario& s) { map<string, string> m; for (auto& f : s.files) if (f.first[0] != '@') m.insert(f); return m; }

// Split the host operations of a run into those of each scripted call (markers are opens of MK<n>).
bool splitOps(const HostResult& r, size_t n, vector<vector<OpRec>>& per, size_t* loader) {
    per.assign(n, {}); long at = -1; size_t idx = 0; *loader = 0; bool seen = false;
    for (auto& op : r.ops) {
        if (op.console || op.path == "DUMP") { if (!op.console) ++idx; continue; }
        if (op.kind == OP_OPEN && op.path == sfmt("MK%ld", at + 1)) { ++at; if (!seen) { seen = true; *loader = idx; } ++idx; continue; }
        ++idx;
        if (at >= 0 && at < (long)n) per[(size_t)at].push_back(op);
        else if (at >= (long)n) return false; // file operations nobody asked for
    }
    return at == (long)n;
}
struct MH { string name; size_t pos = 0; bool wr = false; };

// ---------------------------------------------------------------- P15
HostSpec simSpec(const Scenario& s, const vector<string>& args, int proc = 0) {
    HostSpec h; h.tool = "sim86"; h.args = args; h.proc = proc; h.seed = (u64)s.n("seed"); h.outMode = (int)s.n("outmode"); h.outChunk = (int)s.n("outchunk"); h.readMode = (int)s.n("mode");
    return h;
}
size_t countOps(const HostResult& r) { size_t n = 0; for (auto& o : r.ops) if (!o.console) ++n; return n; }
Scenario genDosCalls(Rng& r, u64) {
    Scenario s; s.kind = "dos-calls";
    s.files["@script"] = genScript(r, s.files, r.range(3, r.chance(1, 4) ? 60 : 25), false);
    s.num["seed"] = (long long)(r.next() >> 1); s.num["exit"] = r.below(256);
    if (r.chance(1, 2)) s.num["mode"] = r.chance(1, 2) ? -1 : r.pick({ 1, 7, 100, 4096, 511, 512, 16384 });
    s.num["outmode"] = r.below(3);
    if (r.chance(1, 3)) return s;
    if (r.chance(1, 8)) { s.num["capacity"] = 1 + (long long)r.below(3000); return s; }
    Guest g = buildGuest(s.files["@script"], (u64)s.n("seed"), (int)s.n("exit")); if (!g.ok) return s;
    World w; w.applyFaults = false; w.disk.load(visible(s)); w.disk.put("G.COM", g.image);
    HostResult ref = w.run(simSpec(s, { "G.COM" }));
    vector<const OpRec*> ops; for (auto& o : ref.ops) if (!o.console) ops.push_back(&o);
    vector<int> cand; bool started = false;
    for (size_t i = 0; i < ops.size(); ++i) { if (ops[i]->path.rfind("MK", 0) == 0) { started = true; continue; } if (started && ops[i]->path != "DUMP") cand.push_back((int)i); }
    if (cand.empty()) return s;
    int n = r.pick({ 1, 1, 1, 2, 3, 5 });
    while (n--) {
        int at = cand[r.below((u32)cand.size())]; Fault f; f.op = at; f.kind = F_ERR; f.arg = (int)r.below(24);
        auto& op = *ops[(size_t)at];
        if (op.kind == OP_WRITE && op.want > 0) { u32 k = r.below(4); if (k < 2 && op.want > 1) { f.kind = F_SHORT; f.arg = r.chance(1, 3) ? (int)op.want - 1 : 1 + (int)r.below((u32)op.want - 1); } else if (k == 2) f.kind = F_ZERO; }
        else if (op.kind == OP_READ && op.got > 1 && r.chance(1, 2)) { f.kind = F_SHORT; f.arg = 1 + (int)r.below((u32)op.got - 1); }
        s.faults.push_back(f);
    }
    return s;
}
void execDosCalls(const Scenario& s, Outcome& o) {
    auto it = s.files.find("@script"); if (it == s.files.end()) { o.skipped = true; return; }
    Guest g = buildGuest(it->second, (u64)s.n("seed"), (int)s.n("exit"));
    if (!g.ok) { o.skipped = true; return; }
    World w; w.sc = &s; w.oc = &o; w.setFaults(s.faults);
    auto disk = visible(s); disk["G.COM"] = g.image; w.disk.load(disk); w.disk.free = "DUMP";
    if (s.n("capacity") > 0) w.disk.capacity = w.disk.used() + s.n("capacity") - 1;
    HostSpec h = simSpec(s, { "G.COM" });
    HostResult r = w.run(h);
    u64 sh = 7; for (auto& op : r.ops) if (!op.console) sh = mix64(sh ^ (u64)op.kind, (u64)op.got, (u64)op.want);
    o.shape = sh; o.nontrivial = g.ops.size() > 0;
    if (r.end != E_EXIT) { o.fail("end", "sim86 " + r.describe().substr(0, 400)); return; }
    string dump; { auto* d = w.disk.find("DUMP"); if (d) dump = d->data; }
    GReport rep = parseReport(g, r.out, dump);
    vector<vector<OpRec>> per; size_t loader;
    if (!splitOps(r, g.ops.size(), per, &loader)) { o.fail("calls", "the program's DOS calls do not all reach the host (in order): " + r.describe().substr(0, 400)); return; }
    if (!rep.complete) { o.fail("report", sfmt("the program's own record is incomplete (%zu of %zu calls)", rep.calls.size(), g.ops.size())); return; }
    if (r.code != g.exitCode) { o.fail("exit", sfmt("program ended with exit code %d, simulator with %d", g.exitCode, r.code)); return; }
    // replay against the model
    map<u16, MH> tab; u16 slot[8]; for (int i = 0; i < 8; ++i) slot[i] = (u16)(0xEEE0 + i);
    string mem[4]; mem[0] = g.pattern; for (int k = 1; k < 4; ++k) if (g.ext[k]) { mem[k].assign(0x10000, (char)k); }
    string ctx = faultText(s);
    for (size_t i = 0; i < g.ops.size(); ++i) {
        auto& op = g.ops[i]; auto& c = rep.calls[i]; auto& b = g.before[i]; auto& ops = per[i];
        string who = opText(op, (int)i);
        u16 ax = c.after.r[AX]; bool cf = c.after.f[0];
        auto bad = [&](const char* cls, const string& m) { o.fail(cls, who + ": " + m + ctx); };
        long sum = 0; bool anyErr = false, lastErr = false, anyShort = false; string opened;
        for (auto& x : ops) {
            if (x.got < 0) { anyErr = lastErr = true; } else { lastErr = false; if (x.kind == OP_READ || x.kind == OP_WRITE) sum += x.got; if ((x.kind == OP_OPEN || x.kind == OP_CREATE)) opened = x.path; }
            if (x.kind == OP_OTHER) continue;
        }
        u16 h = strchr("RWX", op.k) ? slot[op.slot] : (u16)op.handle;
        auto t = tab.find(h);
        // every register but the result, and every flag but carry, must survive
        static const char* const rn[] = { "AX", "CX", "DX", "BX", "SP", "BP", "SI", "DI" };
        for (int k = 1; k < 8; ++k) {
            u16 want = k == SP ? 0xFFFC : b.r[k]; if (k == BX && strchr("RWX", op.k)) want = h;
            if (c.after.r[k] != want) { bad("registers", sfmt("%s changed from %04X to %04X", rn[k], want, c.after.r[k])); return; }
        }
        if (c.after.s[ES] != b.s[ES] || (u16)(c.after.s[DS] - c.after.s[CS]) != b.s[DS] || c.after.s[SS] != c.after.s[CS]) { bad("registers", sfmt("a segment register changed: ES=%04X (was %04X) CS=%04X SS=%04X DS=%04X (was CS+%04X)", c.after.s[ES], b.s[ES], c.after.s[CS], c.after.s[SS], c.after.s[DS], b.s[DS])); return; }
        for (int k = 1; k < 4; ++k) if (c.after.f[k] != b.f[k]) { bad("registers", sfmt("the %s flag changed", k == 1 ? "zero" : k == 2 ? "sign" : "overflow")); return; }
        switch (op.k) {
        case 'C': case 'O': {
            OpKind want = op.k == 'C' ? OP_CREATE : OP_OPEN;
            if (ops.empty()) {
                if (op.name.size() <= 76) { bad("result", "never reached the host"); return; }
                if (!cf) { bad("carry", "reports success without any file being opened"); return; }
            } else {
                for (auto& x : ops) if ((x.kind == OP_OPEN || x.kind == OP_CREATE) && (x.path != op.name || (x.kind != want && x.got >= 0))) { bad("result", "the host was asked for " + quote(x.path) + (x.kind == OP_CREATE ? " (create)" : " (open)")); return; }
                if (cf != lastErr) { bad("carry", lastErr ? sfmt("the host reported a failure, the program sees carry clear, AX=%04X", ax) : sfmt("the host opened the file, the program sees carry set, AX=%04X", ax)); return; }
            }
            if (cf) {
                if (ax == 0 || ax > 0x58) { bad("result", sfmt("AX=%04X is not a DOS error code", ax)); return; }
                bool injected = false; for (auto& x : ops) if (x.got < 0 && x.got != -2) injected = true;
                if (op.k == 'O' && !ops.empty() && !injected && ax != 2) { bad("result", sfmt("file not found reported as error %d", ax)); return; }
            } else {
                if (tab.count(ax)) { bad("result", sfmt("handle %04X returned while it is still open", ax)); return; }
                MH m; m.name = op.name; m.wr = op.k == 'C'; tab[ax] = m; slot[op.slot] = ax;
                if (m.wr) disk[op.name].clear();
            }
            break;
        }
        case 'X': case 'x':
            if (t == tab.end()) { if (!cf || ax != 6) { bad("carry", sfmt("close of handle %04X, which is not open: carry %d, AX=%04X", h, cf, ax)); return; } }
            else {
                if (ops.empty()) { bad("result", "never reached the host"); return; }
                if (cf != lastErr) { bad("carry", lastErr ? "the host's close failed, the program sees carry clear" : "the host's close succeeded, the program sees carry set"); return; }
                if (cf && ax != 6 && ax != 5) { bad("result", sfmt("AX=%04X is not the error of a close", ax)); return; }
                tab.erase(t);
            }
            break;
        default: {
            bool rd = op.k == 'R' || op.k == 'r'; const char* dir = rd ? "read" : "wrote";
            if (t == tab.end() || (!rd && !t->second.wr)) {
                if (!cf || (ax != 5 && ax != 6)) { bad("carry", sfmt("handle %04X is not open for this: carry %d, AX=%04X", h, cf, ax)); return; }
                if (sum) { bad("result", "data was transferred nevertheless"); return; }
            } else if (rd && t->second.wr) { // reading from a created file: at its end by construction, or refused
                if (!cf && ax) { bad("result", sfmt("read %d bytes past the end", ax)); return; }
            } else {
                MH& m = t->second; string& data = disk[m.name];
                long avail = m.pos < data.size() ? (long)(data.size() - m.pos) : 0, full = rd ? std::min<long>(op.cx, avail) : op.cx;
                if (sum > full) { bad("result", sfmt("%s %ld bytes, asked for %d, %ld available", dir, sum, op.cx, avail)); return; }
                { long left = full; for (auto& x : ops) if (x.kind == OP_READ || x.kind == OP_WRITE) { if (x.got < 0 || x.got < std::min(x.want, left)) anyShort = true; if (x.got > 0) left -= x.got; } }
                if (cf) {
                    if (!anyErr) { bad("carry", sfmt("the host %s %ld bytes without error, the program sees carry set, AX=%04X", dir, sum, ax)); return; }
                    if (ax != 5 && ax != 6 && ax != 0x1D && ax != 0x1E && ax != 0x1F && ax != 0x53) { bad("result", sfmt("AX=%04X is not a DOS error code for this", ax)); return; }
                } else {
                    if (lastErr && sum == 0) { bad("carry", sfmt("the host reported a failure, the program sees carry clear, AX=%04X", ax)); return; }
                    if (ax != (u16)sum) { bad("result", sfmt("the host %s %ld bytes, the program is told %u", dir, sum, ax)); return; }
                    if (sum < full && !anyShort) { bad("result", sfmt("only %ld of %ld bytes transferred although the host would have done more", sum, full)); return; }
                }
                if (rd) mem[op.seg].replace((size_t)op.dx, (size_t)sum, data, m.pos, (size_t)sum);
                else if (sum > 0) { if (data.size() < m.pos + (size_t)sum) data.resize(m.pos + (size_t)sum); data.replace(m.pos, (size_t)sum, mem[op.seg], (size_t)op.dx, (size_t)sum); }
                m.pos += (size_t)sum;
            }
            if (rd) {
                int from, len; windowOf(op, from, len); string want = mem[op.seg].substr((size_t)from, (size_t)len);
                if (c.window != want) { bad("memory", sfmt("memory around the buffer (from %04X) is not the old content plus the %ld bytes read: ", from, sum) + diffText(want, c.window)); return; }
            }
        }
        }
    }
    if (rep.finalMem[0] != mem[0].substr(0x100, G_END - 0x100)) { o.fail("memory", "program memory was changed: " + diffText(mem[0].substr(0x100, G_END - 0x100), rep.finalMem[0]) + ctx); return; }
    for (int k = 1; k < 4; ++k) if (g.ext[k] && rep.finalMem[k] != mem[k].substr(0, 0xFFFF)) { o.fail("memory", "memory of another segment was changed: " + diffText(mem[k], rep.finalMem[k]) + ctx); return; }
    w.disk.files.erase("DUMP"); auto got = w.disk.snapshot(); string why;
    std::set<string> names; for (auto& x : disk) names.insert(x.first); for (auto& x : got) names.insert(x.first);
    for (auto& n : names) if (!sameFile(disk, got, n, &why)) { o.fail("files", "after the run, " + why + ctx); return; }
}

// ---------------------------------------------------------------- P16
// script: P off len (character calls) | W handle off len | Z handle | F off len (to file OUT.TXT) | then one of
// E code | T | X kind
struct ConOp { char k; int a, b, c; };
vector<ConOp> parseCon(const string& t) {
    vector<ConOp> v; std::istringstream in(t); string l; bool end = false;
    while (std::getline(in, l) && v.size() < 200 && !end) {
        ConOp o{ 0, 0, 0, 0 }; int n = sscanf(l.c_str(), "%c %d %d %d", &o.k, &o.a, &o.b, &o.c); if (n < 1) continue;
        auto region = [](int& off, int& len) { if (off < 0 || off >= 0x3000) off = 0; if (len < 1) len = 1; if (off + len > 0x3000) len = 0x3000 - off; };
        switch (o.k) {
        case 'P': case 'F': if (n < 3) continue; region(o.a, o.b); break;
        case 'W': if (n < 4) continue; o.a = o.a == 2 ? 2 : 1; region(o.b, o.c); break;
        case 'Z': o.a = o.a == 2 ? 2 : 1; break;
        case 'E': o.a &= 255; end = true; break;
        case 'T': case 'X': end = true; break;
        default: continue;
        }
        v.push_back(o);
    }
    if (!end) v.push_back({ 'E', 0, 0, 0 });
    return v;
}
enum { CON_DATA = 0x8000 };
char conByte(u64 seed, int i) { return (char)mix64(seed, (u64)i, 0xC0); }
struct ConGuest { string image, out, err, file; int code = 0; bool fatal = false, usesFile = false, ok = false; };
ConGuest buildCon(const string& script, u64 seed) {
    ConGuest g; auto ops = parseCon(script); Emit e;
    for (auto& o : ops) if (o.k == 'F') g.usesFile = true;
    if (g.usesFile) { e.movi(AX, 0x3C00); e.movi(CX, 0); e.movl(DX, "fn"); e.int21(); e.raw({ 0x73, 0x03 }); e.jmp("bad3"); e.raw({ 0xA3 }); e.abs("fh"); }
    auto text = [&](int off, int len) { string t; for (int i = 0; i < len; ++i) t += conByte(seed, off + i); return t; };
    int n = 0;
    for (auto& o : ops) switch (++n, o.k) {
    case 'P': e.movi(SI, CON_DATA + o.a); e.movi(CX, o.b); e.call("chars"); g.out += text(o.a, o.b); break;
    case 'W': e.movi(BX, o.a); e.movi(DX, CON_DATA + o.b); e.movi(CX, o.c); e.call("put"); (o.a == 1 ? g.out : g.err) += text(o.b, o.c); break;
    case 'Z': e.movi(BX, o.a); e.movi(CX, 0); e.movi(DX, CON_DATA); e.movi(AX, 0x4000); e.int21(); e.raw({ 0x73, 0x03 }); e.jmp("bad2"); e.raw({ 0x3D, 0, 0, 0x74, 0x03 }); e.jmp("bad2"); break;
    case 'F': e.raw({ 0x8B, 0x1E }); e.abs("fh"); e.movi(DX, CON_DATA + o.a); e.movi(CX, o.b); e.call("put"); g.file += text(o.a, o.b); break;
    case 'E': e.movi(AX, 0x4C00 | o.a); e.int21(); g.code = o.a; break;
    case 'T': e.raw({ 0xCD, 0x20 }); break;
    case 'X': g.fatal = true; switch (o.a & 3) { case 0: e.raw({ 0x60, 0x61 }); break; case 1: e.movi(AX, 0x7700); e.int21(); break; case 2: e.movi(AX, 0x0E41); e.raw({ 0xCD, 0x10 }); break; default: e.u8_(0xF4); } break;
    }
    e.label("chars"); // DS:SI, CX
    e.raw({ 0xAC, 0x88, 0xC2, 0xB4, 0x02, 0xCD, 0x21, 0x83, 0xE9, 0x01, 0x75, 0xF4, 0xC3 });
    e.label("put"); // BX, DS:DX, CX: as a careful DOS program does it
    e.movi(AX, 0x4000); e.int21(); e.raw({ 0x73, 0x03 }); e.jmp("bad0"); e.raw({ 0x3D, 0, 0, 0x75, 0x03 }); e.jmp("bad1");
    e.raw({ 0x01, 0xC2, 0x29, 0xC1, 0x74, 0x03 }); e.jmp("put"); e.raw({ 0xC3 });
    for (int i = 0; i < 4; ++i) { e.label(sfmt("bad%d", i)); e.movi(AX, 0x4CE0 + i); e.int21(); }
    e.label("fh"); e.u16_(0); e.label("fn"); e.b += "OUT.TXT"; e.u8_(0);
    if (e.here() > CON_DATA || !e.link()) return g;
    while (e.here() < CON_DATA) e.u8_(0x90);
    for (int i = 0; i < 0x3000; ++i) e.b += conByte(seed, i);
    g.image = e.b; g.ok = true; return g;
}
Scenario genConsole(Rng& r, u64) {
    Scenario s; s.kind = "console"; string t; int n = r.range(1, r.chance(1, 4) ? 40 : 12); bool wantFile = r.chance(1, 3);
    auto len = [&]() { switch (r.below(8)) { case 0: return r.pick({ 4095, 4096, 4097, 8192, 511, 512, 1024 }); case 1: return r.range(1000, 9000); case 2: return r.range(1, 3); default: return r.range(1, 200); } };
    for (int i = 0; i < n; ++i) {
        int l = len(), off = (int)r.below((u32)(0x3000 - l));
        switch (r.below(9)) {
        case 0: case 1: case 2: case 3: t += sfmt("P %d %d\n", off, l); break;
        case 4: case 5: case 6: t += sfmt("W %d %d %d\n", r.chance(1, 6) ? 2 : 1, off, l); break;
        case 7: if (wantFile) { t += sfmt("F %d %d\n", off, l); break; } // fall through
        default: t += sfmt("Z %d\n", r.chance(1, 4) ? 2 : 1);
        }
    }
    switch (r.below(8)) { case 0: t += "T\n"; break; case 1: t += sfmt("X %u\n", r.below(4)); break; case 2: t += "E 0\n"; break; default: t += sfmt("E %u\n", r.below(256)); }
    s.files["@script"] = t; s.num["seed"] = (long long)(r.next() >> 1); s.num["outmode"] = r.below(3);
    if (r.chance(1, 2)) s.num["outchunk"] = r.pick({ 1, 2, 7, 100, 511, 512, 1000, 4095, 4096 });
    else if (r.chance(1, 2)) { int k = r.range(1, 5); while (k--) { Fault f; f.op = (int)r.below((u32)(5 + 3 * n)); f.kind = F_SHORT; f.arg = r.chance(1, 2) ? 1 : r.range(1, 4096); s.faults.push_back(f); } }
    return s;
}
void execConsole(const Scenario& s, Outcome& o) {
    auto it = s.files.find("@script"); if (it == s.files.end()) { o.skipped = true; return; }
    ConGuest g = buildCon(it->second, (u64)s.n("seed")); if (!g.ok) { o.skipped = true; return; }
    World w; w.sc = &s; w.oc = &o; auto fl = s.faults; for (auto& f : fl) f.op += 3; w.setFaults(fl);
    w.disk.put("G.COM", g.image);
    HostSpec h = simSpec(s, { "G.COM" }); h.faultConsole = true;
    HostResult r = w.run(h);
    u64 sh = 9; for (auto& op : r.ops) sh = mix64(sh ^ (u64)op.kind, (u64)op.got, (u64)op.want);
    o.shape = mix64(sh, hashStr(it->second)); o.nontrivial = !g.out.empty() || g.fatal;
    string ctx = faultText(s);
    if (r.end != E_EXIT) { o.fail("end", "sim86 " + r.describe() + ctx); return; }
    if (g.fatal) {
        o.st.inc("probe.stopped");
        if (r.out.compare(0, g.out.size(), g.out)) { o.fail("output", "output before the simulator stopped is not what the program printed: " + diffText(g.out, r.out) + ctx); return; }
        if (!r.code) { o.fail("exit", "the simulator stopped on something it does not support, with exit status 0" + ctx); return; }
        if (r.out.size() == g.out.size() && r.err.size() == g.err.size()) o.fail("silent", "the simulator stopped without a message" + ctx);
        return;
    }
    if (r.out != g.out) { o.fail("output", sfmt("standard output (%zu bytes) is not what the program printed (%zu bytes): ", r.out.size(), g.out.size()) + diffText(g.out, r.out) + ctx); return; }
    if (r.err != g.err) { o.fail("output", "standard error is not what the program wrote to handle 2: " + diffText(g.err, r.err) + ctx); return; }
    if (r.code != g.code) { o.fail("exit", sfmt("program ended with exit code %d, simulator with %d", g.code, r.code) + ctx); return; }
    if (g.usesFile) { auto* f = w.disk.find("OUT.TXT"); if (!f || f->data != g.file) { o.fail("file", "the file written in between: " + diffText(g.file, f ? f->data : "") + ctx); return; } }
}

// ---------------------------------------------------------------- P17
enum { REGS17 = 0x60 };
string loadGuest(int size, u64 seed, int* kind, int* code) {
    Emit e; *code = (int)(mix64(seed, 3) & 0xFF);
    auto fill = [&]() { while ((int)e.b.size() < size) e.b += (char)mix64(seed, e.b.size(), 0x10AD); };
    if (size < 160) { // too small to report: just ends
        int k = (int)(mix64(seed, 5) % 3); if (size < 2) k = 0; else if (size < 5 && k == 2) k = 1;
        *kind = 0;
        if (k == 0) { e.u8_(0xC3); *code = 0; } else if (k == 1) { e.raw({ 0xCD, 0x20 }); *code = 0; } else { e.movi(AX, 0x4C00 | *code); e.int21(); }
        fill(); return e.b;
    }
    *kind = 1;
    e.raw({ 0xB4, 0x02, 0xB2, 'G' }); e.int21(); e.raw({ 0xB4, 0x02, 0xB2, 'O' }); e.int21();
    e.raw({ 0x89, 0x26 }); e.u16_(REGS17);                                            // SP
    for (int i = 0; i < 4; ++i) { e.raw({ 0x8C, 0x06 | i << 3 }); e.u16_(REGS17 + 2 + 2 * i); }
    e.raw({ 0x89, 0xE5, 0x8B, 0x46, 0x00, 0xA3 }); e.u16_(REGS17 + 10);               // [SS:SP]
    e.movi(AX, 0x3C00); e.movi(CX, 0); e.movl(DX, "img"); e.int21(); e.raw({ 0x73, 0x05 }); e.movi(AX, 0x4CFE); e.int21();
    e.raw({ 0x89, 0xC3 });
    int parts[][2] = { { 0, 4 }, { REGS17, 12 }, { 0x80, 0x80 }, { 0x100, size } };
    for (auto& p : parts) { e.movi(AX, 0x4000); e.movi(DX, p[0]); e.movi(CX, p[1]); e.int21(); }
    e.movi(AX, 0x4C00 | *code); e.int21();
    e.label("img"); e.b += "IMG"; e.u8_(0); e.link();
    fill(); return e.b;
}
vector<string> argLines(const string& t) { vector<string> v; size_t p = 0; while (p < t.size()) { size_t e = t.find('\n', p); if (e == string::npos) e = t.size(); string a = t.substr(p, e - p), c; for (char ch : a) if ((u8)ch > ' ') c += ch; if (!c.empty()) v.push_back(c); p = e + 1; } return v; }
Scenario genLoad(Rng& r, u64) {
    Scenario s; s.kind = "load";
    s.num["size"] = r.chance(1, 4) ? r.range(1, 200) : r.chance(1, 4) ? r.pick({ 65278, 65277, 65276, 65280 - 512, 65278 - 512, 32768, 32767, 65024, 0xFE00 }) : r.chance(1, 8) ? r.pick({ 65279, 65280, 65281, 65282, 65535, 65536, 65537, 70000, 131072, 130816 }) : r.range(160, r.chance(1, 3) ? 65278 : 6000);
    s.num["seed"] = (long long)(r.next() >> 1); s.num["outmode"] = r.below(3);
    if (r.chance(2, 3)) s.num["mode"] = r.chance(1, 2) ? -1 : r.pick({ 1, 2, 3, 100, 511, 512, 4096, 16384, 32768 });
    if (s.n("mode") == 1 && s.n("size") > 20000 && r.chance(3, 4)) s.num["mode"] = 97;
    string t; int total = 0, want = r.chance(1, 4) ? r.pick({ 124, 125, 126, 127, 128, 129, 200 }) : r.chance(1, 3) ? 0 : r.range(0, 110);
    while (total < want) {
        string a; int l = std::min(want - total - 1, r.chance(1, 6) ? 100 : r.range(1, 20)); if (l < 1) break;
        if (r.chance(1, 8)) a = r.pick({ "-v", "-p", "-", "/?", "\"", "--", "-vp" });
        else for (int i = 0; i < l; ++i) a += r.chance(1, 12) ? (char)r.range(128, 255) : (char)r.range(33, 126);
        t += a + "\n"; total += (int)a.size() + 1;
    }
    s.files["@args"] = t;
    switch (r.below(6)) {
    case 0: s.num["missing"] = r.chance(1, 3); break;
    case 1: case 2: { Fault f; f.op = r.chance(1, 3) ? r.range(0, 3) : r.range(0, 6); f.kind = F_ERR; f.arg = (int)r.below(24); s.faults.push_back(f); break; }
    case 3: { int n = r.range(1, 3); while (n--) { Fault f; f.op = r.range(1, 5); f.kind = F_SHORT; f.arg = r.range(1, (int)std::max(1ll, s.n("size"))); s.faults.push_back(f); } if (r.chance(1, 2)) { Fault f; f.op = r.range(1, 6); f.kind = F_ERR; f.arg = (int)r.below(24); s.faults.push_back(f); } break; }
    default: break;
    }
    if (r.chance(1, 8)) { Fault f; f.op = (int)r.below(60); f.kind = F_ERR; f.arg = (int)r.below(24); s.faults.push_back(f); }
    return s;
}
void execLoad(const Scenario& s, Outcome& o) {
    int size = (int)std::max(1ll, std::min(200000ll, s.n("size"))), kind, code; string img = loadGuest(size, (u64)s.n("seed"), &kind, &code);
    vector<string> args = { "P.COM" }, a = argLines(s.files.count("@args") ? s.files.at("@args") : ""); int sum = 0;
    for (auto& x : a) { sum += (int)x.size() + 1; args.push_back(x); }
    World w; w.sc = &s; w.oc = &o; if (!s.n("missing")) w.disk.put("P.COM", img); w.disk.put("OTHER", "other file");
    // faults are for the loading: none once the program runs
    {
        World w2; w2.sc = &s; w2.disk = w.disk; for (auto& f : w2.disk.files) f.second = std::make_shared<FileNode>(*f.second);
        w2.setFaults(s.faults); HostResult ref = w2.run(simSpec(s, args)); int n = 0;
        for (auto& op : ref.ops) { if (op.console) continue; if (op.path != "P.COM") break; ++n; }
        vector<Fault> fl; for (auto& f : s.faults) if (f.op < n) fl.push_back(f); w.setFaults(fl);
    }
    auto before = w.disk.snapshot();
    HostResult r = w.run(simSpec(s, args));
    u64 sh = 11; for (auto& op : r.ops) if (!op.console) sh = mix64(sh ^ (u64)op.kind, (u64)op.got, (u64)op.want);
    o.shape = mix64(sh, (u64)size, (u64)sum); o.nontrivial = true;
    string ctx = sfmt(" [image of %d bytes, %zu arguments]", size, a.size()) + faultText(s);
    if (r.end != E_EXIT) { o.fail("end", "sim86 " + r.describe() + ctx); return; }
    bool mustFail = s.n("missing") || size > 65278 || sum - 1 > 126, mayFail = mustFail || r.errFired || sum > 126;
    auto* rep = w.disk.find("IMG"); auto after = w.disk.snapshot();
    bool ran = kind ? r.out.compare(0, 2, "GO") == 0 : r.code == code && r.out.empty() && r.err.empty();
    if (!kind && code == 0 && r.code == 0) ran = true;
    if (!ran) {
        o.st.inc("probe.refused");
        if (!mayFail) { o.fail("refused", "the program was not run although nothing failed: " + r.describe() + ctx); return; }
        if (!r.code) { o.fail("exit", "the program was not run, the simulator's exit status is 0" + ctx); return; }
        if (r.out.empty() && r.err.empty()) { o.fail("silent", "the program was not run, without a message" + ctx); return; }
        if (before != after) { o.fail("partial", "the program was not run, but files changed" + ctx); return; }
        if (kind && r.out.find("GO") != string::npos && r.out.find("GO") < 4) o.fail("partial", "part of the program ran" + ctx);
        return;
    }
    o.st.inc("probe.ran");
    if (mustFail) { o.fail("ran", "the program was run although " + string(s.n("missing") ? "its file does not exist" : size > 65278 ? "it does not fit" : "its arguments do not fit") + ctx); return; }
    if (r.code != code) { o.fail("exit", sfmt("program ended with exit code %d, simulator with %d", code, r.code) + ctx); return; }
    if (!kind) return;
    if (r.out != "GO" || !r.err.empty()) { o.fail("output", "extra output: " + r.describe() + ctx); return; }
    if (!rep || rep->data.size() != (size_t)(4 + 12 + 128 + size)) { o.fail("image", "the program could not write its report" + ctx); return; }
    const string& d = rep->data; auto w16 = [&](size_t at) { return (int)((u8)d[at] | (u8)d[at + 1] << 8); };
    int sp = w16(4), es = w16(6), cs = w16(8), ss = w16(10), ds = w16(12), top = w16(14);
    if (d.compare(16 + 128, string::npos, img)) { o.fail("image", "the image in memory is not the file: " + diffText(img, d.substr(16 + 128)) + ctx); return; }
    if (d.compare(0, 2, "\xCD\x20")) { o.fail("psp", "no INT 20h at the start of the PSP" + ctx); return; }
    if (es != cs || ss != cs || ds != cs) { o.fail("psp", sfmt("segments ES=%04X CS=%04X SS=%04X DS=%04X", es, cs, ss, ds) + ctx); return; }
    if (w16(2) < cs + 0x1000) { o.fail("psp", sfmt("memory ends at segment %04X, program at %04X", w16(2), cs) + ctx); return; }
    if (sp != 0xFFFE || top != 0) { o.fail("psp", sfmt("SP=%04X, word on top of the stack %04X", sp, top) + ctx); return; }
    int len = (u8)d[16]; string tail = d.substr(17, (size_t)std::min(len, 127)); // 0x81..
    if (len > 126 || d[(size_t)(17 + len)] != '\r') { o.fail("tail", sfmt("command tail of %d bytes is not ended by a carriage return", len) + ctx); return; }
    vector<string> got; string cur; for (char c : tail + " ") { if (c == ' ' || c == '\t') { if (!cur.empty()) got.push_back(cur); cur.clear(); } else cur += c; }
    if (got != a) { o.fail("tail", sfmt("%zu arguments given, command tail is ", a.size()) + quote(tail) + ctx); return; }
    after.erase("IMG"); if (before != after) o.fail("files", "other files changed" + ctx);
}

// ---------------------------------------------------------------- P18
string lower(string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
void machineState(Rng& r, Scenario& s) { s.num["seed"] = (long long)(r.next() >> 1); s.num["garbage"] = r.pick({ 0, 1, 2, 3, 3, 3 }); if (r.chance(1, 2)) s.num["irq"] = r.pick({ 3, 20, 200, 2000, 20000 }); }
string guestImage(const Scenario& s, string* err) {
    static map<u64, string> cache; static map<u64, string> errs;
    if (s.kind == "tool") return toolCom(s.s("tool"));
    auto it = s.files.find("@src"); if (it == s.files.end()) return "";
    u64 key = mix64(hashStr(it->second), hashStr(s.kind)); auto i = cache.find(key); if (i != cache.end()) { if (err) *err = errs[key]; return i->second; }
    if (cache.size() > 64) { cache.clear(); errs.clear(); }
    string e, c = s.kind == "asm" ? buildAsm(it->second, &e) : s.kind == "file" ? buildCom(fileProgSource(parseFileOps(it->second), (int)s.n("exit")), true, &e) : buildCom(it->second, s.kind == "clib", &e);
    errs[key] = e; if (err) *err = e; return cache[key] = c;
}
string blankArgs(const vector<string>& a) { string t; for (auto& x : a) t += " " + x; return t; }
Scenario genTwoMachines(Rng& r, u64) {
    Scenario s; machineState(r, s);
    switch (r.below(6)) {
    case 0: { s.kind = "c"; Prog p = genProgram(r, r.range(3, 20), r.below(4), false); s.files["@src"] = p.src; s.str["expect"] = p.expect; break; }
    case 1: { s.kind = "clib"; Prog p = genProgram(r, r.range(3, 20), r.below(4), true); s.files["@src"] = p.src; s.str["expect"] = p.expect; break; }
    case 2: { s.kind = "asm"; Prog p = genRunAsm(r, r.range(5, 40)); s.files["@src"] = p.src; s.str["expect"] = p.expect; break; }
    case 3: case 4: { s.kind = "file"; vector<FileOp> ops; genFileProg(r, s.files, r.range(3, 25), &ops); s.files["@src"] = fileOpsText(ops); s.num["exit"] = r.below(256); string a; int n = (int)r.below(4); while (n--) { string x; int l = r.range(1, 12); while (l--) x += (char)r.range(33, 126); a += x + "\n"; } s.files["@args"] = a; break; }
    default: {
        s.kind = "tool"; string tool = toolFor(r); Job j = makeInput(r, s, tool, "t", 0, false); s.str["tool"] = tool;
        if (tool == "scc") s.num["fixed"] = 1;
        if (r.chance(1, 8) && tool != "scpp") { auto& f = s.files[j.args[0]]; f = tool == "scc" ? breakC(r, f) : breakAsm(r, f); }
        string a; for (auto& x : j.args) a += x + "\n"; s.files["@args"] = a;
    }
    }
    if (s.kind == "c" || s.kind == "clib" || s.kind == "asm") s.num["fixed"] = 1;
    s.num["outmode"] = r.below(3);
    if ((s.kind == "file" || s.kind == "tool") && r.chance(2, 3)) { Fault f; f.op = (int)r.below(1000); f.kind = (FaultKind)r.pick({ F_ERR, F_ERR, F_SHORT, F_ZERO }); f.arg = r.range(1, 300); s.faults.push_back(f); }
    return s;
}
void execTwoMachines(const Scenario& s, Outcome& o) {
    string err, img = guestImage(s, &err);
    if (img.empty()) { if (s.kind == "tool") o.fail("build", s.s("tool") + ".com cannot be built from the working tree"); else o.fail("build", s.kind + " program, valid source: " + err); return; }
    vector<string> a = argLines(s.files.count("@args") ? s.files.at("@args") : ""); vector<string> ha = { "prog.com" }; for (auto& x : a) ha.push_back(x);
    if (blankArgs(a).size() > 126) { o.skipped = true; return; }
    auto files = visible(s);
    struct Both { HostResult h; PcResult p; map<string, string> hd, pd; };
    auto both = [&](const vector<Fault>& hf, const vector<Fault>& pf, Outcome* oc, u64 fuel) {
        Both b;
        { World w; w.sc = &s; w.oc = oc; w.disk.ci = true; w.disk.load(files); w.setFaults(pf); PcSpec p; p.name = "prog"; p.image = img; p.tail = blankArgs(a); p.seed = (u64)s.n("seed"); p.garbage = (int)s.n("garbage"); p.irqEvery = (int)s.n("irq"); p.fuel = fuel; b.p = runPc(w, p); b.pd = w.disk.snapshot(); }
        { World w; w.sc = &s; w.oc = oc; w.disk.load(files); w.disk.put("prog.com", img); w.setFaults(hf); HostSpec h = simSpec(s, ha); h.fuel = 400 * b.p.steps + 4000000; b.h = w.run(h); w.disk.files.erase("prog.com"); b.hd = w.disk.snapshot(); }
        return b;
    };
    u64 fuel = 60000000;
    Both b = both({}, {}, s.faults.empty() ? &o : nullptr, fuel);
    if (b.p.end == E_HANG) { o.skipped = true; o.st.inc("probe.too-long"); return; }
    string ctx;
    if (!s.faults.empty() && b.h.end == E_EXIT) {
        vector<const OpRec*> ho; size_t loader = 0; bool in = true;
        for (auto& op : b.h.ops) { if (op.console) continue; if (in && op.path == "prog.com") { ++loader; continue; } in = false; ho.push_back(&op); }
        vector<const DosRec*> po; for (auto& d : b.p.calls) if (d.op >= 0) po.push_back(&d);
        bool same = ho.size() == po.size();
        for (size_t i = 0; same && i < ho.size(); ++i) { static const int ah[] = { 0x3D, 0x3C, 0x3F, 0x40, 0x3E, 0 }; if (po[i]->ah != ah[ho[i]->kind]) same = false; }
        if (!same || ho.empty()) o.st.inc("probe.operations-differ");
        else {
            vector<Fault> hf, pf;
            for (auto f : s.faults) {
                int at = f.op % (int)ho.size(); auto& op = *ho[(size_t)at];
                if (op.kind == OP_WRITE && op.want > 1 && f.kind == F_SHORT) f.arg = 1 + f.arg % (int)(op.want - 1);
                else if (op.kind == OP_READ && op.got > 1 && f.kind == F_SHORT) f.arg = 1 + f.arg % (int)(op.got - 1);
                else if (!(op.kind == OP_WRITE && op.want > 0 && f.kind == F_ZERO)) { f.kind = F_ERR; f.arg = 0; }
                f.op = at; pf.push_back(f); f.op = at + (int)loader; hf.push_back(f); ctx = sfmt(" [at the program's file operation %d (%s %s): %s]", at, opNames[op.kind], op.path.c_str(), faultNames[f.kind]);
            }
            o.st.inc("probe.with-fault");
            b = both(hf, pf, &o, fuel);
            if (b.p.end == E_HANG) { o.skipped = true; return; }
        }
    }
    Hash hh; for (auto& d : b.p.calls) { hh.add(d.ah); hh.add(d.rax * 2 + d.cf); } hh.add(hashStr(b.p.out)); hh.add(b.p.steps); o.shape = hh.h; o.nontrivial = b.p.steps > 10;
    o.st.inc("probe.kind-" + s.kind);
    string who = s.kind == "tool" ? s.s("tool") + ".com" : s.kind + " program";
    if ((b.p.end == E_SIGNAL || b.p.end == E_MEM) && (s.kind != "tool")) { o.fail("crash", who + " built from valid source ends on the 8086 with " + b.p.describe() + ctx); return; }
    if (b.p.end == E_SIGNAL || b.p.end == E_MEM) { o.skipped = true; o.st.inc("probe.invalid-on-8086"); return; } // not a valid program there
    if (b.h.end != E_EXIT) { o.fail("end", who + " ends on the 8086 with " + b.p.describe() + ", the simulator with " + b.h.describe() + ctx); return; }
    if (b.h.out != b.p.out) { o.fail("output", who + ": console text on the 8086 and on the simulator: " + diffText(b.p.out, b.h.out) + ctx); return; }
    if (b.h.code != b.p.code) { o.fail("exit", who + sfmt(": exit code %d on the 8086, %d on the simulator", b.p.code, b.h.code) + ctx); return; }
    auto hd = upperKeys(b.hd); string why; std::set<string> names; for (auto& x : hd) names.insert(x.first); for (auto& x : b.pd) names.insert(x.first);
    for (auto& n : names) if (!sameFile(b.pd, hd, n, &why)) { o.fail("files", who + ": files on the simulator are not those on the 8086: " + why + ctx); return; }
    if (s.faults.empty() && s.str.count("expect") && b.p.out != s.s("expect") && b.p.ok()) o.fail("source", who + ": console text its source says, and what both machines print: " + diffText(s.s("expect"), b.p.out));
}
// ---------------------------------------------------------------- P19
Scenario genNested(Rng& r, u64) {
    Scenario s; machineState(r, s);
    switch (r.below(8)) {
    case 0: { s.kind = "c"; Prog p = genProgram(r, r.range(1, 8), r.below(3), false); s.files["@src"] = p.src; s.str["expect"] = p.expect; break; }
    case 1: { s.kind = "clib"; Prog p = genProgram(r, r.range(1, 8), r.below(3), true); s.files["@src"] = p.src; s.str["expect"] = p.expect; break; }
    case 2: { s.kind = "asm"; Prog p = genRunAsm(r, r.range(5, 40)); s.files["@src"] = p.src; s.str["expect"] = p.expect; break; }
    case 3: case 4: { s.kind = "script"; s.files["@script"] = genScript(r, s.files, r.range(2, 12), true); s.num["exit"] = r.below(256); break; }
    case 5: case 6: { s.kind = "file"; vector<FileOp> ops; genFileProg(r, s.files, r.range(2, 12), &ops); s.files["@src"] = fileOpsText(ops); s.num["exit"] = r.below(256); string a; int n = (int)r.below(4); while (n--) { string x; int l = r.range(1, 12); while (l--) x += (char)r.range(33, 126); a += x + "\n"; } s.files["@args"] = a; break; }
    default: {
        s.kind = "tool"; string tool = r.pick({ "scpp", "sas" });
        Job j; j.tool = tool; if (tool == "sas") { s.files["t.asm"] = genAsm(r, r.range(1, 5)); j.args = { "t.asm" }; } else { s.files["t.c"] = "#define A(x) x+1\nint v = A(" + sfmt("%d", (int)r.below(99)) + ");\n"; j.args = { "t.c" }; }
        s.str["tool"] = tool; string a; for (auto& x : j.args) a += x + "\n"; s.files["@args"] = a;
    }
    }
    if (s.kind == "c" || s.kind == "clib" || s.kind == "asm") s.num["fixed"] = 1;
    if (r.chance(1, 2)) s.num["mode"] = r.chance(1, 2) ? -1 : r.pick({ 1, 2, 7, 64, 100, 511, 512 });
    if (r.chance(2, 3)) { int n = r.pick({ 1, 1, 2 }); while (n--) { Fault f; f.op = (int)r.below(1000); f.kind = (FaultKind)r.pick({ F_ERR, F_ERR, F_SHORT, F_ZERO }); f.arg = r.range(1, 300); s.faults.push_back(f); } if (r.chance(1, 8)) s.num["loader"] = 1; }
    return s;
}
void execNested(const Scenario& s, Outcome& o) {
    string err, img; Guest g;
    if (s.kind == "script") { auto it = s.files.find("@script"); if (it == s.files.end()) { o.skipped = true; return; } g = buildGuest(it->second, (u64)s.n("seed"), (int)s.n("exit")); if (!g.ok) { o.skipped = true; return; } img = g.image; }
    else img = guestImage(s, &err);
    if (img.empty()) { o.fail("build", s.kind + " program cannot be built: " + err); return; }
    const string& sim = toolCom("sim86"); if (sim.empty()) { o.fail("build", "sim86.com cannot be built from the working tree"); return; }
    vector<string> a = argLines(s.files.count("@args") ? s.files.at("@args") : "");
    if (blankArgs(a).size() > 110) { o.skipped = true; return; }
    auto files = visible(s);
    struct Run { PcResult p; map<string, string> d; };
    auto run = [&](bool nested, const vector<Fault>& fs, Outcome* oc, u64 fuel) {
        Run b; World w; w.sc = &s; w.oc = oc; w.disk.ci = true; w.disk.load(files); if (nested) w.disk.put("PROG.COM", img); w.setFaults(fs);
        PcSpec p; p.name = nested ? "sim86.com" : "prog"; p.image = nested ? sim : img; p.tail = nested ? " PROG.COM" + blankArgs(a) : blankArgs(a); p.seed = mix64((u64)s.n("seed"), nested); p.garbage = (int)s.n("garbage"); p.irqEvery = (int)s.n("irq"); p.fuel = fuel; p.readMode = (int)s.n("mode"); p.readSeed = mix64((u64)s.n("seed"), 77); /* the same short reads on both levels */ p.extraAbove = true;
        b.p = runPc(w, p); if (nested) w.disk.files.erase("PROG.COM"); b.d = w.disk.snapshot(); return b;
    };
    Run d = run(false, {}, nullptr, 1500000);
    if (d.p.end == E_HANG) { o.skipped = true; o.st.inc("probe.too-long"); return; }
    Run n = run(true, {}, s.faults.empty() ? &o : nullptr, 4000000 + 4000 * d.p.steps);
    string ctx; bool loadFault = false;
    if (!s.faults.empty() && n.p.end == E_EXIT) {
        vector<const DosRec*> no, po; size_t loader = 0; bool in = true;
        for (auto& c : n.p.calls) { if (c.op < 0) continue; if (in && c.path == "PROG.COM") { ++loader; continue; } in = false; no.push_back(&c); }
        for (auto& c : d.p.calls) if (c.op >= 0) po.push_back(&c);
        bool same = no.size() == po.size();
        for (size_t i = 0; same && i < no.size(); ++i) if (po[i]->ah != no[i]->ah || po[i]->cx != no[i]->cx) same = false;
        vector<Fault> nf, pf;
        if (s.n("loader") && loader) { for (auto f : s.faults) { f.op = f.op % (int)loader; f.kind = F_ERR; nf.push_back(f); loadFault = true; ctx += sfmt(" [the simulator's own DOS call %d fails]", f.op); } }
        else if (same && !no.empty()) for (auto f : s.faults) {
            int at = f.op % (int)no.size(); auto& op = *no[(size_t)at];
            if (f.kind == F_SHORT && op.ah == 0x40 && op.cx > 1) f.arg = 1 + f.arg % (op.cx - 1);
            else if (f.kind == F_SHORT && op.ah == 0x3F && !op.cf && op.rax > 1) f.arg = 1 + f.arg % (op.rax - 1);
            else if (!(f.kind == F_ZERO && op.ah == 0x40 && op.cx)) { f.kind = F_ERR; }
            f.op = po[(size_t)at]->op; pf.push_back(f); f.op = op.op; nf.push_back(f);
            ctx += sfmt(" [at the program's file operation %d (AH=%02X %s): %s]", at, op.ah, op.path.c_str(), faultNames[f.kind]);
        }
        else o.st.inc(same ? "probe.no-operations" : "probe.operations-differ");
        if (!nf.empty()) {
            o.st.inc("probe.with-fault");
            if (!loadFault) d = run(false, pf, nullptr, 1500000);
            if (d.p.end == E_HANG) { o.skipped = true; o.st.inc("probe.too-long"); return; }
            n = run(true, nf, &o, 4000000 + 4000 * d.p.steps);
        }
    }
    Hash hh; for (auto& c : n.p.calls) { hh.add(c.ah); hh.add(c.rax * 2 + c.cf); } hh.add(hashStr(n.p.out)); hh.add(d.p.steps); o.shape = hh.h; o.nontrivial = d.p.steps > 10;
    o.st.inc("probe.kind-" + s.kind);
    string who = (s.kind == "tool" ? s.s("tool") + ".com" : s.kind + " program") + " under sim86.com";
    if (d.p.end == E_SIGNAL || d.p.end == E_MEM) { if (s.kind != "tool") o.fail("crash", s.kind + " program ends on the 8086 with " + d.p.describe() + ctx); else o.skipped = true; return; }
    if (n.p.end != E_EXIT) { o.fail("end", who + ": " + n.p.describe() + ctx); return; }
    if (!loadFault && s.kind != "script" && n.p.protocol != d.p.protocol) { o.fail("protocol", who + ": " + (n.p.protocol.empty() ? "misses: " + d.p.protocol[0] : n.p.protocol[0]) + ctx); return; }
    if (loadFault && n.p.code == 1 && n.p.out != d.p.out) { // refused: nothing may have happened
        o.st.inc("probe.refused"); string why; auto before = upperKeys(files);
        if (n.p.out.empty()) { o.fail("silent", who + ": refused without a message" + ctx); return; }
        if (n.d != before) o.fail("partial", who + ": refused, but files changed" + ctx);
        return;
    }
    if (s.kind == "script") {
        auto D = [](const map<string, string>& m) { auto i = m.find("DUMP"); return i == m.end() ? string() : i->second; };
        GReport a1 = parseReport(g, d.p.out, D(d.d)), b1 = parseReport(g, n.p.out, D(n.d));
        if (!a1.complete) { o.skipped = true; o.st.inc("probe.report-disturbed"); return; } // the fault hit the program's own record
        if (!b1.complete) { o.fail("report", who + ": the program's record is incomplete" + ctx); return; }
        for (size_t i = 0; i < a1.calls.size(); ++i) {
            auto &x = a1.calls[i], &y = b1.calls[i]; auto& op = g.ops[i]; string w = opText(op, (int)i);
            bool err2 = x.after.f[0];
            static const char* const rn[] = { "AX", "CX", "DX", "BX", "SP", "BP", "SI", "DI" };
            static const char* const fn[] = { "carry", "zero", "sign", "overflow" };
            for (int k = 0; k < 4; ++k) if (x.after.f[k] != y.after.f[k]) { o.fail("registers", who + ": " + w + sfmt(": %s flag is %d, on the 8086 %d", fn[k], y.after.f[k], x.after.f[k]) + ctx); return; }
            for (int k = 0; k < 8; ++k) { if (k == AX && (err2 || op.k == 'X' || op.k == 'x')) continue; if (x.after.r[k] != y.after.r[k]) { o.fail("registers", who + ": " + w + sfmt(": %s=%04X, on the 8086 %04X", rn[k], y.after.r[k], x.after.r[k]) + ctx); return; } }
            if (x.after.s[ES] != y.after.s[ES] || (u16)(x.after.s[DS] - x.after.s[CS]) != (u16)(y.after.s[DS] - y.after.s[CS]) || y.after.s[SS] != y.after.s[CS]) { o.fail("registers", who + ": " + w + ": segment registers differ" + ctx); return; }
            if (x.window != y.window) { o.fail("memory", who + ": " + w + ": memory around the buffer: " + diffText(x.window, y.window) + ctx); return; }
        }
        for (int k = 0; k < 4; ++k) if (a1.finalMem[k] != b1.finalMem[k]) { o.fail("memory", who + ": the program's memory at its end: " + diffText(a1.finalMem[k], b1.finalMem[k]) + ctx); return; }
        d.d.erase("DUMP"); n.d.erase("DUMP");
    } else if (n.p.out != d.p.out) { o.fail("output", who + ": console text on the 8086 and under sim86.com: " + diffText(d.p.out, n.p.out) + ctx); return; }
    if (n.p.code != d.p.code) { o.fail("exit", who + sfmt(": exit code %d, on the 8086 %d", n.p.code, d.p.code) + ctx); return; }
    string why; std::set<string> names; for (auto& x : d.d) names.insert(x.first); for (auto& x : n.d) names.insert(x.first);
    for (auto& f : names) if (!sameFile(d.d, n.d, f, &why)) { o.fail("files", who + ": files are not those on the 8086: " + why + ctx); return; }
    if (s.faults.empty() && s.str.count("expect") && n.p.out != s.s("expect")) o.fail("source", who + ": console text its source says, and what it prints: " + diffText(s.s("expect"), n.p.out));
}
} // namespace
#define REALSIM "sim86.c of the working tree (host build, with the real stdio of the C library)"
#define STUBSIM "host system calls, disk; guest programs are generated machine code"
void registerSimChecks() {
    registerCheck({ "P15", genDosCalls, execDosCalls, 36000, 600000, "seeded scripts of DOS calls x host errors, short transfers, full disk; every register, flag, buffer and file checked against a DOS model; distinct by host operation/result sequence", REALSIM, STUBSIM, "host operations" });
    registerCheck({ "P16", genConsole, execConsole, 36000, 600000, "seeded mixes of character output, handle output and file output x buffering modes, output accepted in pieces, ways to end; distinct by host operation/result sequence and script", REALSIM, STUBSIM, "host operations" });
    registerCheck({ "P17", genLoad, execLoad, 120000, 1000000, "seeded image sizes and arguments x read splits and failing loads; distinct by host operation/result sequence, size and arguments", REALSIM, STUBSIM, "host operations" });
    registerCheck({ "P18", genTwoMachines, execTwoMachines, 8000, 150000, "seeded C, C with library, assembly and file programs and the tools themselves x machine state x one failing or short file operation at the same place on both machines; distinct by DOS call/result sequence, output and instruction count", REALSIM "; scc.c, scpp.c, sas.c, lib.h build the programs", "reference 8086 with DOS (the other side of the comparison), host system calls, disk", "8086 instructions (probe.instructions), DOS calls and host operations" });
    registerCheck({ "P19", genNested, execNested, 700, 40000, "seeded small C, C with library, assembly, file, DOS-call and tool programs x machine state, DOS read splits, failing or short DOS calls at the same place, run directly and inside sim86.com; distinct by DOS call/result sequence, output and instruction count", "sim86.c, lib.h of the working tree compiled by the host scpp and scc, executed instruction by instruction; guest programs built by the same tools", "8086 processor, DOS services, disk, interrupts and initial memory (reference machine)", "8086 instructions (probe.instructions) and DOS calls" });
}
