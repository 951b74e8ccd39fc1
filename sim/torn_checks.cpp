// P32: the tools on input files that a crash or a bad disk left torn: cut off anywhere, with blocks lost,
// zeroed, repeated or swapped, with the tail of an older file behind the end.
#include "progs.h"
#include "jobs.h"
#include "checks.h"
#include "genutil.h"
namespace {
string tearLong(Rng& r, const string& src, char c) { // long comments and literals, so that tears hit their inside
    string t; size_t i = 0; int n = r.range(1, 3);
    for (size_t k = 0; k < src.size(); ++k) { t += src[k]; if (src[k] == '\n' && n && (k + 1 >= src.size() || (src[k + 1] != ' ' && src[k + 1] != '\t')) && r.chance(1, 4) && (k < 2 || src[k - 1] != '\\')) { --n; string x; int w = r.pick({ 1, 20, 200, 700 }); for (int j = 0; j < w; ++j) x += r.pick({ 'a', ' ', '*', '/', '\'', '"', '\n', 'x' }); if (c == '/') { for (i = 0; (i = x.find("*/", i)) != string::npos;) x[i + 1] = '*'; for (i = 0; (i = x.find("//", i)) != string::npos;) x[i] = ' '; t += "/*" + x + " */\n"; } else { for (auto& ch : x) if (ch == '\n') ch = ';'; t += ";" + x + "\n"; } } }
    return t;
}
Scenario genTorn(Rng& r) {
    Scenario s; s.num["fixed"] = 1; string tool = toolFor(r); s.num["seed"] = (long long)(r.next() >> 1);
    Job j;
    if (tool == "scpp" && r.chance(1, 2)) { j.tool = tool; j.args = { "t.c", "t.i" }; j.outputs = { "t.i" }; s.files["t.c"] = genPrepTree(r, s.files); }
    else if (tool == "scc" && r.chance(1, 2)) { j.tool = tool; j.args = { "t.c" }; j.outputs = { "t.com", "t.map" }; s.files["t.c"] = genProgram(r, r.range(1, 6), r.range(0, 2), false).src; }
    else j = makeInput(r, s, tool, "t", r.chance(1, 8), r.chance(1, 4));
    setJob(s, 0, j);
    vector<string> ins; for (auto& f : s.files) ins.push_back(f.first);
    string victim = r.chance(2, 3) ? j.args[0] : r.pick(ins); string& d = s.files[victim];
    if (r.chance(1, 3) && d.size() < 20000) d = tearLong(r, d, tool == "sas" ? ';' : '/');
    s.str["old"] = d; s.str["victim"] = victim; // the undamaged file, for the step budget
    size_t n = d.size(); auto at = [&]() -> size_t { return n ? r.below((u32)n) : 0; };
    size_t sector = r.pick({ 512u, 512u, 512u, 64u, 2048u }), blocks = (n + sector - 1) / sector;
    u32 k = r.below(8);
    if (k < 4 || n < 2) { // a cut, often just behind something that opens a construct
        s.kind = "cut"; size_t p = at();
        if (r.chance(1, 3) && n) { string c = r.pick({ "\"", "'", "/*", "//", "#", "(", "{", "\\", "*", "/", "if", "0x", "define", "[", ",", ";", "=", "&" }); size_t f = d.find(c, p); if (f == string::npos) f = d.rfind(c, p); if (f != string::npos) p = f + r.below((u32)c.size() + 2); }
        else if (r.chance(1, 4) && blocks > 1) p = sector * (1 + r.below((u32)blocks - 1));
        d.resize(std::min(p, n));
    } else if (k == 4) { s.kind = "lost"; size_t b = r.below((u32)std::max<size_t>(1, blocks)) * sector; d.erase(b, sector); }
    else if (k == 5) { s.kind = "repeated"; size_t b = r.below((u32)std::max<size_t>(1, blocks)) * sector; string x = d.substr(b, sector); if (r.chance(1, 2)) d.insert(b, x); else { size_t c = r.below((u32)std::max<size_t>(1, blocks)) * sector; d.replace(c, x.size(), x); } }
    else if (k == 6) { s.kind = "zeroed"; size_t b = r.chance(1, 4) ? at() : r.below((u32)std::max<size_t>(1, blocks)) * sector, e = std::min(n, b + sector); if (r.chance(1, 4)) e = n; for (size_t i = b; i < e; ++i) d[i] = 0; }
    else { s.kind = "tail"; string o = d; d = o.substr(0, at()); size_t p = at(); d += r.chance(1, 3) ? string(1 + r.below(130), '\x1a') : o.substr(p, 1 + r.below(600)); }
    if (r.chance(2, 3)) s.num["mode"] = r.chance(1, 2) ? -1 : r.pick({ 1, 2, 7, 64, 100, 511, 513 });
    if (s.kind == "cut" && r.chance(1, 8)) { s.num["dos"] = 1; s.num["garbage"] = r.below(4); if (r.chance(1, 2)) s.num["irq"] = r.pick({ 5, 50, 2000 }); }
    if (r.chance(1, 4)) stale(r, s, j);
    return s;
}
// accepted, or refused with a message; scpp refuses most things with a failed assertion
bool verdict(const HostResult& r, const string& tool, const string& how, Outcome& o) {
    if (r.end == E_HANG) o.fail("hang", tool + how + ": does not end: " + r.describe());
    else if (r.end == E_MEM) o.fail("memory", tool + how + ": access outside its objects: " + r.describe());
    else if (r.end == E_SIGNAL && r.detail.find("assertion") == string::npos) o.fail("signal", tool + how + ": " + r.describe());
    else if (r.end != E_EXIT && r.end != E_SIGNAL) o.fail("end", tool + how + ": " + r.describe());
    else if (!r.ok() && r.out.empty() && r.err.empty()) o.fail("silent", tool + how + ": fails without a message");
    else if (!r.protocol.empty()) o.fail("protocol", tool + how + ": " + r.protocol[0]);
    else return true;
    return false;
}
void execTorn(const Scenario& s, Outcome& o) {
    Job j = getJob(s, 0);
    map<string, string> files = s.files; files[s.s("victim")] = s.s("old");
    Ref whole = reference(s, 0, nullptr, &files);
    if (!whole.r.ok()) { o.skipped = true; o.st.inc("probe.reference-fails"); return; }
    u64 fuel = 20 * whole.r.steps + 20000000;
    World w; w.sc = &s; w.oc = &o; w.disk.load(s.files);
    HostSpec h = specOf(s, 0); h.fuel = fuel;
    HostResult a = w.run(h); auto da = w.disk.snapshot();
    Hash hh; hh.add(a.steps); hh.add(a.out); hh.add(a.code); hh.add(a.end); hh.add(s.kind); o.shape = hh.h; o.nontrivial = s.files.at(s.s("victim")) != s.s("old");
    o.st.inc("probe.kind-" + s.kind); o.st.inc(a.ok() ? "probe.accepted" : "probe.refused");
    string how = " on a torn file (" + s.kind + ")";
    if (!verdict(a, j.tool, how, o)) return;
    if (s.n("mode")) {
        World w2; w2.sc = &s; w2.oc = &o; w2.disk.load(s.files); HostSpec h2 = h; h2.readMode = (int)s.n("mode");
        HostResult b = w2.run(h2);
        if (!verdict(b, j.tool, how + " read in pieces", o)) return;
        if (s.kind != "zeroed") { // a NUL ends a read buffer: what follows isn't source
            if (a.ok() != b.ok() || a.code != b.code || a.out + a.err != b.out + b.err) { o.fail("reads", j.tool + how + ": read at once " + a.describe() + ", read in pieces " + b.describe()); return; }
            auto db = w2.disk.snapshot(); string why; if (a.ok()) for (auto& n : j.outputs) if (!sameFile(da, db, n, &why)) { o.fail("reads", j.tool + how + ": read in pieces, " + why); return; }
        }
    }
    if (s.n("dos")) {
        PcSpec c; c.name = j.tool; c.image = toolCom(j.tool); for (auto& x : j.args) c.tail += " " + x; c.seed = (u64)s.n("seed"); c.garbage = (int)s.n("garbage"); c.irqEvery = (int)s.n("irq"); c.readMode = (int)s.n("mode"); c.fuel = 2400 * whole.r.steps + 60000000;
        if (c.image.empty()) { o.fail("build", j.tool + ".com cannot be built from the working tree"); return; }
        World w3; w3.sc = &s; w3.oc = &o; w3.disk.ci = true; w3.disk.load(s.files);
        PcResult p = runPc(w3, c); o.st.inc("probe.dos-build");
        if (p.end != E_EXIT) { o.fail(p.end == E_HANG ? "hang" : p.end == E_MEM ? "memory" : "end", j.tool + ".com" + how + ": " + p.describe()); return; }
        if (p.ok() != a.ok()) { o.fail("status", j.tool + ".com" + how + ": " + p.describe() + "; host build: " + a.describe()); return; }
        if (!p.ok() && p.out.empty()) { o.fail("silent", j.tool + ".com" + how + ": fails without a message"); return; }
    }
}
} // namespace
void registerTornChecks() {
    registerCheck({ "P32", [](Rng& r, u64) { return genTorn(r); }, execTorn, 80000, 2000000, "seeded valid inputs, one file of which is torn: cut anywhere, blocks lost, zeroed, repeated or overwritten by others, an older file's tail or padding behind its end x read sizes, host and (cuts) DOS build with memory and register contents and interrupts; non-trivial: the file differs; distinct by kind of damage, verdict, messages and steps", "scc.c, scpp.c, sas.c of the working tree (host builds; DOS builds made by the host tools)", "disk, system calls; reference 8086 with DOS", "I/O operations and 8086 instructions" });
}
