// P13, P14: the DOS builds of the tools on the reference machine.
#include "progs.h"
#include "jobs.h"
#include "checks.h"
namespace {
string upper(string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
void machine(Rng& r, Scenario& s) { // everything DOS leaves open
    s.num["seed"] = (long long)(r.next() >> 1);
    s.num["garbage"] = r.pick({ 0, 1, 2, 3, 3, 3 });
    if (r.chance(2, 3)) s.num["irq"] = r.pick({ 3, 20, 200, 2000, 20000 });
    if (r.chance(2, 3)) s.num["mode"] = r.chance(1, 2) ? -1 : r.pick({ 1, 2, 7, 64, 100, 128, 255, 256, 511, 512 });
}
PcSpec pcSpec(const Scenario& s, const string& tool, const string& tail) {
    PcSpec p; p.name = tool; p.image = toolCom(tool); p.tail = tail; p.seed = (u64)s.n("seed"); p.garbage = (int)s.n("garbage");
    p.irqEvery = (int)s.n("irq"); p.readMode = (int)s.n("mode"); p.fuel = 3000000000ull;
    return p;
}
u64 callHash(const PcResult& r) { Hash h; for (auto& d : r.calls) { h.add(d.ah); h.add(d.path); h.add(d.rax * 2 + d.cf); } h.add(r.end); return h.h; }
string tailOf(Rng& r, const Job& j) { string t; for (auto& a : j.args) { t += r.chance(1, 6) ? "  " : r.chance(1, 10) ? " \t" : " "; t += j.tool != "scpp" && r.chance(1, 6) ? upper(a) : a; } if (r.chance(1, 6)) t += " "; return t; }
bool bitsOk(const PcResult& r, Outcome& o, const string& who, const string& ctx) {
    if (r.end == E_HANG) o.fail("hang", who + ": " + r.detail + ctx);
    else if (r.end == E_MEM) o.fail("memory", who + ": " + r.detail + ctx);
    else if (r.end == E_SIGNAL) o.fail("crash", who + ": " + r.detail + ctx);
    else if (!r.protocol.empty()) o.fail("protocol", who + ": " + r.protocol[0] + ctx);
    else return true;
    return false;
}

// ---------------------------------------------------------------- P13
Scenario genSame(Rng& r) {
    Scenario s; s.kind = "dos-vs-host";
    string tool = toolFor(r);
    Job j = makeInput(r, s, tool, "t", r.chance(1, 8), false);
    setJob(s, 0, j); if (tool == "scc") s.num["fixed"] = 1; // shrinking the text could leave the 16-bit range
    if (r.chance(1, 40)) { auto n = j.args[0]; s.files[n] = readRealFile(gRepo + "/" + (tool == "scc" ? "sas.c" : tool == "scpp" ? "lib.h" : "test/unused")); if (s.files[n].empty()) s.files[n] = "\tret\n"; }
    if (r.chance(1, 10) && tool != "scpp") { auto& f = s.files[j.args[0]]; f = tool == "scc" ? breakC(r, f) : breakAsm(r, f); s.num["broken"] = 1; }
    machine(r, s);
    s.str["tail"] = tailOf(r, j);
    if (r.chance(1, 4)) stale(r, s, j);
    return s;
}
void execSame(const Scenario& s, Outcome& o) {
    Job j = getJob(s, 0);
    map<string, string> clean = s.files; for (auto& n : j.outputs) clean.erase(n);
    Ref f = reference(s, 0, &o, &clean);
    if (f.r.end != E_EXIT) { o.skipped = true; o.st.inc("probe.reference-abnormal"); return; }
    if (toolCom(j.tool).empty()) { o.fail("build", j.tool + ".com cannot be built from the working tree"); return; }
    World w; w.sc = &s; w.oc = &o; w.applyFaults = false; w.disk.ci = true; w.disk.load(s.files);
    PcSpec p = pcSpec(s, j.tool, s.s("tail"));
    p.fuel = 40ull * f.r.steps * 60 + 30000000;
    PcResult r = runPc(w, p);
    o.nontrivial = r.calls.size() > 3; o.shape = callHash(r) ^ mix64(s.n("irq")) ^ mix64((u64)s.n("garbage"), 3);
    if (s.n("broken") && f.r.ok()) { o.skipped = true; return; } // a mutation may have left the 16-bit range
    o.st.inc(f.r.ok() ? "probe.accepted" : "probe.rejected");
    string who = j.tool + ".com" + s.s("tail");
    if (!bitsOk(r, o, who, "")) return;
    if (r.end != E_EXIT) { o.fail("end", who + ": " + r.describe()); return; }
    if (r.ok() != f.r.ok()) { o.fail("status", who + " under DOS: " + r.describe() + "; host build: " + f.r.describe()); return; }
    if (!f.r.ok()) return;
    auto a = upperKeys(f.disk), b = w.disk.snapshot(); string why;
    for (auto& n : j.outputs) if (!sameFile(a, b, upper(n), &why)) { o.fail("output", who + ": DOS build writes something else than the host build: " + why); return; }
}

// ---------------------------------------------------------------- P14
void placeDosFaults(Rng& r, Scenario& s, const PcResult& ref, int n) {
    vector<const DosRec*> ops; for (auto& d : ref.calls) if (d.op >= 0) ops.push_back(&d);
    if (ops.empty()) return;
    while (n-- > 0) {
        int at = (int)r.below((u32)ops.size());
        if (r.chance(2, 3)) {
            int ah = r.pick({ 0x3C, 0x3D, 0x3E, 0x3F, 0x40, 0x40 }); vector<int> c;
            for (size_t i = 0; i < ops.size(); ++i) if (ops[i]->ah == ah) c.push_back((int)i);
            if (!c.empty()) at = r.chance(1, 4) ? c.back() : r.chance(1, 4) ? c.front() : c[r.below((u32)c.size())];
        }
        Fault f; f.op = ops[at]->op; f.kind = F_ERR; f.arg = (int)r.below(24);
        if (ops[at]->ah == 0x40) { u32 k = r.below(3); if (k == 0) { f.kind = F_SHORT; f.arg = r.chance(1, 2) ? r.range(1, 600) : ops[at]->cx - 1; if (f.arg < 1) f.arg = 1; } else if (k == 1) f.kind = F_ZERO; else if (r.chance(1, 2)) f.kind = F_LATE; }
        else if (ops[at]->ah == 0x3E && r.chance(1, 2)) { f.kind = F_LOSE; f.arg = r.range(0, 5000); }
        s.faults.push_back(f);
    }
}
Scenario genDosLie(Rng& r) {
    Scenario s; s.kind = "dos-faults";
    string tool = toolFor(r);
    Job j = makeInput(r, s, tool, "t", r.chance(1, 10), false);
    setJob(s, 0, j); if (tool == "scc") s.num["fixed"] = 1;
    machine(r, s); s.str["tail"] = tailOf(r, j);
    if (r.chance(1, 3)) stale(r, s, j);
    World w; w.applyFaults = false; w.disk.ci = true; w.disk.load(s.files);
    PcSpec p = pcSpec(s, tool, s.s("tail")); p.irqEvery = 0; p.fuel = 400000000;
    if (p.image.empty()) return s;
    PcResult ref = runPc(w, p);
    switch (r.below(7)) {
    case 0: { size_t out = 0; for (auto& n : j.outputs) { auto* f = w.disk.find(n); if (f) out += f->data.size(); } s.num["capacity"] = 1 + (long long)r.below((u32)out + 8); break; }
    case 1: placeDosFaults(r, s, ref, r.range(2, 5)); break;
    case 2: { int from = (int)r.below((u32)std::max<size_t>(1, ref.calls.size())); int k = (int)r.below(3); for (int i = from; i < from + 300; ++i) { Fault f; f.op = i; f.kind = k == 0 ? F_ERR : k == 1 ? F_ZERO : F_SHORT; f.arg = k == 2 ? 1 : 5; s.faults.push_back(f); } break; }
    case 3: if (r.chance(1, 3)) { s.num["fdlimit"] = 1; s.num["maxfds"] = (long long)r.below(4); break; } // fall through
    default: placeDosFaults(r, s, ref, 1);
    }
    return s;
}
void execDosLie(const Scenario& s, Outcome& o) {
    Job j = getJob(s, 0);
    map<string, string> clean = s.files; for (auto& n : j.outputs) clean.erase(n);
    Ref f = reference(s, 0, nullptr, &clean);
    if (!f.r.ok()) { o.skipped = true; o.st.inc("probe.reference-fails"); return; }
    if (toolCom(j.tool).empty()) { o.fail("build", j.tool + ".com cannot be built from the working tree"); return; }
    World w; w.sc = &s; w.oc = &o; w.disk.ci = true; w.disk.load(s.files); w.setFaults(s.faults);
    if (s.n("capacity") > 0) {
        for (auto& n : j.outputs) w.disk.files.erase(w.disk.key(n));
        w.disk.capacity = w.disk.used() + s.n("capacity") - 1;
    }
    PcSpec p = pcSpec(s, j.tool, s.s("tail")); p.fuel = 40ull * f.r.steps * 60 + 30000000;
    if (s.n("fdlimit")) p.maxFds = (int)s.n("maxfds");
    PcResult r = runPc(w, p);
    o.nontrivial = r.faultFired || r.errFired; o.shape = callHash(r);
    string who = j.tool + ".com" + s.s("tail"), ctx = faultText(s);
    if (!bitsOk(r, o, who, ctx)) return;
    if (r.ok()) {
        o.st.inc(r.faultFired ? "probe.success-despite-fault" : "probe.success");
        auto a = upperKeys(f.disk), b = w.disk.snapshot(); string why;
        for (auto& n : j.outputs) if (!sameFile(a, b, upper(n), &why)) { o.fail("false-success", who + ": exit code 0 but " + why + ctx); return; }
    } else {
        o.st.inc("probe.failure-reported");
        if (r.out.empty()) o.fail("silent", who + sfmt(": exit code %d without any message", r.code) + ctx);
        if (!r.faultFired && !r.errFired) o.fail("undisturbed", who + ": fails undisturbed: " + r.describe());
    }
}
} // namespace
#define REALDOS "scc.c, scpp.c, sas.c of the working tree: host builds, and .com files compiled by the host scc inside the simulator and executed instruction by instruction"
#define STUBDOS "8086 processor, DOS services, disk, interrupts and initial memory (reference machine)"
void registerDosChecks() {
    registerCheck({ "P13", [](Rng& r, u64) { return genSame(r); }, execSame, 24000, 400000, "seeded inputs x seeded machine state (memory and register garbage, interrupt times, DOS read sizes); non-trivial: more than three DOS calls; distinct by DOS call/result sequence and machine configuration", REALDOS, STUBDOS, "8086 instructions (probe.instructions) and DOS calls" });
    registerCheck({ "P14", [](Rng& r, u64) { return genDosLie(r); }, execDosLie, 24000, 400000, "seeded valid inputs x failing/short DOS calls, full disk, handle exhaustion, on a machine with seeded garbage and interrupts; non-trivial: a fault hit; distinct by DOS call/result sequence", REALDOS, STUBDOS, "8086 instructions (probe.instructions) and DOS calls" });
}
