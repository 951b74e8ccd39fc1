// P23: a whole build (preprocess, compile or assemble, execute) driven like a user or a make rule
// would: a step is repeated while it fails or is killed; after a power loss the build starts over.
#include "progs.h"
#include "jobs.h"
#include "checks.h"
namespace {
struct Step { string tool; vector<string> args; };
vector<Step> stepsOf(const Scenario& s) {
    vector<Step> v; string k = s.kind, in = "prog.c";
    if (k == "asm") v.push_back({ "sas", { "prog.s", "prog.com" } });
    else {
        if (k != "c") { v.push_back({ "scpp", { "prog.c", "prog.i" } }); in = "prog.i"; }
        if (s.n("default-out")) v.push_back({ "scc", { in } }); else v.push_back({ "scc", { in, "prog.com" } });
    }
    v.push_back({ "sim86", { "prog.com" } });
    return v;
}
int procOf(int step, int attempt) { return step * 64 + attempt; }

// The program and its files; text it has to print in *expect.
void source(Rng& r, const string& kind, int size, map<string, string>& f, string* expect) {
    Prog p;
    if (kind == "asm") { p = genRunAsm(r, size); f["prog.s"] = p.src; }
    else {
        p = genProgram(r, size, r.range(0, 2), kind == "clib");
        if (kind == "c") f["prog.c"] = r.chance(1, 3) ? padFront(r, p.src, "//") : p.src;
        else {
            if (kind == "clib") f["lib.h"] = readRealFile(gRepo + "/lib.h");
            if (r.chance(1, 3)) { // the text spread over headers and behind conditionals
                f["body.h"] = p.src;
                string m; int n = r.range(0, 12);
                while (n--) m += r.pick({ "// comment\n", "#define UNUSED_NAME 1\n", "#ifdef NOWHERE\nnot C at all ' \"\n#endif\n", "\n", "#define ON_1 1\n" });
                if (r.chance(1, 2)) m += "#ifndef NOT_DEFINED\n#include \"body.h\"\n#else\nnot C either\n#endif\n"; else m += "#include \"body.h\"\n";
                f["prog.c"] = m;
            } else f["prog.c"] = p.src;
        }
    }
    *expect = p.expect;
}
struct Chain {
    const Scenario& s; World& w; Outcome* o; vector<Step> steps; vector<int> attempts, disturbed; int total = 0;
    string out; bool failed = false; Hash sh; bool hit = false, dos = false;
    Chain(const Scenario& sc, World& wo, Outcome* oc) : s(sc), w(wo), o(oc), steps(stepsOf(sc)), attempts(steps.size(), 0), disturbed(steps.size(), 0) {}
    void bad(const string& c, const string& m) { failed = true; if (o) o->fail(c, m); }
    string log;
    // one attempt; 0 failed, 1 succeeded, 2 power loss
    int attempt(size_t i, string* text, string* desc) {
        int a = attempts[i]++, proc = procOf((int)i, a);
        long long cap = s.n(sfmt("cap%zu_%d", i, a));
        if (cap) w.disk.capacity = w.disk.used() + cap - 1;
        bool onDos = a < 40 && (s.n(sfmt("dos%zu", i)) >> a & 1);
        bool ok, power; string d;
        if (onDos) {
            PcSpec p; p.name = steps[i].tool; p.proc = proc; p.seed = mix64((u64)s.n("seed"), (u64)proc); p.garbage = 3; p.irqEvery = (int)s.n("irq"); p.fuel = 2000000000ull;
            if (steps[i].tool == "sim86") { auto* f = w.disk.find("prog.com"); p.image = f ? f->data : ""; p.name = "prog"; } // DOS runs the program itself
            else { p.image = toolCom(steps[i].tool); for (auto& x : steps[i].args) p.tail += " " + x; }
            p.readMode = s.n("splits") ? -1 : 0;
            if (p.image.empty()) { ok = false; power = false; d = "nothing to run"; }
            else { PcResult r = runPc(w, p); ok = r.ok(); power = r.end == E_POWER; d = r.describe(); *text = r.out; hit |= r.faultFired; sh.add(r.calls.size()); }
        } else {
            HostSpec h; h.tool = steps[i].tool; h.args = steps[i].args; h.proc = proc; h.seed = mix64((u64)s.n("seed"), (u64)proc);
            if (s.n("splits")) h.readMode = -1;
            h.fuel = 2000000000ull;
            HostResult r = w.run(h); ok = r.ok(); power = r.end == E_POWER; d = r.describe(); *text = r.out; hit |= r.faultFired; sh.add(r.ops.size());
        }
        sh.add((u64)(ok ? 1 : power ? 2 : 0) * 16 + i);
        if (cap) w.disk.capacity = -1;
        w.powerLost = false;
        *desc = d; log += sfmt(" %s%s:%s", steps[i].tool.c_str(), onDos ? "(DOS)" : "", ok ? "ok" : power ? "power-loss" : "failed");
        if (o) o->st.inc(ok ? "probe.step-succeeded" : power ? "probe.step-power-loss" : "probe.step-failed");
        return ok ? 1 : power ? 2 : 0;
    }
    void go(const string& expect) {
        for (auto& f : s.faults) { size_t i = (size_t)(f.proc / 64); int a = f.proc % 64; if (i < steps.size()) disturbed[i] = std::max(disturbed[i], a + 1); }
        for (auto& n : s.num) { size_t i; int a; if (sscanf(n.first.c_str(), "cap%zu_%d", &i, &a) == 2 && i < steps.size()) disturbed[i] = std::max(disturbed[i], a + 1); }
        vector<long long> late(steps.size()); for (size_t i = 0; i < steps.size(); ++i) late[i] = s.n(sfmt("late%zu", i));
        size_t i = 0; int limit = 4; for (int d : disturbed) limit += d + 1; limit *= 8;
        while (i < steps.size()) {
            if (++total > limit) return bad("stuck", "the build does not end:" + log);
            bool calm = attempts[i] >= disturbed[i];
            string text, d; int k = attempt(i, &text, &d);
            if (k == 2) { i = 0; continue; }
            if (k == 0) {
                if (calm) return bad(i + 1 == steps.size() ? "program-fails" : "stuck", sfmt("undisturbed %s fails (%s) after", steps[i].tool.c_str(), d.c_str()) + log);
                continue;
            }
            if (i + 1 == steps.size()) {
                out = text;
                if (text != expect) return bad("wrong-program", "the program built by" + log + " does not do what its source says: " + diffText(expect, text));
            }
            if (late[i]) { w.disk.powerLoss((u64)late[i]); late[i] = 0; if (o) { o->st.inc("fault.power-loss"); } hit = true; log += " (power loss)"; i = 0; continue; }
            ++i;
        }
    }
};
Scenario genChain(Rng& r) {
    Scenario s; s.kind = r.pick({ "c", "cpp", "cpp", "clib", "clib", "asm" });
    s.num["fixed"] = 1; s.num["seed"] = (long long)(r.next() >> 1);
    source(r, s.kind, r.range(1, s.kind == "asm" ? 30 : 8), s.files, &s.str["expect"]);
    if (s.kind != "asm" && r.chance(1, 4)) s.num["default-out"] = 1;
    if (r.chance(1, 4)) s.num["splits"] = 1;
    if (r.chance(1, 3)) { // an older version was built before
        map<string, string> f; string e; source(r, s.kind, r.range(1, 10), f, &e);
        for (auto& i : f) s.str["old:" + i.first] = i.second;
    }
    bool dos = r.chance(1, 6);
    auto steps = stepsOf(s);
    if (dos) { for (size_t i = 0; i < steps.size(); ++i) s.num[sfmt("dos%zu", i)] = (long long)(r.next() & 0xFFFFFFFFFFull); if (r.chance(1, 2)) s.num["irq"] = r.pick({ 20, 2000 }); }
    // operations of an undisturbed build
    World w; w.applyFaults = false; w.disk.ci = dos; w.disk.load(s.files);
    vector<vector<OpRec>> ops;
    for (auto& st : steps) { HostSpec h; h.tool = st.tool; h.args = st.args; HostResult x = w.run(h); vector<OpRec> v; for (auto& op : x.ops) if (!op.console) v.push_back(op); ops.push_back(v); }
    for (size_t i = 0; i < steps.size(); ++i) {
        int n = r.pick({ 0, 1, 1, 2, 3 });
        for (int a = 0; a < n; ++a) {
            if (r.chance(1, 8) && i + 1 < steps.size()) { s.num[sfmt("cap%zu_%d", i, a)] = 1 + (long long)r.below(r.chance(1, 2) ? 200 : 3000); continue; }
            if (ops[i].empty()) continue;
            int k = r.pick({ 1, 1, 1, 2, 4 });
            while (k--) {
                Fault f; f.proc = procOf((int)i, a); f.op = (int)r.below((u32)ops[i].size());
                if (r.chance(2, 3)) { OpKind want = (OpKind)r.below(5); vector<int> c; for (size_t q = 0; q < ops[i].size(); ++q) if (ops[i][q].kind == want) c.push_back((int)q); if (!c.empty()) f.op = r.chance(1, 3) ? c.back() : c[r.below((u32)c.size())]; }
                OpKind ok = ops[i][(size_t)f.op].kind;
                switch (r.below(8)) {
                case 0: f.kind = F_KILL; f.arg = r.chance(1, 2) ? 0 : r.range(1, 20000); break;
                case 1: f.kind = F_KILL_AFTER; break;
                case 2: f.kind = F_POWER; f.arg = (int)r.below(1000000); break;
                default:
                    f.kind = F_ERR; f.arg = (int)r.below(12);
                    if (ok == OP_WRITE) { u32 z = r.below(5); if (z == 0) { f.kind = F_SHORT; f.arg = r.chance(1, 2) ? r.range(1, 600) : r.pick({ 1, 511, 512, 256 }); } else if (z == 1) f.kind = F_ZERO; else if (z == 2) f.kind = F_LATE; }
                    else if (ok == OP_CLOSE && r.chance(1, 2)) { f.kind = F_LOSE; f.arg = r.range(0, 5000); }
                    else if (ok == OP_READ && r.chance(1, 3)) { f.kind = F_SHORT; f.arg = r.range(1, 300); }
                }

                s.faults.push_back(f);
            }
        }
        if (r.chance(1, 12)) s.num[sfmt("late%zu", i)] = 1 + (long long)r.below(1000000);
    }
    return s;
}
void execChain(const Scenario& s, Outcome& o) {
    World w; w.sc = &s; w.oc = &o; w.applyFaults = false;
    for (auto& i : s.num) if (i.first.rfind("dos", 0) == 0) w.disk.ci = true;
    map<string, string> old; for (auto& i : s.str) if (i.first.rfind("old:", 0) == 0) old[i.first.substr(4)] = i.second;
    if (!old.empty()) {
        w.disk.load(old);
        for (auto& st : stepsOf(s)) { if (st.tool == "sim86") break; HostSpec h; h.tool = st.tool; h.args = st.args; w.run(h); }
        for (auto& i : old) w.disk.files.erase(w.disk.key(i.first));
        o.st.inc("probe.older-build");
    }
    w.disk.load(s.files); w.disk.syncAll();
    w.applyFaults = true; w.setFaults(s.faults);
    Chain c(s, w, &o); c.go(s.s("expect"));
    o.shape = c.sh.h; o.nontrivial = c.hit;
    if (o.violated) o.msg += faultText(s);
    // the sources must have come through
    for (auto& i : s.files) { auto* f = w.disk.find(i.first); if (!f || f->data != i.second) { o.fail("source-damaged", "the build changed " + i.first); break; } }
}
// ---------------------------------------------------------------- P25
// A program built by the toolchain, on machines that differ in everything the 8086 and DOS leave open.
Scenario genProgramRun(Rng& r, u64) {
    Scenario s; s.kind = r.pick({ "c", "c", "c", "cpp", "clib", "clib", "asm", "asm" });
    s.num["fixed"] = 1; s.num["seed"] = (long long)(r.next() >> 1);
    source(r, s.kind, r.range(1, s.kind == "asm" ? 60 : r.chance(1, 6) ? 45 : 20), s.files, &s.str["expect"]);
    s.num["machines"] = r.range(1, 3);
    if (r.chance(3, 4)) s.num["irq"] = r.pick({ 1, 5, 50, 2000 });
    if (r.chance(1, 2)) s.num["mode"] = r.chance(1, 2) ? -1 : r.pick({ 1, 2, 7, 64, 100, 511, 512 });
    if (r.chance(1, 12)) s.num["dosbuild"] = 1;
    return s;
}
void execProgramRun(const Scenario& s, Outcome& o) {
    World w; w.sc = &s; w.oc = &o; w.disk.ci = true; w.disk.load(s.files);
    Hash sh; string built;
    for (auto& st : stepsOf(s)) {
        if (st.tool == "sim86") break;
        bool ok; string d;
        if (s.n("dosbuild")) { PcSpec p; p.name = st.tool; p.image = toolCom(st.tool); for (auto& x : st.args) p.tail += " " + x; p.seed = (u64)s.n("seed"); p.garbage = 3; p.irqEvery = (int)s.n("irq"); p.readMode = (int)s.n("mode"); p.fuel = 2000000000ull; if (p.image.empty()) { o.fail("build", st.tool + ".com cannot be built from the working tree"); return; } PcResult x = runPc(w, p); ok = x.ok(); d = x.describe(); }
        else { HostSpec h; h.tool = st.tool; h.args = st.args; h.seed = (u64)s.n("seed"); h.readMode = (int)s.n("mode"); HostResult x = w.run(h); ok = x.ok(); d = x.describe(); }
        if (!ok) { o.fail("rejected", st.tool + ": valid source, " + d); return; }
    }
    auto* f = w.disk.find("prog.com"); if (!f) { o.fail("no-output", "the build succeeds without writing prog.com"); return; }
    built = f->data; u64 steps = 0; int machines = (int)std::max(1LL, s.n("machines"));
    for (int m = 0; m < machines; ++m) {
        World v; v.sc = &s; v.oc = &o; v.disk.ci = true;
        PcSpec p; p.name = "prog"; p.image = built; p.tail = m == 1 ? " some arguments" : ""; p.seed = mix64((u64)s.n("seed"), (u64)m); p.garbage = (int)((s.n("seed") + m) & 3); p.irqEvery = m == 1 ? 0 : (int)s.n("irq"); p.fuel = 300000000ull;
        PcResult x = runPc(v, p); steps = x.steps; sh.add(x.steps);
        string who = sfmt("%s program on machine %d (memory pattern %d, %s): ", s.kind.c_str(), m, p.garbage, p.irqEvery ? sfmt("an interrupt about every %d instructions", p.irqEvery).c_str() : "no interrupts");
        if (!x.ok()) { o.fail("end", who + x.describe() + "; output " + diffText(s.s("expect"), x.out)); return; }
        if (x.out != s.s("expect")) { o.fail("output", who + "does not do what its source says: " + diffText(s.s("expect"), x.out)); return; }
        if (!v.disk.snapshot().empty()) { o.fail("files", who + "leaves files behind"); return; }
    }
    if (s.n("seed") % 4 == 0) { // and under the simulator
        World v; v.sc = &s; v.oc = &o; v.disk.put("prog.com", built);
        HostSpec h; h.tool = "sim86"; h.args = { "prog.com" }; h.seed = (u64)s.n("seed"); h.fuel = 400 * steps + 4000000;
        HostResult x = v.run(h); o.st.inc("probe.also-simulated");
        if (!x.ok() || x.out != s.s("expect")) { o.fail("simulated", s.kind + " program under sim86: " + x.describe() + "; " + diffText(s.s("expect"), x.out)); return; }
    }
    sh.add(hashStr(s.s("expect"))); o.shape = sh.h; o.nontrivial = steps > 20;
    o.st.inc("probe.kind-" + s.kind); o.st.inc("probe.machines", (u64)machines); if (s.n("dosbuild")) o.st.inc("probe.built-on-dos");
}
} // namespace
void registerChainChecks() {
    registerCheck({ "P25", genProgramRun, execProgramRun, 40000, 600000, "seeded C, preprocessed C, C with library and assembly programs x read sizes during the build x host or DOS build of the tools x machines (initial memory and registers, interrupt times, undefined flags); output compared with what the source says by construction; distinct by output and instruction counts", "scc.c, scpp.c, sas.c of the working tree (host build; every 12th run the DOS build); lib.h compiled into the programs; every 4th program also in sim86.c", "reference 8086 with DOS, disk, system calls; the program generator's evaluation of its own programs is the oracle", "8086 instructions (probe.instructions)" });
    registerCheck({ "P23", [](Rng& r, u64) { return genChain(r); }, execChain, 40000, 1000000, "seeded programs with known output x seeded builds: faults, kills, full disks and power losses distributed over the attempts of every step, older builds on disk, some attempts on the DOS builds; non-trivial: a fault hit; distinct by the sequence of steps, operations and results", "scpp.c, scc.c, sas.c, sim86.c and lib.h of the working tree (host builds; for some attempts the DOS builds)", "disk, system calls, process death and power loss, driver repeating the steps; reference machine for DOS attempts", "I/O operations and 8086 instructions" });
}
