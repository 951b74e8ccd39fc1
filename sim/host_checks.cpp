// P01-P12: the host builds of the preprocessor, compiler and assembler under simulated I/O.
#include "host.h"
#include "gen.h"
#include "checks.h"
#include "jobs.h"

// job j of a scenario: str "tool<j>", "args<j>" (space separated), "outs<j>"
vector<string> split(const string& s) { vector<string> v; string c; for (char ch : s) { if (ch == ' ') { if (!c.empty()) v.push_back(c); c.clear(); } else c += ch; } if (!c.empty()) v.push_back(c); return v; }
string join(const vector<string>& v) { string s; for (auto& x : v) s += (s.empty() ? "" : " ") + x; return s; }
void setJob(Scenario& s, int j, const Job& b) { s.str[sfmt("tool%d", j)] = b.tool; s.str[sfmt("args%d", j)] = join(b.args); s.str[sfmt("outs%d", j)] = join(b.outputs); }
Job getJob(const Scenario& s, int j) { Job b; b.tool = s.s(sfmt("tool%d", j)); b.args = split(s.s(sfmt("args%d", j))); b.outputs = split(s.s(sfmt("outs%d", j))); return b; }
HostSpec specOf(const Scenario& s, int j) {
    Job b = getJob(s, j);
    HostSpec h; h.tool = b.tool; h.args = b.args; h.proc = j; h.seed = (u64)s.n("seed"); return h;
}

string toolFor(Rng& r) { return r.pick({ "scc", "scc", "scpp", "scpp", "sas" }); }

// Put an input for tool into sc.files and describe the command line. Base name b.
static Job makeInput1(Rng& r, Scenario& sc, const string& tool, const string& b, int big, bool real);
Job makeInput(Rng& r, Scenario& sc, const string& tool, const string& b, int big, bool real) {
    // the generators stay within the accepted language except for rare corners: try again then
    for (int i = 0;; ++i) {
        Scenario t; Job j = makeInput1(r, t, tool, b, big, real);
        if (i < 4) {
            World w; w.applyFaults = false; w.disk.load(t.files);
            HostSpec h; h.tool = tool; h.args = j.args;
            if (!w.run(h).ok()) continue;
        }
        for (auto& f : t.files) sc.files[f.first] = f.second;
        return j;
    }
}
static Job makeInput1(Rng& r, Scenario& sc, const string& tool, const string& b, int big, bool real) {
    Job j; j.tool = tool;
    bool explicitOut = r.chance(1, 3);
    string in, src, out;
    if (tool == "scc") {
        in = b + (r.chance(1, 8) ? ".i" : ".c");
        u32 k = r.below(10);
        if (k < 4) src = genLexC(r, r.range(1, big ? 40 : 14), !real);
        else if (k < 8) src = genProgram(r, r.range(1, big ? 24 : 8), r.range(0, 2), false).src;
        else if (k == 8) src = "void _start(void){}\n";
        else if (real) src = readRealFile(gRepo + "/" + r.pick({ "sas.c", "scpp.c", "scc.c" }));
        else src = genLexC(r, 30, true);
        if (src.find("_start") == string::npos) src += "void _start(void) { }\n";
        if (k != 9 && r.chance(1, 2)) src = padFront(r, src, "//");
        if (explicitOut) { out = r.pick({ "res", "out.bin", "a.x.exe" }); if (r.chance(1, 2)) out = b + "o.com"; out = b + out; }
        string base = explicitOut ? out : in;
        size_t dot = base.rfind('.');
        string stem = dot == string::npos ? base : base.substr(0, dot);
        j.outputs = { explicitOut ? out : stem + ".com", stem + ".map" };
    } else if (tool == "scpp") {
        in = b + ".c";
        map<string, string> f;
        genPP(r, f, in, r.range(1, big ? 80 : 40));
        if (real && r.chance(1, 12)) f[in] = readRealFile(gRepo + "/" + r.pick({ "lib.h", "scc.c", "sas.c" }));
        for (auto& i : f) if (i.first != in || true) sc.files[i.first] = i.second;
        src = f[in];
        if (explicitOut) out = b + r.pick({ "o.i", "pp.txt" });
        j.outputs = { explicitOut ? out : b + ".i" };
    } else {
        in = b + r.pick({ ".asm", ".s" });
        src = genAsm(r, r.range(1, big ? 150 : 60));
        if (r.chance(1, 2)) src = padFront(r, src, ";");
        if (explicitOut) out = b + r.pick({ "o.com", "bin" });
        j.outputs = { explicitOut ? out : b + ".com" };
    }
    sc.files[in] = src;
    j.args = { in };
    if (explicitOut) j.args.push_back(out);
    return j;
}
static string where(const HostResult& r) { return r.describe(); }

Ref reference(const Scenario& sc, int j, Outcome* oc, const map<string, string>* files) {
    World w; w.sc = &sc; w.oc = oc; w.applyFaults = false;
    w.disk.load(files ? *files : sc.files);
    Ref f; f.r = w.run(specOf(sc, j)); f.disk = w.disk.snapshot();
    return f;
}
static bool insane(const Ref& f, Outcome& o, const string& who) { // the undisturbed run must itself behave
    if (f.r.end != E_EXIT) { o.fail("undisturbed-crash", who + " does not end normally on an undisturbed run: " + where(f.r)); return true; }
    return false;
}
static string got(const map<string, string>& d, const string& n, bool* have) { auto i = d.find(n); *have = i != d.end(); return *have ? i->second : string(); }
bool sameFile(const map<string, string>& a, const map<string, string>& b, const string& n, string* why) {
    bool ha, hb; string x = got(a, n, &ha), y = got(b, n, &hb);
    if (ha == hb && x == y) return true;
    *why = ha && !hb ? n + " is missing" : !ha && hb ? n + " exists but should not" : n + ": " + diffText(x, y);
    return false;
}
static u64 opsHash(const HostResult& r) { Hash h; for (auto& o : r.ops) { h.add(o.kind); h.add(o.path); h.add((u64)o.got); } return h.h; }

// ---------------------------------------------------------------- P01-P03 read splitting
namespace {
Scenario genSplit(const string& tool, Rng& r) {
    Scenario s; s.kind = "split";
    setJob(s, 0, makeInput(r, s, tool, "t", r.chance(1, 6)));
    if (r.chance(1, 10) && tool != "scpp") { // diagnostics must not depend on it either
        auto& f = s.files[getJob(s, 0).args[0]]; f = tool == "scc" ? breakC(r, f) : breakAsm(r, f);
    }
    switch (r.below(8)) {
    case 0: s.num["mode"] = 1; break;
    case 1: s.num["mode"] = r.range(2, 9); break;
    case 2: s.num["mode"] = r.pick({ 511, 512, 513, 510, 256, 255, 128, 127, 64 }); break;
    case 3: s.num["mode"] = r.range(10, 600); break;
    default: s.num["mode"] = -1;
    }
    s.num["seed"] = (long long)(r.next() >> 1);
    return s;
}
void execSplit(const Scenario& s, Outcome& o) {
    Job j = getJob(s, 0);
    Ref f = reference(s, 0, &o);
    if (f.r.end != E_EXIT) { o.skipped = true; o.st.inc("probe.reference-abnormal"); return; }
    World w; w.sc = &s; w.oc = &o; w.disk.load(s.files);
    HostSpec h = specOf(s, 0); h.readMode = (int)s.n("mode");
    u64 before = o.st.c["fault.split-read"];
    HostResult r = w.run(h);
    u64 splits = o.st.c["fault.split-read"] - before;
    o.nontrivial = splits > 0;
    o.shape = opsHash(r);
    o.st.inc(f.r.ok() ? "probe.accepted" : "probe.rejected");
    auto d = w.disk.snapshot();
    string why;
    if (r.end != f.r.end || r.code != f.r.code) o.fail("status", sfmt("%s %s: with %llu split reads: %s; with full reads: %s", j.tool.c_str(), j.args[0].c_str(), (unsigned long long)splits, where(r).c_str(), where(f.r).c_str()));
    else if (r.out != f.r.out || r.err != f.r.err) o.fail("console", j.tool + ": console text differs under split reads: " + diffText(f.r.out + f.r.err, r.out + r.err));
    else {
        std::set<string> names; for (auto& i : d) names.insert(i.first); for (auto& i : f.disk) names.insert(i.first);
        for (auto& n : names) if (!sameFile(f.disk, d, n, &why)) { o.fail("output", j.tool + ": file differs under split reads: " + why); break; }
    }
}

// ---------------------------------------------------------------- fault placement
// Kinds of operation of an undisturbed run, to aim faults at.
void placeFaults(Rng& r, Scenario& s, const HostResult& ref, int n, int proc, bool shorts) {
    vector<int> idx; // operation indexes that count (no console)
    vector<OpKind> kinds; vector<string> paths;
    for (auto& op : ref.ops) if (!op.console) { kinds.push_back(op.kind); paths.push_back(op.path); }
    if (kinds.empty()) return;
    while (n-- > 0) {
        Fault f; f.proc = proc;
        // half of the time aim at a rare kind of operation
        int at = (int)r.below((u32)kinds.size());
        if (r.chance(2, 3)) {
            OpKind k = (OpKind)r.below(5); vector<int> c;
            for (size_t i = 0; i < kinds.size(); ++i) if (kinds[i] == k) c.push_back((int)i);
            if (!c.empty()) at = r.chance(1, 4) ? c.back() : r.chance(1, 4) ? c.front() : c[r.below((u32)c.size())];
        }
        f.op = at; f.kind = F_ERR; f.arg = (int)r.below(12);
        if (kinds[at] == OP_WRITE) {
            if (shorts && r.chance(1, 2)) { f.kind = F_SHORT; f.arg = r.chance(1, 2) ? r.range(1, 600) : r.pick({ 1, 511, 512, 256, 4096 }); }
            else if (r.chance(1, 3)) f.kind = F_ZERO;
            else if (r.chance(1, 3)) f.kind = F_LATE;
        } else if (kinds[at] == OP_READ) {
            if (shorts && r.chance(1, 6)) { f.kind = F_SHORT; f.arg = r.range(1, 300); }
        } else if (kinds[at] == OP_CLOSE && r.chance(1, 2)) { f.kind = F_LOSE; f.arg = r.range(0, 5000); }
        s.faults.push_back(f);
    }
}
}
string faultText(const Scenario& s) { string t; for (auto& f : s.faults) t += sfmt(" [op %d %s %d]", f.op, faultNames[f.kind], f.arg); if (s.n("capacity") > 0) t += sfmt(" [disk full after %lld bytes]", s.n("capacity") - 1); return t; }
void stale(Rng& r, Scenario& s, const Job& j) {
    for (auto& o : j.outputs) if (r.chance(1, 2)) {
        string d; int n = r.pick({ 0, 1, 30, 600, 5000, 30000 });
        for (int i = 0; i < n; ++i) d += (char)(i * 7 + 33);
        s.files[o] = d;
    }
}

namespace {
// ---------------------------------------------------------------- P04-P06 no false success
Scenario genLie(const string& tool, Rng& r) {
    Scenario s; s.kind = "faults";
    Job j = makeInput(r, s, tool, "t", r.chance(1, 8));
    setJob(s, 0, j);
    if (r.chance(1, 2)) stale(r, s, j);
    s.num["seed"] = (long long)(r.next() >> 1);
    Ref f = reference(s, 0);
    switch (r.below(6)) {
    case 0: { // disk fills up
        size_t in = 0, out = 0; for (auto& i : s.files) in += i.second.size(); (void)in;
        for (auto& n : j.outputs) { auto i = f.disk.find(n); if (i != f.disk.end()) out += i->second.size(); }
        s.num["capacity"] = 1 + (long long)r.below((u32)out + 8); break;
    }
    case 1: placeFaults(r, s, f.r, r.range(2, 4), 0, true); break;
    default: placeFaults(r, s, f.r, 1, 0, true);
    }
    if (r.chance(1, 4)) s.num["mode"] = -1; // read sizes vary as well (operation numbers shift)
    return s;
}
void execLie(const Scenario& s, Outcome& o) {
    Job j = getJob(s, 0);
    map<string, string> clean = s.files; for (auto& n : j.outputs) clean.erase(n);
    Ref f = reference(s, 0, nullptr, &clean);
    if (f.r.end != E_EXIT) { o.skipped = true; o.st.inc("probe.reference-abnormal"); return; }
    World w; w.sc = &s; w.oc = &o; w.disk.load(s.files); w.setFaults(s.faults);
    if (s.n("capacity") > 0) { // capacity counts what may be added beyond the inputs
        long long in = 0; for (auto& i : clean) in += (long long)i.second.size();
        w.disk.capacity = in + s.n("capacity") - 1;
        for (auto& n : j.outputs) w.disk.files.erase(n);
    }
    HostSpec h = specOf(s, 0); h.readMode = (int)s.n("mode");
    HostResult r = w.run(h);
    o.nontrivial = r.faultFired; o.shape = opsHash(r);
    if (r.ok()) {
        o.st.inc(r.faultFired ? "probe.success-despite-fault" : "probe.success");
        auto d = w.disk.snapshot(); string why;
        if (!f.r.ok()) o.fail("false-success", j.tool + ": exit status 0 although the undisturbed run fails (" + where(f.r) + ")" + faultText(s));
        for (auto& n : j.outputs) if (!sameFile(f.disk, d, n, &why)) { o.fail("false-success", j.tool + ": exit status 0 but " + why + faultText(s)); break; }
    } else o.st.inc("probe.failure-reported");
}

// ---------------------------------------------------------------- P07 previous executable survives a failed compile
Scenario genKeep(Rng& r) {
    Scenario s;
    string tool = r.pick({ "scc", "scc", "sas" });
    Job j = makeInput(r, s, tool, "prog", r.chance(1, 6));
    setJob(s, 0, j);
    s.num["seed"] = (long long)(r.next() >> 1);
    if (r.chance(1, 4)) s.num["mode"] = r.chance(1, 2) ? -1 : 1 + (long long)r.below(300);
    if (r.chance(2, 3)) { string old; int n = r.pick({ 1, 2, 100, 511, 3000, 40000 }); for (int i = 0; i < n; ++i) old += (char)(i * 31 + 7); s.files[j.outputs[0]] = old; }
    if (r.chance(1, 2)) {
        s.kind = "bad-source";
        int n = r.range(1, 2); auto& f = s.files[j.args[0]];
        while (n--) f = tool == "scc" ? breakC(r, f) : breakAsm(r, f);
    } else {
        s.kind = "bad-io";
        Ref f = reference(s, 0);
        vector<int> c; int i = 0;
        for (auto& op : f.r.ops) { if (op.console) continue; if ((op.kind == OP_OPEN || op.kind == OP_READ) && op.path == j.args[0]) c.push_back(i); ++i; }
        if (!c.empty()) { Fault x; x.op = r.chance(1, 5) ? c[0] : c[r.below((u32)c.size())]; x.kind = F_ERR; x.arg = (int)r.below(12); s.faults.push_back(x); }
        if (r.chance(1, 10)) { s.files.erase(j.args[0]); s.faults.clear(); s.kind = "no-source"; }
    }
    return s;
}
void execKeep(const Scenario& s, Outcome& o) {
    Job j = getJob(s, 0);
    Scenario plain = s; plain.faults.clear();
    Ref f = reference(plain, 0);
    if (f.r.end != E_EXIT) { if (f.r.end == E_HANG) { o.skipped = true; return; } o.st.inc("probe.reference-abnormal"); } // a crash on bad source still must not touch the executable
    World w; w.sc = &s; w.oc = &o; w.disk.load(s.files); w.setFaults(s.faults);
    HostSpec h = specOf(s, 0); h.readMode = (int)s.n("mode");
    HostResult r = w.run(h);
    o.shape = opsHash(r) ^ hashStr(r.out);
    bool mustFail = !f.r.ok();
    o.nontrivial = mustFail || r.errFired;
    if (mustFail) o.st.inc("fault.bad-source");
    auto d = w.disk.snapshot(); string why;
    if (r.ok()) {
        if (mustFail) { o.fail("accepted", j.tool + ": exit status 0 on input whose undisturbed run fails: " + where(f.r)); return; }
        if (r.errFired && !sameFile(f.disk, d, j.outputs[0], &why)) o.fail("accepted", j.tool + ": source could not be read to its end but exit status is 0 and " + why + faultText(s));
        return;
    }
    o.st.inc("probe.failed-run");
    if (!sameFile(s.files, d, j.outputs[0], &why)) o.fail("clobbered", j.tool + ": failed run (" + where(r) + ") changed the previous executable: " + why + faultText(s));
}

// ---------------------------------------------------------------- P08 rerun after a crash
Scenario genRerun(Rng& r) {
    Scenario s; s.kind = "crash-rerun";
    string tool = toolFor(r);
    Job j = makeInput(r, s, tool, "t", r.chance(1, 6));
    setJob(s, 0, j);
    s.num["seed"] = (long long)(r.next() >> 1);
    if (r.chance(1, 2)) stale(r, s, j);
    if (r.chance(1, 3)) { // history: an older version of the source was built before
        Scenario t; Job j2 = makeInput(r, t, tool, "t", 1);
        s.str["older"] = t.files[j2.args[0]];
    }
    Ref f = reference(s, 0);
    int n = 0; for (auto& op : f.r.ops) if (!op.console) ++n;
    int crashes = r.chance(1, 4) ? r.range(2, 3) : 1;
    for (int c = 0; c < crashes; ++c) {
        Fault x; x.proc = 10 + c;
        vector<int> wr; int i = 0;
        for (auto& op : f.r.ops) { if (op.console) continue; if (op.kind != OP_READ) wr.push_back(i); ++i; }
        x.op = r.chance(2, 3) && !wr.empty() ? wr[r.below((u32)wr.size())] : (int)r.below((u32)std::max(1, n));
        switch (r.below(5)) {
        case 0: x.kind = F_KILL; break;
        case 1: x.kind = F_KILL; x.arg = r.range(1, 30000); break;
        case 2: x.kind = F_KILL_AFTER; break;
        default: x.kind = F_POWER; x.arg = (int)r.below(1000000);
        }
        s.faults.push_back(x);
        if (r.chance(1, 6)) { Fault y = x; y.kind = F_ERR; y.op = (int)r.below((u32)std::max(1, x.op)); y.arg = (int)r.below(12); s.faults.push_back(y); }
    }
    s.num["crashes"] = crashes;
    if (r.chance(1, 5)) s.num["late-power"] = 1 + (long long)r.below(100000); // power loss after a completed run
    return s;
}
void execRerun(const Scenario& s, Outcome& o) {
    Job j = getJob(s, 0);
    map<string, string> clean = s.files; for (auto& n : j.outputs) clean.erase(n);
    Ref f = reference(s, 0, nullptr, &clean);
    if (!f.r.ok()) { o.skipped = true; o.st.inc("probe.reference-fails"); return; }
    World w; w.sc = &s; w.oc = &o; w.disk.load(s.files);
    HostSpec h = specOf(s, 0);
    if (s.str.count("older")) {
        string cur = s.files.at(j.args[0]); w.disk.put(j.args[0], s.s("older")); w.run(h); w.disk.put(j.args[0], cur); o.st.inc("probe.older-build");
    }
    w.disk.syncAll();
    w.setFaults(s.faults);
    Hash sh;
    for (int c = 0; c < (int)s.n("crashes"); ++c) {
        HostSpec hc = h; hc.proc = 10 + c;
        HostResult r = w.run(hc);
        if (r.end == E_KILLED || r.end == E_POWER) o.nontrivial = true;
        w.powerLost = false; sh.add(opsHash(r)); sh.add(r.end);
    }
    if (s.n("late-power")) { HostSpec hc = h; hc.proc = 30; w.run(hc); w.disk.powerLoss((u64)s.n("late-power")); o.st.inc("fault.power-loss"); o.nontrivial = true; }
    for (auto& n : j.outputs) sh.add(w.disk.find(n) ? hashStr(w.disk.find(n)->data) : 1);
    HostSpec hf = h; hf.proc = 0;
    HostResult r = w.run(hf);
    o.shape = sh.h;
    auto d = w.disk.snapshot(); string why;
    if (!r.ok()) { o.fail("rerun-fails", j.tool + ": the rerun after an interruption fails: " + where(r) + faultText(s)); return; }
    if (r.out != f.r.out) { o.fail("rerun-console", j.tool + ": console text of the rerun differs: " + diffText(f.r.out, r.out)); return; }
    for (auto& n : j.outputs) if (!sameFile(f.disk, d, n, &why)) { o.fail("rerun-output", j.tool + ": after the rerun " + why + faultText(s)); return; }
    for (auto& i : clean) if (!sameFile(clean, d, i.first, &why)) { o.fail("rerun-input", j.tool + ": after the rerun the input " + why); return; }
}

// ---------------------------------------------------------------- P09 only documented outputs change
static string swapExt(const string& n, const string& e) { // the last component's extension
    size_t sl = n.find_last_of("/\\"), dot = n.rfind('.');
    return (dot == string::npos || (sl != string::npos && dot < sl) ? n : n.substr(0, dot)) + e;
}
static string oddPath(Rng& r, const string& ext) {
    string p = r.pick({ "", "", "", "d/", "v1.2/", "../x.y/", ".../", "a.b\\c\\", "c:\\src.old\\", "one.c/two.c/", "d/e/f/g.h/" });
    if (r.chance(1, 6)) { int n = r.range(1, 100); p += 'p'; while (n-- > 0) p += n % 13 ? (n % 7 || p.empty() || p.back() == '/' ? 'p' : '.') : '/'; p += "/"; }
    string st = r.pick({ "t", "prog", "a.b.c", "x-1.2", "t.c", "com", "i.map", "T" });
    if (r.chance(1, 6)) st += string((size_t)r.range(1, 60), 'n');
    return p + st + ext;
}
static void oddNames(Rng& r, Scenario& s, Job& j) { // any path for the input and the output
    string in = oddPath(r, r.chance(1, 2) ? j.args[0].substr(j.args[0].rfind('.')) : r.pick({ "", ".", ".x", ".tar.c", ".long-extension", ".C" })), src = s.files[j.args[0]];
    for (auto& f : s.files) if (f.first == in && in != j.args[0]) return;
    vector<string> a = { in }, outs;
    if (r.chance(1, 2)) a.push_back(oddPath(r, r.pick({ "", ".com", ".i", ".o", ".x.y", "." })));
    if (a.size() > 1) outs = { a[1] }; else outs = { swapExt(in, j.tool == "scpp" ? ".i" : ".com") };
    if (j.tool == "scc") outs.push_back(swapExt(a.back(), ".map"));
    for (auto& o : outs) if (s.files.count(o) || o == in) return;
    if (outs.size() == 2 && outs[0] == outs[1]) return;
    s.files.erase(j.args[0]); s.files[in] = src; j.args = a; j.outputs = outs;
    auto by = [&](const string& n) { if (!n.empty() && n != in && std::find(outs.begin(), outs.end(), n) == outs.end() && r.chance(1, 2)) s.files[n] = "bystander " + n + "\n"; };
    for (auto e : { ".com", ".map", ".i" }) for (auto& x : a) { by(x + e); by(x.substr(0, x.find('.')) + e); by(swapExt(x, e)); size_t sl = x.find_last_of("/\\"); if (sl != string::npos) { by(x.substr(sl + 1) + e); by(swapExt(x.substr(sl + 1), e)); by(x.substr(0, sl) + e); by(swapExt(x.substr(0, sl), e)); } by("t" + string(e)); }
}
Scenario genOnly(Rng& r) {
    Scenario s; s.kind = "bystanders";
    string tool = toolFor(r);
    Job j = makeInput(r, s, tool, "t", r.chance(1, 8));
    if (r.chance(2, 5)) oddNames(r, s, j);
    setJob(s, 0, j);
    s.num["seed"] = (long long)(r.next() >> 1);
    if (r.chance(1, 3)) stale(r, s, j);
    if (r.chance(1, 4)) { auto& f = s.files[j.args[0]]; f = tool == "sas" ? breakAsm(r, f) : breakC(r, f); }
    for (auto n : { "t.com", "t.map", "t.i", "t", "t.c~", "t.tmp", "t.obj", "t.lst", "out.com", "a.out", "scc.tmp", "lib.h", "t.bak", "to.com", "to.map", "t.h", "tres.map", "tout.map", "t.$$$", "T.COM" }) {
        if (s.files.count(n) || std::find(j.outputs.begin(), j.outputs.end(), n) != j.outputs.end()) continue;
        if (r.chance(1, 2)) s.files[n] = string("bystander ") + n + "\n";
    }
    Ref f = reference(s, 0);
    int k = (int)r.below(8);
    if (k < 4) placeFaults(r, s, f.r, r.range(1, 3), 0, true);
    else if (k < 6) { Fault x; int n = 0; for (auto& op : f.r.ops) if (!op.console) ++n; x.op = (int)r.below((u32)std::max(1, n)); x.kind = r.chance(1, 2) ? F_KILL : F_KILL_AFTER; x.arg = (int)r.below(3000); s.faults.push_back(x); }
    else if (k == 6) s.num["capacity"] = 1 + (long long)r.below(2000);
    if (r.chance(1, 4)) s.num["maxfds"] = r.range(1, 4);
    return s;
}
void execOnly(const Scenario& s, Outcome& o) {
    Job j = getJob(s, 0);
    World w; w.sc = &s; w.oc = &o; w.disk.load(s.files); w.setFaults(s.faults);
    if (s.n("capacity") > 0) w.disk.capacity = w.disk.used() + s.n("capacity") - 1;
    HostSpec h = specOf(s, 0); h.fuel = 150000000; if (s.n("maxfds")) h.maxFds = (int)s.n("maxfds");
    HostResult r = w.run(h);
    o.nontrivial = r.faultFired || r.errFired || r.end != E_EXIT || r.code != 0; o.shape = opsHash(r);
    auto d = w.disk.snapshot(); string why;
    std::set<string> outs(j.outputs.begin(), j.outputs.end()), names;
    for (auto& i : d) names.insert(i.first); for (auto& i : s.files) names.insert(i.first);
    for (auto& op : r.ops) if ((op.kind == OP_CREATE || op.kind == OP_OTHER) && !outs.count(op.path) && op.path.compare(0, 6, "lseek ")) { o.fail("opened-for-writing", j.tool + ": " + op.path + " is not one of the outputs (" + join(j.outputs) + ") but was opened for writing or altered" + faultText(s)); return; }
    for (auto& n : names) if (!outs.count(n) && !sameFile(s.files, d, n, &why)) { o.fail("bystander", j.tool + ": a file that is not an output changed: " + why + faultText(s)); return; }
    if (r.ok()) for (auto& n : outs) if (!d.count(n)) { o.fail("misplaced", j.tool + ": exit status 0 but there is no output " + n + faultText(s)); return; }
    o.st.inc(j.args.size() > 1 ? "probe.named-output" : "probe.default-output"); if (j.args[0].find_first_of("/\\") != string::npos) o.st.inc("probe.path-with-directory");
}

// ---------------------------------------------------------------- P10 concurrent runs
Scenario genConc(Rng& r) {
    Scenario s; s.kind = "concurrent";
    int n = r.range(2, 4);
    s.num["procs"] = n; s.num["seed"] = (long long)(r.next() >> 1);
    for (int i = 0; i < n; ++i) {
        if (i && r.chance(1, 4)) { // same source, other output
            Job j = getJob(s, (int)r.below((u32)i)); string out = sfmt("share%d.o", i);
            j.args = { j.args[0], out };
            j.outputs = j.tool == "scc" ? vector<string>{ out, sfmt("share%d.map", i) } : vector<string>{ out };
            setJob(s, i, j);
            continue;
        }
        string tool = i < 2 && r.chance(1, 2) ? "scpp" : toolFor(r);
        Scenario t; Job j = makeInput(r, t, tool, sfmt("p%d", i), 0);
        if (tool == "scpp" && i && r.chance(1, 2)) { // share the include files of another preprocessor run
            for (auto& f : t.files) if (!s.files.count(f.first)) s.files[f.first] = f.second;
        } else {
            bool clash = false; for (auto& f : t.files) if (s.files.count(f.first)) clash = true;
            if (clash) for (auto& f : t.files) { if (!s.files.count(f.first)) s.files[f.first] = f.second; }
            else for (auto& f : t.files) s.files[f.first] = f.second;
        }
        if (r.chance(1, 8)) { auto& f = s.files[j.args[0]]; f = tool == "sas" ? breakAsm(r, f) : breakC(r, f); }
        setJob(s, i, j);
    }
    int len = r.range(0, 400), style = (int)r.below(3), cur = 0;
    for (int i = 0; i < len; ++i) { if (style == 0 || r.chance(1, style == 1 ? 4 : 20)) cur = (int)r.below((u32)n); s.sched.push_back(cur); }
    if (r.chance(1, 3)) { s.num["mode"] = -1; }
    if (r.chance(1, 6)) s.num["killone"] = 1 + (long long)r.below(40); // one of them dies on the way; the others must not care
    return s;
}
void execConc(const Scenario& s, Outcome& o) {
    int n = std::max(1, (int)s.n("procs"));
    vector<Ref> refs; vector<HostSpec> specs;
    for (int i = 0; i < n; ++i) {
        if (getJob(s, i).tool.empty()) { o.skipped = true; return; }
        Ref f = reference(s, i); if (f.r.end != E_EXIT) { o.skipped = true; return; }
        refs.push_back(f); HostSpec h = specOf(s, i); h.readMode = (int)s.n("mode"); h.seed = mix64(h.seed, i); specs.push_back(h);
    }
    { // runs with different outputs must not write a common file
        map<string, int> owner; std::set<string> declared; bool clash = false;
        for (int i = 0; i < n; ++i) for (auto& x : getJob(s, i).outputs) if (!declared.insert(x).second) clash = true;
        for (int i = 0; i < n && !clash; ++i) for (auto& op : refs[i].r.ops) if (op.kind == OP_CREATE && op.got >= 0) {
            auto p = owner.insert({ op.path, i });
            if (!p.second && p.first->second != i) { o.fail("shared-output", sfmt("runs %d and %d (%s %s / %s) have different outputs but both write %s", p.first->second, i, getJob(s, i).tool.c_str(), join(getJob(s, p.first->second).args).c_str(), join(getJob(s, i).args).c_str(), op.path.c_str())); return; }
        }
    }
    World w; w.sc = &s; w.oc = &o; w.disk.load(s.files);
    if (s.n("killone")) { Fault x; x.proc = 0; x.op = (int)s.n("killone") - 1; x.kind = F_KILL; w.setFaults({ x }); }
    u64 order = 0, sw = 0;
    auto rs = w.runAll(specs, s.sched, &order, &sw);
    o.st.inc("fault.context-switch", sw); o.nontrivial = sw > (u64)n; o.shape = mix64(order, hashStr(s.str.at("tool0")));
    auto d = w.disk.snapshot(); string why;
    for (int i = 0; i < n; ++i) {
        Job j = getJob(s, i);
        if (rs[i].end == E_KILLED) continue;
        if (rs[i].end != refs[i].r.end || rs[i].code != refs[i].r.code) { o.fail("status", sfmt("run %d (%s %s) ends differently next to others: %s; alone: %s", i, j.tool.c_str(), join(j.args).c_str(), where(rs[i]).c_str(), where(refs[i].r).c_str())); return; }
        if (rs[i].out != refs[i].r.out || rs[i].err != refs[i].r.err) { o.fail("console", sfmt("run %d (%s): console text differs next to others: ", i, j.tool.c_str()) + diffText(refs[i].r.out, rs[i].out)); return; }
        for (auto& f : j.outputs) if (!sameFile(refs[i].disk, d, f, &why)) { o.fail("output", sfmt("run %d (%s %s): ", i, j.tool.c_str(), join(j.args).c_str()) + why); return; }
    }
    for (auto& f : s.files) { bool out = false; for (int i = 0; i < n; ++i) for (auto& x : getJob(s, i).outputs) if (x == f.first) out = true; if (!out && !sameFile(s.files, d, f.first, &why)) { o.fail("input", "an input changed: " + why); return; } }
}

// ---------------------------------------------------------------- P11 clean termination
Scenario genClean(Rng& r) {
    Scenario s; s.kind = "storm";
    string tool = toolFor(r);
    Job j = makeInput(r, s, tool, "t", r.chance(1, 8));
    setJob(s, 0, j);
    s.num["seed"] = (long long)(r.next() >> 1);
    if (r.chance(1, 3)) stale(r, s, j);
    Ref f = reference(s, 0);
    int n = 0; for (auto& op : f.r.ops) if (!op.console) ++n;
    switch (r.below(7)) {
    case 0: { // from some point on everything of one kind fails
        int from = (int)r.below((u32)std::max(1, n)), k = (int)r.below(4);
        for (int i = from; i < from + 600; ++i) { Fault x; x.op = i; x.kind = k == 0 ? F_ERR : k == 1 ? F_ZERO : k == 2 ? F_SHORT : F_ERR; x.arg = k == 2 ? 1 : (int)r.below(2) + k; s.faults.push_back(x); }
        s.kind = "all-fail"; break;
    }
    case 1: s.num["capacity"] = 1 + (long long)r.below(3000); break;
    case 2: s.num["maxfds"] = (long long)r.below(4); s.num["fdlimit"] = 1; break;
    case 3: placeFaults(r, s, f.r, r.range(3, 10), 0, true); break;
    default: placeFaults(r, s, f.r, 1, 0, true);
    }
    if (r.chance(1, 3)) s.num["mode"] = r.chance(1, 2) ? -1 : 1 + (long long)r.below(64);
    return s;
}
void execClean(const Scenario& s, Outcome& o) {
    Job j = getJob(s, 0);
    map<string, string> clean = s.files; for (auto& n : j.outputs) clean.erase(n);
    Ref f = reference(s, 0, nullptr, &clean);
    if (!f.r.ok()) { // valid inputs only: the undisturbed run itself has to be clean
        if (f.r.end != E_EXIT) o.fail("undisturbed", j.tool + " does not end cleanly even undisturbed: " + where(f.r));
        else { o.skipped = true; o.st.inc("probe.reference-fails"); }
        return;
    }
    World w; w.sc = &s; w.oc = &o; w.disk.load(s.files); w.setFaults(s.faults);
    if (s.n("capacity") > 0) w.disk.capacity = w.disk.used() + s.n("capacity") - 1;
    HostSpec h = specOf(s, 0); h.readMode = (int)s.n("mode"); if (s.n("fdlimit")) h.maxFds = (int)s.n("maxfds");
    h.fuel = 8 * f.r.steps + 3000000;
    HostResult r = w.run(h);
    o.nontrivial = r.faultFired || r.errFired; o.shape = opsHash(r) ^ (u64)r.end;
    if (r.end == E_HANG) o.fail("hang", j.tool + sfmt(": still running after %llu steps (undisturbed run: %llu)", (unsigned long long)h.fuel, (unsigned long long)f.r.steps) + faultText(s));
    else if (r.end == E_MEM) o.fail("memory", j.tool + ": access outside its objects" + faultText(s));
    else if (r.end != E_EXIT) o.fail("signal", j.tool + ": " + where(r) + faultText(s));
    else if (r.code != 0 && r.out.empty() && r.err.empty()) o.fail("silent", j.tool + sfmt(": exit status %d without any diagnostic", r.code) + faultText(s));
    else if (!r.protocol.empty()) o.fail("protocol", j.tool + ": " + r.protocol[0] + faultText(s));
    else if (r.code == 0 && r.errFired) o.st.inc("probe.success-despite-error");
    if (r.end == E_EXIT && r.code != 0) o.st.inc("probe.failure-reported");
    // a result that is claimed must be right here too
    if (r.ok()) { auto d = w.disk.snapshot(); string why; for (auto& n : j.outputs) if (!sameFile(f.disk, d, n, &why)) { o.fail("false-success", j.tool + ": a failure was reported to it, exit status is 0, and " + why + faultText(s)); break; } }
}

// ---------------------------------------------------------------- P12 handles
Scenario genHandles(Rng& r) {
    Scenario s;
    string tool = r.pick({ "scpp", "scpp", "scpp", "scc", "sas" });
    s.num["seed"] = (long long)(r.next() >> 1);
    s.num["mode"] = r.chance(1, 3) ? -1 : 0;
    if (tool != "scpp") { s.kind = "plain"; Job j = makeInput(r, s, tool, "t", 0); setJob(s, 0, j); s.num["limit"] = r.range(3, 15); return s; }
    s.kind = "includes";
    // many includes one after another, nested up to two levels
    int leaf = r.range(1, 4), mid = r.range(0, 3);
    for (int i = 0; i < leaf; ++i) {
        string t; int n = r.range(0, 6); while (n--) t += r.pick({ "int leaf;\n", "#define L 1\n", "// c\n", "x y z\n", "" });
        if (r.chance(1, 3)) t += string(r.range(400, 600), 'q'); // no newline at the end
        s.files[sfmt("l%d.h", i)] = t;
    }
    for (int i = 0; i < mid; ++i) {
        string t; int n = r.range(1, 5); while (n--) t += r.chance(1, 4) ? string("mid text\n") : sfmt("#include \"l%u.h\"\n", r.below((u32)leaf));
        s.files[sfmt("m%d.h", i)] = t;
    }
    string t; int n = r.range(5, 40);
    while (n--) {
        if (mid && r.chance(1, 3)) t += sfmt("#include \"m%u.h\"\n", r.below((u32)mid));
        else t += sfmt("#include \"l%u.h\"\n", r.below((u32)leaf));
        if (r.chance(1, 3)) t += "text\n";
    }
    s.files["t.c"] = t;
    Job j; j.tool = "scpp"; j.args = { "t.c" }; j.outputs = { "t.i" }; setJob(s, 0, j);
    s.num["limit"] = mid ? 5 : 4;       // output + main + nesting, one to spare
    if (r.chance(1, 2)) s.num["limit"] = r.range((int)s.num["limit"], 15);
    return s;
}
void execHandles(const Scenario& s, Outcome& o) {
    Job j = getJob(s, 0);
    Ref f = reference(s, 0);
    if (!f.r.ok()) { o.skipped = true; o.st.inc("probe.reference-fails"); return; }
    World w; w.sc = &s; w.oc = &o; w.disk.load(s.files);
    HostSpec h = specOf(s, 0); h.readMode = (int)s.n("mode"); h.maxFds = std::max(2, (int)s.n("limit"));
    if (j.tool == "scpp") { // nesting of this input
        std::function<int(const string&, int)> depth = [&](const string& n, int d) -> int {
            int best = 1; auto i = s.files.find(n); if (i == s.files.end() || d > 4) return 1;
            size_t p = 0; while ((p = i->second.find("#include \"", p)) != string::npos) { size_t e = i->second.find('"', p + 10); if (e == string::npos) break; best = std::max(best, 1 + depth(i->second.substr(p + 10, e - p - 10), d + 1)); p = e; }
            return best;
        };
        h.maxFds = std::max(h.maxFds, 2 + depth(j.args[0], 0));
    }
    HostResult r = w.run(h);
    u64 closes = 0, opens = 0; for (auto& op : r.ops) { if (op.kind == OP_CLOSE) ++closes; if (op.kind == OP_OPEN || op.kind == OP_CREATE) ++opens; }
    o.nontrivial = r.maxOpen >= h.maxFds - 2; o.shape = opsHash(r); o.st.inc("probe.opens", opens); o.st.inc("probe.closes", closes);
    if (r.maxOpen == h.maxFds) o.st.inc("fault.handle-limit-reached");
    if (!r.protocol.empty()) o.fail("protocol", j.tool + ": " + r.protocol[0]);
    if (!r.ok()) { o.fail("handles-exhausted", j.tool + sfmt(": fails with %d handles available although nesting needs fewer: ", h.maxFds) + where(r)); return; }
    auto d = w.disk.snapshot(); string why;
    for (auto& n : j.outputs) if (!sameFile(f.disk, d, n, &why)) o.fail("output", j.tool + sfmt(": with %d handles: ", h.maxFds) + why);
    for (auto& p : r.openPaths) if (p != j.args[0]) o.fail("leak", j.tool + ": " + p + " is still open when the run ends");
}
} // namespace

#define REALHOST "scc.c, scpp.c and sas.c of the working tree, compiled unchanged; the C library's formatted output and buffering"
#define STUBHOST "open/read/write/close/exit/stdio back ends, disk, process scheduler (simulated)"
void registerHostChecks() {
    static const char* ops = "I/O operations";
    const char* rSplit = "seeded inputs covering every token kind x seeded read-size sequences; non-trivial: at least one read was split; distinct by the sequence of (operation, file, size) the tool performed";
    registerCheck({ "P01", [](Rng& r, u64) { return genSplit("scc", r); }, execSplit, 120000, 1500000, rSplit, REALHOST, STUBHOST, ops });
    registerCheck({ "P02", [](Rng& r, u64) { return genSplit("scpp", r); }, execSplit, 120000, 1500000, rSplit, REALHOST, STUBHOST, ops });
    registerCheck({ "P03", [](Rng& r, u64) { return genSplit("sas", r); }, execSplit, 120000, 1500000, rSplit, REALHOST, STUBHOST, ops });
    const char* rLie = "seeded valid inputs x one to four failing, short or lost operations or a disk that fills up at any byte; non-trivial: a fault really hit an operation; distinct by the operation/result sequence";
    registerCheck({ "P04", [](Rng& r, u64) { return genLie("scc", r); }, execLie, 120000, 1500000, rLie, REALHOST, STUBHOST, ops });
    registerCheck({ "P05", [](Rng& r, u64) { return genLie("scpp", r); }, execLie, 120000, 1500000, rLie, REALHOST, STUBHOST, ops });
    registerCheck({ "P06", [](Rng& r, u64) { return genLie("sas", r); }, execLie, 120000, 1500000, rLie, REALHOST, STUBHOST, ops });
    registerCheck({ "P07", [](Rng& r, u64) { return genKeep(r); }, execKeep, 120000, 1500000, "seeded broken sources and failing opens/reads of the source; non-trivial: the run had to fail or an operation failed; distinct by operations and diagnostics", REALHOST, STUBHOST, ops });
    registerCheck({ "P08", [](Rng& r, u64) { return genRerun(r); }, execRerun, 120000, 1500000, "seeded histories of interrupted runs (kill before/after/inside an operation, power loss tearing unsynced files), then one undisturbed run; non-trivial: at least one run was interrupted; distinct by operations and the state left on disk", REALHOST, STUBHOST, ops });
    registerCheck({ "P09", [](Rng& r, u64) { return genOnly(r); }, execOnly, 120000, 1500000, "seeded runs among bystander files with failures, kills, full disks and few handles; non-trivial: something failed; distinct by operation sequence", REALHOST, STUBHOST, ops });
    registerCheck({ "P10", [](Rng& r, u64) { return genConc(r); }, execConc, 60000, 800000, "2-4 processes interleaved at every I/O operation by a seeded schedule; non-trivial: more context switches than processes; distinct by interleaving", REALHOST, STUBHOST, "I/O operations" });
    registerCheck({ "P11", [](Rng& r, u64) { return genClean(r); }, execClean, 120000, 1500000, "seeded valid inputs x fault storms (everything fails from a point on, full disk, no handles, many faults); non-trivial: a fault hit; distinct by operation sequence and ending", REALHOST, STUBHOST, ops });
    registerCheck({ "P12", [](Rng& r, u64) { return genHandles(r); }, execHandles, 120000, 1500000, "seeded include trees with one handle more than nesting needs (or up to 15); non-trivial: the run comes within two handles of the limit; distinct by operation sequence", REALHOST, STUBHOST, ops });
}
