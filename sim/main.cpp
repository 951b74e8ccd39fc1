// Driver: seeded search over many runs on forked workers, confirmation, minimisation, replay files,
// known findings, evidence.
#include <sys/personality.h>
#include "core.h"
#include "host.h"
#include "checks.h"
#include "progs.h"
#include "gen.h"
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <time.h>
#include <fstream>
#include <sstream>
#include <unordered_set>

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static string gVerif;

struct Shared {
    volatile u64 minViol;              // lowest run index with an unlisted violation so far
    struct W { volatile u64 idx; volatile double started; volatile u64 runs; } w[64];
};
static Shared* gSh;

struct Known { string prop, cls, match, replay, desc; };
static vector<Known> loadKnown(const string& prop) {
    vector<Known> v;
    std::ifstream f(gVerif + "/known_findings.txt");
    string line;
    // finding: property=<id> class=<class> replay=<file> match=<text> :: description
    while (std::getline(f, line)) {
        if (line.rfind("finding: ", 0)) continue;
        Known k;
        size_t d = line.find(" :: ");
        if (d != string::npos) { k.desc = line.substr(d + 4); line = line.substr(0, d); }
        size_t m = line.find(" match=");
        if (m != string::npos) { k.match = line.substr(m + 7); line = line.substr(0, m); }
        auto get = [&](const char* key) { size_t p = line.find(key); if (p == string::npos) return string(); p += strlen(key); size_t e = line.find(' ', p); return line.substr(p, e == string::npos ? e : e - p); };
        k.prop = get("property="); k.cls = get("class="); k.replay = get("replay=");
        if (k.prop == prop && !k.match.empty()) v.push_back(k);
    }
    return v;
}
static const Known* knownMatch(const vector<Known>& v, const Outcome& o) {
    for (auto& k : v) if ((k.cls.empty() || k.cls == o.cls) && o.msg.find(k.match) != string::npos) return &k;
    return nullptr;
}

static u64 baseSeed(const string& prop, u64 seed, u64 idx) { return mix64(mix64(seed, hashStr(prop)), idx); }
static Scenario genScenario(Check* c, u64 seed, u64 idx) {
    Rng r(baseSeed(c->id, seed, idx));
    Scenario s = c->gen(r, idx);
    s.prop = c->id;
    return s;
}
static Outcome execute(Check* c, const Scenario& s) {
    Outcome o; o.trace = 0x51;
    c->exec(s, o);
    if (o.violated) { Hash h; h.h = o.trace; h.add(o.cls); h.add(o.msg); o.trace = h.h; }
    return o;
}

// Run f in a forked child, return its status; -1 on timeout. Child writes to fd.
static int inChild(double limit, const std::function<void(FILE*)>& f, string* output) {
    fflush(stdout); fflush(stderr);
    int p[2]; if (pipe(p)) return -2;
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]); FILE* o = fdopen(p[1], "w");
        f(o); fflush(o); _exit(0);
    }
    close(p[1]);
    double end = now() + limit; string out; bool eof = false; int st = 0;
    for (;;) {
        fd_set s; FD_ZERO(&s); FD_SET(p[0], &s);
        timeval tv{ 0, 200000 };
        if (!eof && select(p[0] + 1, &s, nullptr, nullptr, &tv) > 0) {
            char b[65536]; ssize_t n = read(p[0], b, sizeof b);
            if (n > 0) out.append(b, n); else eof = true;
        }
        if (eof) { if (waitpid(pid, &st, 0) == pid) break; }
        if (now() > end) { kill(pid, SIGKILL); waitpid(pid, &st, 0); st = -1; break; }
    }
    close(p[0]);
    if (output) *output = out;
    return st;
}

// ---------------------------------------------------------------- workers
struct WorkerOut {
    u64 runs = 0, nontrivial = 0, skipped = 0, simTime = 0; bool capped = false;
    Stats st; std::unordered_set<u64> shapes; map<string, u64> knownHits;
    map<string, vector<u8>> cov;
    bool viol = false; u64 violIdx = 0; string cls, msg;
    string sample;
};
static void workerMain(Check* c, u64 seed, u64 total, int w, int W, double deadline, const vector<Known>& known, FILE* out) {
    rlimit rl{ (rlim_t)3 << 30, (rlim_t)3 << 30 };
#ifndef SIM_ASAN
    setrlimit(RLIMIT_AS, &rl);
#endif
    u64 runs = 0, nontriv = 0, skipped = 0, simTime = 0; Stats st; std::unordered_set<u64> shapes; map<string, u64> kh;
    u64 vidx = ~0ull; Outcome vo; bool capped = false; vector<string> samples;
    auto& me = gSh->w[w];
    for (u64 i = w; i < total; i += W) {
        if (i > gSh->minViol) break;
        if (now() > deadline) { capped = true; break; }
        me.idx = i; me.started = now();
        Scenario s = genScenario(c, seed, i);
        Outcome o = execute(c, s);
        ++runs; me.runs = runs; st.merge(o.st); simTime += o.simTime;
        if (o.skipped) { ++skipped; continue; }
        if (o.nontrivial) { ++nontriv; Hash h; h.add(o.shape); shapes.insert(h.h); if (samples.size() < 1 && w == 0) samples.push_back(sfmt("run %llu (seed %llu): kind=%s ", (unsigned long long)i, (unsigned long long)seed, s.kind.c_str()) + s.serialize().substr(0, 1500)); }
        if (o.violated) {
            if (auto* k = knownMatch(known, o)) { ++kh[k->match]; continue; }
            vidx = i; vo = o;
            u64 m = gSh->minViol; while (i < m && !__sync_bool_compare_and_swap(&gSh->minViol, m, i)) m = gSh->minViol;
            break;
        }
    }
    me.idx = ~0ull;
    fprintf(out, "runs %llu\nnontrivial %llu\nskipped %llu\nsimtime %llu\ncapped %d\n", (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)skipped, (unsigned long long)simTime, capped);
    for (auto& i : st.c) fprintf(out, "stat %llu %s\n", (unsigned long long)i.second, i.first.c_str());
    for (auto h : shapes) fprintf(out, "shape %llx\n", (unsigned long long)h);
    for (auto& k : kh) fprintf(out, "known %llu %s\n", (unsigned long long)k.second, k.first.c_str());
    for (auto& t : { "scc", "scpp", "sas", "sim86" }) {
        vector<u8> b; hostCoverageRaw(t, b);
        string hex; int n = 0;
        for (size_t i = 0; i < b.size(); ++i) if (b[i]) { hex += sfmt("%zx ", i); ++n; }
        if (n) fprintf(out, "cov %s %s\n", t, hex.c_str());
    }
    for (auto& s : samples) { string e = s; for (auto& ch : e) if (ch == '\n') ch = '\x01'; fprintf(out, "sample %s\n", e.c_str()); }
    if (vidx != ~0ull) { string m = vo.msg; for (auto& ch : m) if (ch == '\n') ch = '\x01'; fprintf(out, "viol %llu %s %s\n", (unsigned long long)vidx, vo.cls.c_str(), m.c_str()); }
    fprintf(out, "done 1\n");
}

static string jstr(const string& s) {
    string r = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c < 32 || c >= 127) r += sfmt("\\u%04x", c); else r += c; }
    return r + "\"";
}

// ---------------------------------------------------------------- minimisation (runs inside a child)
static void minimise(Check* c, Scenario best, const string& cls, double limit, FILE* out) {
    double end = now() + limit;
    auto emit = [&](const Scenario& s) { string t = s.serialize(); fprintf(out, "BEST %zu\n", t.size()); fwrite(t.data(), 1, t.size(), out); fflush(out); };
    auto still = [&](const Scenario& s) { if (now() > end) return false; Outcome o = execute(c, s); return o.violated && o.cls == cls; };
    auto tryIt = [&](const Scenario& s) { if (still(s)) { best = s; emit(best); return true; } return false; };
    bool progress = true; int rounds = 0;
    while (progress && rounds++ < 6 && now() < end) {
        progress = false;
        { Scenario s = best; if (s.faults.size() > 1) { s.faults.clear(); if (tryIt(s)) progress = true; } }
        for (size_t chunk = std::max<size_t>(1, best.faults.size() / 2); chunk >= 1 && !best.faults.empty(); chunk /= 2) {
            for (size_t i = 0; i < best.faults.size();) {
                Scenario s = best; s.faults.erase(s.faults.begin() + i, s.faults.begin() + std::min(s.faults.size(), i + chunk));
                if (tryIt(s)) progress = true; else i += chunk;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < best.faults.size(); ++i) if (best.faults[i].arg) { Scenario s = best; s.faults[i].arg = 0; if (tryIt(s)) progress = true; }
        if (!best.sched.empty()) {
            { Scenario s = best; s.sched.clear(); if (tryIt(s)) progress = true; }
            for (size_t chunk = best.sched.size(); chunk >= 1 && !best.sched.empty(); chunk /= 2) {
                for (size_t i = 0; i < best.sched.size() && now() < end;) {
                    Scenario s = best; s.sched.erase(s.sched.begin() + i, s.sched.begin() + std::min(s.sched.size(), i + chunk));
                    if (tryIt(s)) progress = true; else i += chunk;
                }
                if (chunk == 1) break;
            }
        }
        for (auto& kv : map<string, long long>(best.num)) {
            if (kv.second == 0 || kv.first == "fixed") continue;
            Scenario s = best; s.num[kv.first] = 0; if (tryIt(s)) { progress = true; continue; }
            s.num[kv.first] = 1; if (kv.second != 1 && tryIt(s)) { progress = true; continue; }
        }
        if (!best.n("fixed")) {
            for (auto& kv : map<string, string>(best.files)) {
                // whole file, then lines, then characters
                auto units = [](const string& t, bool lines) { vector<string> u; if (!lines) { for (char ch : t) u.push_back(string(1, ch)); return u; } string cur; for (char ch : t) { cur += ch; if (ch == '\n') { u.push_back(cur); cur.clear(); } } if (!cur.empty()) u.push_back(cur); return u; };
                for (int pass = 0; pass < 2; ++pass) {
                    auto u = units(best.files[kv.first], pass == 0);
                    if (pass == 1 && u.size() > 1500) continue;
                    for (size_t chunk = std::max<size_t>(1, u.size() / 2); chunk >= 1 && !u.empty(); chunk /= 2) {
                        for (size_t i = 0; i < u.size() && now() < end;) {
                            auto v = u; v.erase(v.begin() + i, v.begin() + std::min(v.size(), i + chunk));
                            Scenario s = best; string t; for (auto& x : v) t += x; s.files[kv.first] = t;
                            if (tryIt(s)) { u = v; progress = true; } else i += chunk;
                        }
                        if (chunk == 1) break;
                    }
                }
            }
        }
    }
}

static string violLine(const string& prop, const string& path) { return "VIOLATION property=" + prop + " replay=" + path; }

static int doReplay(const string& path, bool quiet, string* clsOut = nullptr, u64* traceOut = nullptr, string* msgOut = nullptr) {
    map<string, string> extra; Scenario s;
    if (!Scenario::parse(readRealFile(path), s, &extra)) { fprintf(stderr, "cannot parse %s\n", path.c_str()); return 2; }
    Check* c = findCheck(s.prop);
    if (!c) { fprintf(stderr, "unknown property %s\n", s.prop.c_str()); return 2; }
    gTrace = !quiet;
    Outcome o = execute(c, s);
    if (!quiet) {
        for (auto& l : o.log) printf("%s\n", l.c_str());
        printf("trace hash %016llx\n", (unsigned long long)o.trace);
        if (extra.count("expect_trace")) printf("recorded   %s  %s\n", extra["expect_trace"].c_str(), extra["expect_trace"] == sfmt("%016llx", (unsigned long long)o.trace) ? "(identical execution)" : "(execution differs from the recorded one)");
        if (o.violated) printf("violation class %s: %s\n", o.cls.c_str(), o.msg.c_str());
        else printf("property holds on this execution\n");
    }
    if (clsOut) *clsOut = o.violated ? o.cls : ""; if (traceOut) *traceOut = o.trace; if (msgOut) *msgOut = o.msg;
    return o.violated ? 1 : 0;
}

static int doCheck(const string& prop, const string& tier, u64 seed, const char* self, int W, long long overrideRuns, double overrideCap) {
    Check* c = findCheck(prop);
    if (!c) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
    double t0 = now();
    bool thorough = tier == "thorough";
    u64 total = overrideRuns > 0 ? (u64)overrideRuns : thorough ? c->thoroughRuns : c->quickRuns;
    double cap = overrideCap > 0 ? overrideCap : thorough ? 3000 : 300;
    auto known = loadKnown(prop);
    // listed findings: show the recorded history of each still failing
    for (auto& k : known) {
        string out; inChild(120, [&](FILE* o) { string cls, msg; u64 tr; int rc = k.replay.empty() ? 1 : doReplay(gVerif + "/" + k.replay, true, &cls, &tr, &msg); fprintf(o, "%d", rc); }, &out);
        if (out == "1") printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.desc.c_str());
    }
    gSh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    gSh->minViol = ~0ull;
    struct WP { pid_t pid; int fd; string out; bool done = false; int status = 0; bool killed = false; };
    vector<WP> ws(W);
    fflush(stdout);
    for (int w = 0; w < W; ++w) {
        int p[2]; if (pipe(p)) return 2;
        gSh->w[w].idx = ~0ull;
        pid_t pid = fork();
        if (pid == 0) {
            for (int k = 0; k < w; ++k) close(ws[k].fd);
            close(p[0]); FILE* o = fdopen(p[1], "w");
            workerMain(c, seed, total, w, W, t0 + cap, known, o);
            fflush(o); _exit(0);
        }
        close(p[1]); ws[w].pid = pid; ws[w].fd = p[0];
    }
    u64 crashIdx = ~0ull; string crashWhat;
    for (;;) {
        bool any = false; fd_set s; FD_ZERO(&s); int mx = 0;
        for (auto& w : ws) if (!w.done) { any = true; FD_SET(w.fd, &s); mx = std::max(mx, w.fd); }
        if (!any) break;
        timeval tv{ 0, 500000 };
        int rc = select(mx + 1, &s, nullptr, nullptr, &tv);
        for (int i = 0; i < W; ++i) {
            auto& w = ws[i];
            if (w.done) continue;
            if (rc > 0 && FD_ISSET(w.fd, &s)) {
                char b[65536]; ssize_t n = read(w.fd, b, sizeof b);
                if (n > 0) w.out.append(b, n);
                else { w.done = true; close(w.fd); waitpid(w.pid, &w.status, 0); }
            }
            u64 idx = gSh->w[i].idx;
            if (!w.done && idx != ~0ull && now() - gSh->w[i].started > 120) { kill(w.pid, SIGKILL); w.killed = true; }
            if (w.done && w.out.find("\ndone 1") == string::npos) { // died inside a run
                if (idx < crashIdx) { crashIdx = idx; crashWhat = w.killed ? "the run does not end" : sfmt("the simulator process died with wait status %d: the code under test overwrote memory that is not its own", w.status); }
                u64 m = gSh->minViol; while (idx < m && !__sync_bool_compare_and_swap(&gSh->minViol, m, idx)) m = gSh->minViol;
            }
        }
    }
    WorkerOut t; u64 violIdx = ~0ull; string vcls, vmsg;
    for (auto& w : ws) {
        std::istringstream in(w.out); string line;
        while (std::getline(in, line)) {
            unsigned long long a; char nm[4096];
            if (sscanf(line.c_str(), "runs %llu", &a) == 1) t.runs += a;
            else if (sscanf(line.c_str(), "nontrivial %llu", &a) == 1) t.nontrivial += a;
            else if (sscanf(line.c_str(), "skipped %llu", &a) == 1) t.skipped += a;
            else if (sscanf(line.c_str(), "simtime %llu", &a) == 1) t.simTime += a;
            else if (sscanf(line.c_str(), "capped %llu", &a) == 1) t.capped |= a != 0;
            else if (sscanf(line.c_str(), "stat %llu %4095s", &a, nm) == 2) t.st.c[nm] += a;
            else if (sscanf(line.c_str(), "shape %llx", &a) == 1) t.shapes.insert(a);
            else if (sscanf(line.c_str(), "known %llu", &a) == 1) t.knownHits[line.substr(line.find(' ', 6) + 1)] += a;
            else if (!line.rfind("cov ", 0)) {
                std::istringstream cs(line.substr(4)); string tool, h; cs >> tool; auto& v = t.cov[tool]; v.resize(1 << 18);
                while (cs >> h) v[strtoul(h.c_str(), nullptr, 16) & ((1 << 18) - 1)] = 1;
            } else if (!line.rfind("sample ", 0)) { string sm = line.substr(7); for (auto& ch : sm) if (ch == '\x01') ch = '\n'; t.sample = sm; }
            else if (sscanf(line.c_str(), "viol %llu %4095s", &a, nm) == 2 && a < violIdx) { violIdx = a; vcls = nm; vmsg = line.substr(line.find(nm) + strlen(nm)); for (auto& ch : vmsg) if (ch == '\x01') ch = '\n'; }
        }
    }
    int rc = 0; string replayPath; bool haveViol = false; string note;
    Scenario vs;
    if (crashIdx != ~0ull && crashIdx < violIdx) {
        // isolate: the same run must kill two fresh processes the same way
        vs = genScenario(c, seed, crashIdx);
        int bad = 0;
        for (int k = 0; k < 2; ++k) { string o; int st = inChild(150, [&](FILE* f) { execute(c, vs); fprintf(f, "alive"); }, &o); if (st != 0 || o != "alive") ++bad; }
        if (bad == 2) { violIdx = crashIdx; vcls = "wild"; vmsg = crashWhat; haveViol = true; }
        else { fprintf(stderr, "check error: a worker died at run %llu but the run does not fail on its own\n", (unsigned long long)crashIdx); rc = 2; }
    }
    if (!haveViol && violIdx != ~0ull && rc == 0) {
        vs = genScenario(c, seed, violIdx);
        // gate: identical execution twice
        string a, b;
        auto once = [&](FILE* f) { Outcome o = execute(c, vs); fprintf(f, "%d %s %016llx", o.violated, o.cls.c_str(), (unsigned long long)o.trace); };
        inChild(150, once, &a); inChild(150, once, &b);
        if (a.empty() || a[0] != '1' || b.empty() || b[0] != '1') { fprintf(stderr, "check error: run %llu is not deterministic: [%s] [%s]\n", (unsigned long long)violIdx, a.c_str(), b.c_str()); rc = 2; }
        else haveViol = true;
    }
    if (haveViol) {
        Scenario best = vs;
        if (vcls != "wild") {
            string o;
            inChild(90, [&](FILE* f) { minimise(c, vs, vcls, 60, f); }, &o);
            size_t p = 0;
            while (p < o.size()) {
                size_t n; if (sscanf(o.c_str() + p, "BEST %zu", &n) != 1) break;
                size_t nl = o.find('\n', p); if (nl == string::npos || nl + 1 + n > o.size()) break;
                Scenario s; if (Scenario::parse(o.substr(nl + 1, n), s)) best = s;
                p = nl + 1 + n;
            }
        }
        mkdir((gVerif + "/replays").c_str(), 0755);
        replayPath = gVerif + sfmt("/replays/%s-%llu-%llu.replay", prop.c_str(), (unsigned long long)seed, (unsigned long long)violIdx);
        bool loose = false;
        auto writeReplay = [&](const Scenario& s) -> bool {
            string info;
            inChild(150, [&](FILE* f) { Outcome o = execute(c, s); fprintf(f, "%d\n%s\n%016llx\n%s", o.violated, o.cls.c_str(), (unsigned long long)o.trace, o.msg.c_str()); }, &info);
            vector<string> L; std::istringstream is(info); string l; while (std::getline(is, l)) L.push_back(l);
            std::ofstream f(replayPath);
            f << "# property " << prop << ", VERIF_SEED " << seed << ", run " << violIdx << "\n# replay with: bash /verif/run.sh replay " << replayPath << "\n";
            if (vcls != "wild" && L.size() >= 3) { for (size_t i = 3; i < L.size(); ++i) f << "# " << L[i] << "\n"; f << "expect_class " << L[1] << "\nexpect_trace " << L[2] << "\n"; }
            else f << "# " << vmsg << "\n";
            f << s.serialize(); f.close();
            if (vcls == "wild") return true;
            if (L.size() < 3 || L[0] != "1" || (L[1] != vcls && !loose)) return false; vcls = L[1];
            if (L.size() > 3) { vmsg = L[3]; for (size_t i = 4; i < L.size(); ++i) vmsg += "\n" + L[i]; }
            // fresh process
            string cmd = string(self) + " replay '" + replayPath + "' --build '" + gBuildDir + "' --repo '" + gRepo + "' --verif '" + gVerif + "' 2>&1";
            FILE* p = popen(cmd.c_str(), "r"); if (!p) return false;
            string o; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) o.append(b, n);
            int st = pclose(p);
            return WIFEXITED(st) && WEXITSTATUS(st) == 1 && (loose || o.find("(identical execution)") != string::npos);
        };
        // the last resort is code whose behaviour depends on memory it never wrote: the violation must then show in five fresh processes
        auto unstable = [&]() { loose = true; for (int k = 0; k < 5; ++k) if (!writeReplay(vs)) return false; vmsg += " (the execution depends on memory the program never wrote: the violation repeats, its details may not)"; return true; };
        if (!writeReplay(best)) { best = vs; if (!writeReplay(best) && !unstable()) { fprintf(stderr, "check error: replay does not reproduce run %llu\n", (unsigned long long)violIdx); rc = 2; } }
        if (rc == 0) {
            printf("violation class %s (run %llu, seed %llu): %s\n", vcls.c_str(), (unsigned long long)violIdx, (unsigned long long)seed, vmsg.c_str());
            printf("%s\n", violLine(prop, replayPath).c_str());
            rc = 1;
        }
    }
    // determinism sample: a few runs executed again, must give the identical trace
    u64 detSame = 0, detDiff = 0;
    if (rc == 0) {
        string o;
        inChild(60, [&](FILE* f) {
            for (u64 k = 0; k < 4; ++k) {
                u64 i = mix64(seed, k, 0xdead) % std::max<u64>(1, total);
                Scenario s = genScenario(c, seed, i), s2 = genScenario(c, seed, i);
                Outcome a = execute(c, s), b = execute(c, s2);
                fprintf(f, "%c", a.trace == b.trace && s.serialize() == s2.serialize() ? '=' : '!');
            }
        }, &o);
        for (char ch : o) (ch == '=' ? detSame : detDiff)++;
    }
    double wall = now() - t0;
    std::ofstream e(gVerif + "/evidence/" + prop + ".json");
    e << "{\n \"property\": " << jstr(prop) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
    e << "  \"evaluations\": " << t.runs << ",\n  \"distinct_nontrivial\": " << t.shapes.size() << ",\n  \"rule\": " << jstr(c->rule) << ",\n";
    e << "  \"samples\": [" << jstr(t.sample.empty() ? "none" : t.sample) << "],\n";
    e << "  \"nontrivial_runs\": " << t.nontrivial << ",\n  \"skipped_runs\": " << t.skipped << ",\n  \"stopped_by_time_cap\": " << (t.capped ? "true" : "false") << ",\n";
    e << sfmt("  \"runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n", t.runs / wall * 3600, t.runs / wall * 3600);
    e << "  \"simulated_time\": " << t.simTime << ",\n  \"simulated_time_unit\": " << jstr(c->timeUnit) << ",\n";
    e << "  \"faults_injected\": {"; { bool first = true; for (auto& i : t.st.c) if (!i.first.rfind("fault.", 0)) { e << (first ? "" : ", ") << jstr(i.first.substr(6)) << ": " << i.second; first = false; } } e << "},\n";
    e << "  \"counters\": {"; { bool first = true; for (auto& i : t.st.c) if (i.first.rfind("fault.", 0)) { e << (first ? "" : ", ") << jstr(i.first) << ": " << i.second; first = false; } } e << "},\n";
    e << "  \"distinct_code_edges\": {"; { bool first = true; for (auto& i : t.cov) { u64 n = 0; for (u8 b : i.second) n += b; e << (first ? "" : ", ") << jstr(i.first) << ": " << n; first = false; } } e << "},\n";
    e << "  \"real_components\": " << jstr(c->realParts) << ",\n  \"stub_components\": " << jstr(c->stubParts) << ",\n";
    e << "  \"determinism_reruns\": {\"identical\": " << detSame << ", \"different\": " << detDiff << "},\n";
    e << "  \"known_finding_hits\": {"; { bool first = true; for (auto& i : t.knownHits) { e << (first ? "" : ", ") << jstr(i.first) << ": " << i.second; first = false; } } e << "}";
    if (rc == 1) e << ",\n  \"violation\": " << jstr(vcls + ": " + vmsg) << ",\n  \"replay\": " << jstr(replayPath);
    e << "\n },\n \"assumptions\": [\"the simulated operating system delivers only outcomes POSIX or DOS allows\", \"a clean batch of sampled runs is evidence, not proof\"],\n";
    e << sfmt(" \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, rc == 1 ? 1 : 0);
    e.close();
    printf("%s %s: %llu runs, %zu distinct, %llu skipped, %.1f s%s%s\n", prop.c_str(), tier.c_str(), (unsigned long long)t.runs, t.shapes.size(), (unsigned long long)t.skipped, wall, t.capped ? " (time cap)" : "", detDiff ? " DETERMINISM MISMATCH" : "");
    return rc;
}

int main(int argc, char** argv) {
    // same addresses in every process: code under test that reads what it never wrote must do the same thing again
    { int pers = personality(0xffffffff); if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIMLAB_FIXED") && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) { setenv("SIMLAB_FIXED", "1", 1); execv("/proc/self/exe", argv); } }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    string mode = argc > 1 ? argv[1] : "", tier = "quick"; u64 seed = 1; long long runs = 0; double cap = 0; int W = 8;
    vector<string> pos; gVerif = "/verif"; gRepo = "/repo";
    for (int i = 2; i < argc; ++i) {
        string a = argv[i];
        auto val = [&]() { return string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") tier = val(); else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10); else if (a == "--build") gBuildDir = val();
        else if (a == "--repo") gRepo = val(); else if (a == "--verif") gVerif = val(); else if (a == "--runs") runs = atoll(val().c_str()); else if (a == "--cap") cap = atof(val().c_str());
        else if (a == "--workers") W = std::min(64, std::max(1, atoi(val().c_str()))); else pos.push_back(a);
    }
    if (gBuildDir.empty()) gBuildDir = gVerif + "/build";
    signal(SIGPIPE, SIG_IGN);
    registerAll();
    if (mode == "check" && pos.size() == 1) return doCheck(pos[0], tier, seed, argv[0], W, runs, cap);
    if (mode == "replay" && pos.size() == 1) {
        string p; { map<string, string> x; Scenario s; Scenario::parse(readRealFile(pos[0]), s, &x); p = s.prop; }
        int rc = doReplay(pos[0], false);
        if (rc == 1) printf("%s\n", violLine(p, pos[0]).c_str());
        fflush(stdout); _exit(rc);
    }
    if (mode == "gen" && pos.size() == 2) { // show one scenario
        Check* c = findCheck(pos[0]); if (!c) return 2;
        printf("%s", genScenario(c, seed, strtoull(pos[1].c_str(), nullptr, 10)).serialize().c_str()); fflush(stdout); _exit(0);
    }
    if (mode == "one" && pos.size() == 2) { // run one scenario with its log
        Check* c = findCheck(pos[0]); if (!c) return 2;
        gTrace = true; Outcome o = execute(c, genScenario(c, seed, strtoull(pos[1].c_str(), nullptr, 10)));
        for (auto& l : o.log) printf("%s\n", l.c_str());
        for (auto& i : o.st.c) printf("stat %s %llu\n", i.first.c_str(), (unsigned long long)i.second);
        printf("trace %016llx shape %llx nontrivial %d skipped %d\n%s %s\n", (unsigned long long)o.trace, (unsigned long long)o.shape, o.nontrivial, o.skipped, o.violated ? o.cls.c_str() : "ok", o.msg.c_str()); fflush(stdout); _exit(0);
    }
    if (mode == "traces" && pos.size() == 1) { // one line per run, for determinism comparisons
        Check* c = findCheck(pos[0]); if (!c) return 2;
        int nw = W; vector<pid_t> pids; mkdir((gVerif + "/build").c_str(), 0755);
        for (int w = 0; w < nw; ++w) {
            pid_t p = fork();
            if (!p) {
                FILE* f = fopen(sfmt("%s/traces.%d", gBuildDir.c_str(), w).c_str(), "w");
                for (u64 i = w; i < (u64)runs; i += nw) { Outcome o = execute(c, genScenario(c, seed, i)); fprintf(f, "%llu %016llx %016llx %d\n", (unsigned long long)i, (unsigned long long)o.trace, (unsigned long long)o.shape, o.violated); }
                fclose(f); _exit(0);
            }
            pids.push_back(p);
        }
        int bad = 0; for (auto p : pids) { int st; waitpid(p, &st, 0); if (st) bad = 1; }
        map<u64, string> all;
        for (int w = 0; w < nw; ++w) { string fn = sfmt("%s/traces.%d", gBuildDir.c_str(), w); std::ifstream f(fn); string l; while (std::getline(f, l)) all[strtoull(l.c_str(), nullptr, 10)] = l; unlink(fn.c_str()); }
        for (auto& i : all) printf("%s\n", i.second.c_str());
        fflush(stdout); _exit(bad);
    }
    if (mode == "progs" && pos.size() == 1) { // generated programs with known output, on both machines
        long long bad = 0;
        for (long long i = 0; i < runs; ++i) {
            Rng r(mix64(seed, (u64)i)); bool lib = i & 1; Prog p = i % 5 == 4 ? genRunAsm(r, r.range(1, 40)) : genProgram(r, r.range(1, 14), r.range(0, 2), lib); string err, got;
            string com = i % 5 == 4 ? buildAsm(p.src, &err) : buildCom(p.src, lib, &err);
            if (!com.empty()) {
                World w; w.applyFaults = false; PcSpec s; s.image = com; s.seed = (u64)i; s.irqEvery = 50; PcResult x = runPc(w, s);
                World v; v.applyFaults = false; v.disk.put("P.COM", com); HostSpec h; h.tool = "sim86"; h.args = { "P.COM" }; HostResult y = v.run(h);
                if (x.out == p.expect && x.ok() && y.out == p.expect && y.ok()) continue;
                err = "pc " + x.describe() + " sim86 " + y.describe() + " want " + quote(p.expect, 4000);
            }
            ++bad; string fn = sfmt("%s/%lld.c", pos[0].c_str(), i); FILE* f = fopen(fn.c_str(), "wb"); fwrite(p.src.data(), 1, p.src.size(), f); fclose(f);
            printf("%lld: %s\n", i, err.substr(0, 2500).c_str());
        }
        printf("%lld bad\n", bad); fflush(stdout); _exit(bad != 0);
    }
    if (mode == "list") { for (auto& id : checkIds()) printf("%s\n", id.c_str()); return 0; }
    fprintf(stderr, "usage: simlab check|replay|gen|one|traces|list ...\n");
    return 2;
}
