// Core of the deterministic simulator: PRNG, hashing, scenarios (one scenario = one exactly
// repeatable execution), outcomes and statistics.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>

using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
using std::string; using std::vector; using std::map;

inline u64 mix64(u64 x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline u64 mix64(u64 a, u64 b) { return mix64(mix64(a) ^ (b * 0xD6E8FEB86659FD93ull + 0x1234567)); }
inline u64 mix64(u64 a, u64 b, u64 c) { return mix64(mix64(a, b), c); }

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix64(seed)) {}
    u64 next() { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
    u32 below(u32 n) { return n ? (u32)((next() >> 11) % n) : 0; }
    int range(int lo, int hi) { return lo + (int)below((u32)(hi - lo + 1)); }
    bool chance(u32 num, u32 den) { return below(den) < num; }
    template <class T> const T& pick(const vector<T>& v) { return v[below((u32)v.size())]; }
    const char* pick(std::initializer_list<const char*> l) { return *(l.begin() + below((u32)l.size())); }
    int pick(std::initializer_list<int> l) { return *(l.begin() + below((u32)l.size())); }
};

struct Hash {
    u64 h = 0x1234;
    void add(u64 v) { h = mix64(h ^ v); }
    void add(const string& s) { add(s.size()); u64 a = 0; int n = 0; for (unsigned char c : s) { a = a * 257 + c; if (++n == 7) { add(a); a = 0; n = 0; } } add(a); }
};
u64 hashStr(const string& s);

// ---------------------------------------------------------------- faults
enum FaultKind : u8 {
    F_NONE = 0,
    F_ERR,        // the operation fails; arg = error selector
    F_SHORT,      // the operation transfers only arg bytes (at least 1)
    F_ZERO,       // write: transfers nothing, reports 0 (disk full without error code)
    F_KILL,       // the process dies before the operation
    F_KILL_AFTER, // the process dies right after the operation
    F_POWER,      // power loss before the operation; arg = seed selecting what survived
    F_LOSE,       // close: reports an error and the unsynced tail (arg) is lost
    F_LATE,       // write: reported as done, but the data is lost and the close of the file reports the error
    F_IRQ,        // interrupt storm on the 8086 (machine level)
    F_KINDS
};
extern const char* const faultNames[F_KINDS];

struct Fault { int proc = 0; int op = 0; FaultKind kind = F_NONE; int arg = 0; };

// ---------------------------------------------------------------- scenario
struct Scenario {
    string prop;                  // property id
    string kind;                  // sub-scenario within the property
    map<string, string> files;    // initial files (inputs)
    map<string, string> str;      // string parameters
    map<string, long long> num;   // integer parameters
    vector<Fault> faults;
    vector<int> sched;            // scheduling choices / event lists
    long long n(const string& k, long long d = 0) const { auto i = num.find(k); return i == num.end() ? d : i->second; }
    string s(const string& k, const string& d = "") const { auto i = str.find(k); return i == str.end() ? d : i->second; }
    string serialize() const;
    static bool parse(const string& text, Scenario& out, map<string, string>* extra = nullptr);
};

// ---------------------------------------------------------------- outcome of one run
struct Stats {
    map<string, u64> c;           // counters (fault kinds fired, probes, ...)
    void inc(const string& k, u64 n = 1) { c[k] += n; }
    void merge(const Stats& o) { for (auto& i : o.c) c[i.first] += i.second; }
};
struct Outcome {
    bool violated = false;
    string cls;                   // violation class (stable under minimisation)
    string msg;                   // human readable
    u64 trace = 0;                // hash over every event of the execution
    u64 shape = 0;                // hash of the interleaving / fault placement (distinctness measure)
    bool nontrivial = false;      // the faults / schedule really happened inside the run
    bool skipped = false;         // generator produced something out of scope
    u64 simTime = 0;              // simulated operations (host) / instructions (8086)
    Stats st;
    vector<string> log;           // filled only when tracing
    void fail(const string& c, const string& m) { if (!violated) { violated = true; cls = c; msg = m; } }
};

struct Check {
    const char* id;
    std::function<Scenario(Rng&, u64 runIndex)> gen;
    std::function<void(const Scenario&, Outcome&)> exec;
    u64 quickRuns, thoroughRuns;
    const char* rule;             // what makes a run non-trivial / distinct
    const char* realParts;        // components running real code
    const char* stubParts;        // components that are models
    const char* timeUnit;
};
void registerCheck(const Check&);
Check* findCheck(const string& id);

extern bool gTrace;               // record text log
string sfmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
string quote(const string& s, size_t maxLen = 200);
string diffText(const string& want, const string& got);
string readRealFile(const string& path, bool* ok = nullptr);
void tlog(Outcome* o, const string& s);
extern string gBuildDir, gRepo;
