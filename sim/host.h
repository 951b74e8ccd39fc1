// Host-side processes: the real tools (compiled from /repo's working tree as shared objects, with
// every libc call that does I/O, exits or aborts redirected here) run as coroutines under a
// scheduler; nothing they do reaches the real machine.
#pragma once
#include "vfs.h"
#include <ucontext.h>

enum OpKind { OP_OPEN, OP_CREATE, OP_READ, OP_WRITE, OP_CLOSE, OP_OTHER };
extern const char* const opNames[];
enum EndKind { E_NONE, E_EXIT, E_SIGNAL, E_HANG, E_KILLED, E_POWER, E_MEM };
extern const char* const endNames[];

struct OpRec { OpKind kind; string path; long want, got; bool console; };

struct HostSpec {
    string tool;                 // scc, scpp, sas, sim86
    vector<string> args;         // without argv[0]
    int proc = 0;                // key for faults
    int readMode = 0;            // 0 full, k>0 at most k bytes, -1 seeded random sizes
    u64 seed = 0;                // read sizes, stack garbage
    int maxFds = 64;             // open files allowed
    u64 fuel = 400000000ull;     // basic blocks before the run counts as hung
    int outMode = 0;             // stdout buffering: 0 full, 1 line, 2 none
    int outChunk = 0;            // host stdout accepts at most this many bytes per write (0 = all)
    bool faultConsole = false;   // may faults hit fd 1?
};
struct HostResult {
    EndKind end = E_NONE; int code = 0; string out, err; u64 steps = 0;
    vector<OpRec> ops;
    vector<string> openPaths;    // still open when the process ended
    int maxOpen = 0;
    string detail;
    bool faultFired = false;     // some fault (not read splitting) really hit this process
    bool errFired = false;       // an operation reported an error to the process
    vector<string> protocol;     // handle protocol errors: double close, use after close, ...
    bool ok() const { return end == E_EXIT && code == 0; }
    string describe() const;
};

struct World {
    Disk disk;
    const Scenario* sc = nullptr;
    Outcome* oc = nullptr;
    bool applyFaults = true;
    bool powerLost = false;
    int schedPos = 0;
    map<std::pair<int, int>, Fault> faultMap;
    void setFaults(const vector<Fault>& f) { faultMap.clear(); for (auto& x : f) faultMap[{x.proc, x.op}] = x; }
    HostResult run(const HostSpec& s);
    // all at once; sched = explicit choices (index among runnable), afterwards round robin
    vector<HostResult> runAll(const vector<HostSpec>& s, const vector<int>& sched, u64* orderHash = nullptr, u64* switches = nullptr);
};
bool hostToolAvailable(const string& tool);
u64 hostCoverage(const string& tool);      // distinct code edges reached so far in this process
void hostCoverageRaw(const string& tool, vector<u8>& bits);
