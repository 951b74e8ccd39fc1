// Reference machine: an 8086 PC with the DOS services the toolchain's programs use, written from the
// processor and DOS documentation and independent of sim86.c. Everything a real machine leaves open is
// decided by the seed: initial memory and registers, undefined flags, load segment, interrupt times,
// what DOS and interrupt handlers leave below the stack pointer, read sizes, errors, disk space.
#pragma once
#include "host.h"

enum { AX, CX, DX, BX, SP, BP, SI, DI };
enum { ES, CS, SS, DS };

struct DosRec {
    u8 ah = 0; u16 ax = 0, bx = 0, cx = 0, dx = 0;   // registers at the call
    u16 rax = 0; bool cf = false;                    // result
    string path;                                     // file concerned ("" for console)
    u64 step = 0; int op = -1;                       // instruction count; fault index (-1: not a fault point)
};
struct Pc;
struct PcHooks {
    virtual ~PcHooks() {}
    virtual bool intr(Pc&, int) { return false; }    // true: handled
    virtual bool in(Pc&, u16, bool, u16&) { return false; }
    virtual bool out(Pc&, u16, bool, u16) { return false; }
    virtual void halt(Pc&) {}
};
struct PcSpec {
    string name = "prog";         // for messages
    string image;                 // .com file
    string tail;                  // command tail as typed, normally starting with a blank
    int proc = 0;
    u64 seed = 0;
    int garbage = 3;              // 0 zero memory, 1 0xFF, 2 repeating pattern, 3 random
    int readMode = 0;             // as HostSpec; random sizes depend on file and position only
    u64 readSeed = 0;             // for random read sizes (0: seed)
    int maxFds = 15;
    u64 fuel = 200000000ull;
    int irqEvery = 0;             // mean number of instructions between interrupts, 0 = none
    int tickEvery = 20000;        // instructions per timer tick
    u32 ticks0 = 0;
    bool faultConsole = false;
    int consoleRoom = -1;         // handle writes to the console: bytes accepted per call (-1 all)
    u32 extraLo = 0, extraHi = 0; // physical range the program may write besides its own segment
    bool extraAbove = false;      // may use all memory above its segment up to A0000 (DOS gives a .com all of it)
    PcHooks* hooks = nullptr;
    bool trace = false;           // record the instructions executed and the stack where it is deepest
    bool keepMem = false;         // copy the program's segment into the result
};
struct PcResult {
    EndKind end = E_NONE; int code = 0; string out, detail; u64 steps = 0;
    vector<DosRec> calls; vector<string> openPaths, protocol; int maxOpen = 0;
    bool faultFired = false, errFired = false;
    string seg;
    struct Step { u16 ip, sp, bp; }; vector<Step> steps_; vector<std::pair<u16, u16>> stack; u16 minSp = 0xFFFF; // with trace: before each instruction; (BP, return address)
    bool ok() const { return end == E_EXIT && code == 0; }
    string describe() const;
};
struct Pc {
    u8* mem; u16 r[8], s[4], ip;
    u8 cf, pf, af, zf, sf, of, df, iff, tf;
    World* w; const PcSpec* sp; PcResult* res; u64 steps = 0; u64 rng = 1;
    u16 baseSeg = 0; u32 guardLo = 0, guardHi = 0, topLo = 0, topHi = 0;
    bool stop = false;
    struct H { std::shared_ptr<FileNode> node; string path; size_t pos = 0; bool wr = false, late = false; };
    map<int, H> fds; std::set<int> closed; int opCount = 0;
    void end(EndKind e, int code, const string& d = "") { if (stop) return; stop = true; res->end = e; res->code = code; res->detail = d; }
    u8 rd8(u16 seg, u16 off) { return mem[((u32)(seg << 4) + off) & 0xFFFFF]; }
    u16 rd16(u16 seg, u16 off) { return (u16)(rd8(seg, off) | rd8(seg, (u16)(off + 1)) << 8); }
    void wr8(u16 seg, u16 off, u8 v);
    void wr16(u16 seg, u16 off, u16 v) { wr8(seg, off, (u8)v); wr8(seg, (u16)(off + 1), (u8)(v >> 8)); }
    u16 flags() const { return (u16)(0xF002 | cf | pf << 2 | af << 4 | zf << 6 | sf << 7 | tf << 8 | iff << 9 | df << 10 | of << 11); }
    void setFlags(u16 f) { cf = f & 1; pf = f >> 2 & 1; af = f >> 4 & 1; zf = f >> 6 & 1; sf = f >> 7 & 1; tf = f >> 8 & 1; iff = f >> 9 & 1; df = f >> 10 & 1; of = f >> 11 & 1; }
    u64 rnd() { rng += 0x9E3779B97F4A7C15ull; return mix64(rng); }
    void rec(const char* what, u64 a, u64 b, u64 c);
    void clobberBelowSp(int n);
    void run();


    void dos(); u32 ticksLast = 0; int undef = 0;
};
// Load a .com and run it to its end on w's disk.
PcResult runPc(World& w, const PcSpec& s);
