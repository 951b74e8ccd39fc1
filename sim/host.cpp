#include "host.h"
#include <dlfcn.h>
#include <link.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <stdio_ext.h>
#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
extern "C" void __sanitizer_start_switch_fiber(void** fake, const void* bottom, size_t size);
extern "C" void __sanitizer_finish_switch_fiber(void* fake, const void** bottomOld, size_t* sizeOld);
#endif

const char* const opNames[] = { "open", "create", "read", "write", "close", "other" };
const char* const endNames[] = { "none", "exit", "signal", "hang", "killed", "power-loss", "memory-error" };

enum { COVSIZE = 1 << 18, STACKSZ = 512 * 1024 };

struct Seg { char* p; size_t n; vector<char> init; };
struct ToolLib {
    string tool; void* h = nullptr; int (*mainFn)(int, char**) = nullptr;
    vector<Seg> segs; uintptr_t base = 0; bool busy = false;
    vector<u8>* cov = nullptr;
};
static map<string, vector<ToolLib*>> gLibs;
static map<string, vector<u8>> gCovs;

static void rawcopy(void* d, const void* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }

static bool pageZero(const char* p, size_t n) {
    const u64* q = (const u64*)p;
    for (size_t i = 0; i < n / 8; ++i) if (q[i]) return false;
    return true;
}
#ifdef SIM_ASAN
__attribute__((no_sanitize_address))
#endif
static void restoreSeg(Seg& s) {
#ifdef SIM_ASAN
    rawcopy(s.p, s.init.data(), s.n);
#else
    memcpy(s.p, s.init.data(), s.n);
#endif
    (void)pageZero;
}

static ToolLib* loadLib(const string& tool, int inst) {
    string path = gBuildDir + "/tools/" + tool + "." + std::to_string(inst) + ".so";
    void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) {
        const char* e = dlerror();
        if (inst == 0) fprintf(stderr, "dlopen %s: %s\n", path.c_str(), e);
        return nullptr;
    }
    auto* l = new ToolLib; l->tool = tool; l->h = h;
    l->mainFn = (int (*)(int, char**))dlsym(h, "tool_main");
    struct link_map* lm = nullptr;
    dlinfo(h, RTLD_DI_LINKMAP, &lm);
    l->base = lm->l_addr;
    struct Ctx { ToolLib* l; } c{ l };
    dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void* p) {
        auto* l = ((Ctx*)p)->l;
        if (i->dlpi_addr != l->base) return 0;
        for (int k = 0; k < i->dlpi_phnum; ++k) {
            auto& ph = i->dlpi_phdr[k];
            if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) {
                Seg s; s.p = (char*)(i->dlpi_addr + ph.p_vaddr); s.n = ph.p_memsz;
                s.init.resize(s.n); rawcopy(s.init.data(), s.p, s.n);
                l->segs.push_back(std::move(s));
            }
        }
        return 0;
    }, &c);
    auto& cv = gCovs[tool];
    if (cv.empty()) cv.resize(COVSIZE);
    l->cov = &cv;
    return l;
}
static ToolLib* acquire(const string& tool) {
    auto& v = gLibs[tool];
    for (auto* l : v) if (!l->busy) { l->busy = true; return l; }
    ToolLib* l = loadLib(tool, (int)v.size());
    if (!l) return nullptr;
    v.push_back(l); l->busy = true;
    return l;
}
bool hostToolAvailable(const string& tool) { ToolLib* l = acquire(tool); if (!l) return false; l->busy = false; return true; }
u64 hostCoverage(const string& tool) { u64 n = 0; for (u8 b : gCovs[tool]) n += b; return n; }
void hostCoverageRaw(const string& tool, vector<u8>& bits) { bits = gCovs[tool]; }

// ---------------------------------------------------------------- processes
struct OpenFile { std::shared_ptr<FileNode> node; string path; size_t pos = 0; int flags = 0; bool late = false; };
struct HostProc {
    HostSpec spec; ToolLib* lib = nullptr; HostResult r; World* w = nullptr;
    ucontext_t ctx; int slot = 0; bool done = false;
    map<int, OpenFile> fds; int opCount = 0; int nextFd = 3;
    FILE* fout = nullptr; FILE* ferr = nullptr; FILE* fin = nullptr;
    u64 fuelLeft = 0;
    vector<void (*)()> atexits; vector<void*> mallocs;
    vector<string> argStore; vector<char*> argv;
    std::set<int> closedFds;
#ifdef SIM_ASAN
    void* fake = nullptr;
#endif
};
static char* gStacks[16];
static char gOutBuf[16][4096];
static ucontext_t gSched;
static HostProc* cur;
static bool gInSched = true;
static u64 gFuel = ~0ull; static u8* gCov; static uintptr_t gCovBase;
static bool gMulti;
static volatile int gAsanHit;
#ifdef SIM_ASAN
static const void* gMainBottom; static size_t gMainSize; static void* gMainFake;
#endif

extern "C" { FILE* sim_stdout; FILE* sim_stderr; FILE* sim_stdin; int sim_errno_dummy; }

static void toSched(bool dying) {
    HostProc* p = cur;
#ifdef SIM_ASAN
    __sanitizer_start_switch_fiber(dying ? nullptr : &p->fake, gMainBottom, gMainSize);
#endif
    p->fuelLeft = gFuel; gFuel = ~0ull;
    if (dying) { setcontext(&gSched); __builtin_unreachable(); }
    swapcontext(&p->ctx, &gSched);
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(p->fake, nullptr, nullptr);
#endif
}
static void finish(EndKind e, int code, const string& detail = "") __attribute__((noreturn));
static void finish(EndKind e, int code, const string& detail) {
    cur->r.end = e; cur->r.code = code; if (!detail.empty()) cur->r.detail = detail;
    cur->done = true;
    toSched(true);
    __builtin_unreachable();
}
extern "C" __attribute__((visibility("default")))
#ifdef SIM_ASAN
__attribute__((no_sanitize_address))
#endif
void __sanitizer_cov_trace_pc() {
    if (gInSched) return;
    if (--gFuel == 0) { gFuel = ~0ull; finish(E_HANG, 0, "step budget exhausted"); }
    gCov[((uintptr_t)__builtin_return_address(0) - gCovBase) & (COVSIZE - 1)] = 1;
}

static void onSignal(int sig, siginfo_t* si, void*) {
    if (gInSched || !cur) {
        const char m[] = "fatal signal inside the simulator\n"; (void)!write(2, m, sizeof m - 1);
        signal(sig, SIG_DFL); raise(sig); _exit(3);
    }
    (void)si;
    cur->r.end = E_SIGNAL; cur->r.code = sig; cur->done = true;
    const char* nm = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "SIGABRT";
    cur->r.detail = nm;
    gFuel = ~0ull;
    toSched(true);
}
static void initSignals() {
    static bool done; if (done) return; done = true;
    static char alt[65536];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = onSignal; sa.sa_flags = SA_ONSTACK | SA_SIGINFO | SA_NODEFER;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) sigaction(s, &sa, nullptr);
    for (auto& s : gStacks) {
        char* m = (char*)mmap(nullptr, STACKSZ + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(m, 65536, PROT_NONE);
        s = m + 65536;
    }
}
#ifdef SIM_ASAN
extern "C" void __asan_on_error() {
    gAsanHit = 1;
}
extern "C" const char* __asan_default_options() {
    return "halt_on_error=0:suppress_equal_pcs=0:detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_abort=0:handle_sigill=0:"
           "detect_stack_use_after_return=0:symbolize=0:print_summary=0:print_legend=0:log_path=/dev/null:detect_odr_violation=0:allocator_may_return_null=1:use_sigaltstack=0";
}
#endif

// ---------------------------------------------------------------- operations
static int errnoFor(OpKind k, int sel) {
    static const int o[] = { EACCES, ENOENT, EMFILE, EIO, EINTR, ENFILE }, c[] = { ENOSPC, EACCES, EROFS, EMFILE, EIO, EINTR },
        r[] = { EIO, EINTR, EBADF, EAGAIN }, w[] = { ENOSPC, EIO, EINTR, EDQUOT }, x[] = { EIO, ENOSPC, EINTR };
    unsigned s = (unsigned)sel;
    switch (k) {
    case OP_OPEN: return o[s % 6];
    case OP_CREATE: return c[s % 6];
    case OP_READ: return r[s % 4];
    case OP_WRITE: return w[s % 4];
    default: return x[s % 3];
    }
}
// One operation begins: schedule, count, look up the fault.
static Fault beginOp(OpKind k, bool console) {
    HostProc* p = cur;
    if (gMulti) { toSched(false); p = cur; }
    if (console && !p->spec.faultConsole) return Fault();
    int idx = p->opCount++;
    (void)k;
    if (!p->w->applyFaults) return Fault();
    auto i = p->w->faultMap.find({ p->spec.proc, idx });
    if (i == p->w->faultMap.end()) return Fault();
    return i->second;
}
static void crashNow(World* w, const Fault& f) {
    if (f.kind == F_POWER) { w->disk.powerLoss(mix64(f.arg, 77)); w->powerLost = true; if (w->oc) w->oc->st.inc("fault.power-loss"); finish(E_POWER, 0); }
    if (w->oc) w->oc->st.inc("fault.kill");
    finish(E_KILLED, 0);
}
static void rec(OpKind k, const string& path, long want, long got, bool console) {
    HostProc* p = cur;
    Outcome* oc = p->w->oc;
    if (oc) {
        Hash h; h.h = oc->trace; h.add(p->spec.proc); h.add(k); h.add(path); h.add((u64)want); h.add((u64)got); oc->trace = h.h;
        ++oc->simTime;
        if (gTrace) oc->log.push_back(sfmt("[p%d %s] #%d %s %s want=%ld got=%ld", p->spec.proc, p->spec.tool.c_str(), p->opCount - 1, opNames[k], path.c_str(), want, got));
    }
    if (p->r.ops.size() < 200000) p->r.ops.push_back({ k, path, want, got, console });
}
static void fired(const Fault& f, bool err) {
    HostProc* p = cur;
    p->r.faultFired = true;
    if (err) p->r.errFired = true;
    if (p->w->oc) p->w->oc->st.inc(string("fault.") + faultNames[f.kind]);
}
// The lowest free descriptor. One process in four was started with its standard input closed,
// so that the first file it opens becomes descriptor 0.
static int freeFd(HostProc* p) {
    if (p->spec.seed && mix64(p->spec.seed, 0xfd0) % 4 == 0 && !p->fds.count(0)) { if (p->w->oc) p->w->oc->st.inc("fault.stdin-closed"); return 0; }
    int fd = 3; while (p->fds.count(fd)) ++fd;
    return fd;
}
static int doOpen(const char* path, int flags) {
    bool create = flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR);
    OpKind k = create ? OP_CREATE : OP_OPEN;
    Fault f = beginOp(k, false);
    HostProc* p = cur; World* w = p->w;
    if (f.kind == F_KILL || f.kind == F_POWER) crashNow(w, f);
    int err = 0, fd = -1;
    if (f.kind == F_ERR) { err = errnoFor(k, f.arg); fired(f, true); }
    else if ((int)p->fds.size() >= p->spec.maxFds) { err = EMFILE; p->r.errFired = true; if (w->oc) w->oc->st.inc("fault.handle-limit"); }
    else {
        string key = w->disk.key(path);
        auto i = w->disk.files.find(key);
        if (i == w->disk.files.end()) {
            if (!(flags & O_CREAT)) err = ENOENT;
            else { auto n = std::make_shared<FileNode>(); w->disk.files[key] = n; i = w->disk.files.find(key); }
        } else if ((flags & O_CREAT) && (flags & O_EXCL)) err = EEXIST;
        if (!err) {
            int acc = flags & O_ACCMODE;
            if (i->second->readonly && acc != O_RDONLY) err = EACCES;
            else {
                if ((flags & O_TRUNC) && acc != O_RDONLY) i->second->data.clear();
                else if (flags & O_TRUNC) i->second->data.clear();
                fd = freeFd(p);
                OpenFile of; of.node = i->second; of.path = path; of.flags = flags;
                p->fds[fd] = of; p->closedFds.erase(fd);
                p->r.maxOpen = std::max(p->r.maxOpen, (int)p->fds.size());
            }
        }
    }
    rec(k, path, flags, fd < 0 ? -err : 0, false);
    if (f.kind == F_KILL_AFTER) crashNow(w, f);
    if (fd < 0) errno = err;
    return fd;
}
static ssize_t doRead(int fd, void* buf, size_t n) {
    Fault f = beginOp(OP_READ, false);
    HostProc* p = cur; World* w = p->w;
    if (f.kind == F_KILL || f.kind == F_POWER) crashNow(w, f);
    auto i = p->fds.find(fd);
    ssize_t got; int err = 0;
    if (f.kind == F_ERR) { err = errnoFor(OP_READ, f.arg); got = -1; fired(f, true); }
    else if (i == p->fds.end()) {
        if (fd == 0) got = 0;
        else { err = EBADF; got = -1; p->r.protocol.push_back(sfmt("read on handle %d which is not open", fd)); }
    } else {
        auto& of = i->second;
        size_t avail = of.pos < of.node->data.size() ? of.node->data.size() - of.pos : 0;
        size_t m = std::min(avail, n);
        if (m > 1) {
            int mode = p->spec.readMode;
            size_t lim = m;
            if (f.kind == F_SHORT) { lim = std::max(1, f.arg); if (lim < m) fired(f, false); }
            else if (mode > 0) lim = mode;
            else if (mode < 0) {
                u64 h = mix64(p->spec.seed, p->r.ops.size(), 5);
                switch (h % 5) {
                case 0: lim = 1 + (h >> 8) % 4; break;
                case 1: case 2: lim = 1 + (h >> 8) % 64; break;
                case 3: lim = 1 + (h >> 8) % m; break;
                default: lim = m;
                }
            }
            if (lim < m) { m = lim; if (w->oc) w->oc->st.inc("fault.split-read"); }
        }
        memcpy(buf, of.node->data.data() + of.pos, m);
        of.pos += m; got = (ssize_t)m;
    }
    rec(OP_READ, i == p->fds.end() ? "?" : i->second.path, (long)n, got < 0 ? -err : got, false);
    if (f.kind == F_KILL_AFTER) crashNow(w, f);
    if (got < 0) errno = err;
    return got;
}
static ssize_t doWrite(int fd, const void* buf, size_t n) {
    HostProc* p = cur;
    bool console = (fd == 1 || fd == 2) && !p->fds.count(fd);
    Fault f = beginOp(OP_WRITE, console);
    World* w = p->w;
    auto i = p->fds.find(fd);
    if (f.kind == F_KILL || f.kind == F_POWER) {
        if (f.arg > 0 && i != p->fds.end() && (i->second.flags & O_ACCMODE) != O_RDONLY) { // torn: part of the data got out
            string& d = i->second.node->data; size_t m = std::min<size_t>(n, (size_t)f.arg % (n + 1));
            if (d.size() < i->second.pos + m) d.resize(i->second.pos + m);
            memcpy(&d[0] + i->second.pos, buf, m);
        }
        crashNow(w, f);
    }
    ssize_t got; int err = 0; string path;
    if (console) path = fd == 1 ? "<stdout>" : "<stderr>"; else path = i == p->fds.end() ? "?" : i->second.path;
    if (f.kind == F_ERR) { err = errnoFor(OP_WRITE, f.arg); got = -1; fired(f, true); }
    else if (f.kind == F_ZERO && (console || (i != p->fds.end() && (i->second.flags & O_ACCMODE) != O_RDONLY))) { got = 0; fired(f, true); }
    else {
        size_t m = n;
        if (f.kind == F_SHORT && m > 1) { size_t l = std::max(1, f.arg); if (l < m) { m = l; fired(f, false); } }
        if (console) {
            if (p->spec.outChunk && fd == 1 && m > (size_t)p->spec.outChunk) { m = p->spec.outChunk; if (w->oc) w->oc->st.inc("fault.split-console"); }
            string& o = fd == 1 ? p->r.out : p->r.err;
            if (o.size() < (1 << 22)) o.append((const char*)buf, m);
            got = (ssize_t)m;
        } else if (i == p->fds.end()) { err = EBADF; got = -1; p->r.protocol.push_back(sfmt("write on handle %d which is not open", fd)); }
        else if ((i->second.flags & O_ACCMODE) == O_RDONLY) { err = EBADF; got = -1; p->r.protocol.push_back("write on a handle opened for reading (" + path + ")"); }
        else {
            auto& of = i->second; string& d = of.node->data;
            if (of.flags & O_APPEND) of.pos = d.size();
            size_t room = w->disk.room(*of.node, of.pos, m);
            if (room < m) { if (w->oc) w->oc->st.inc("fault.disk-full"); p->r.faultFired = true; m = room; }
            if (m == 0 && n) { err = ENOSPC; got = -1; p->r.errFired = true; }
            else {
                if (d.size() < of.pos + m) d.resize(of.pos + m);
                if (f.kind == F_LATE && m) { fired(f, false); of.late = true; memset(&d[0] + of.pos, 0, m); }
                else memcpy(&d[0] + of.pos, buf, m);
                of.pos += m; got = (ssize_t)m;
            }
        }
    }
    rec(OP_WRITE, path, (long)n, got < 0 ? -err : got, console);
    if (p->w->oc && got > 0) { Hash h; h.h = p->w->oc->trace; h.add(string((const char*)buf, (size_t)got)); p->w->oc->trace = h.h; }
    if (f.kind == F_KILL_AFTER) crashNow(w, f);
    if (got < 0) errno = err;
    return got;
}
static int doClose(int fd) {
    Fault f = beginOp(OP_CLOSE, false);
    HostProc* p = cur; World* w = p->w;
    if (f.kind == F_KILL || f.kind == F_POWER) crashNow(w, f);
    auto i = p->fds.find(fd);
    int res = 0, err = 0; string path = "?";
    if (i == p->fds.end()) { res = -1; err = EBADF; p->r.protocol.push_back(sfmt(p->closedFds.count(fd) ? "handle %d closed twice" : "close on handle %d which is not open", fd)); }
    else {
        path = i->second.path;
        bool wr = (i->second.flags & O_ACCMODE) != O_RDONLY;
        if (i->second.late) { res = -1; err = EIO; p->r.errFired = true; }
        if (f.kind == F_ERR || f.kind == F_LOSE) {
            res = -1; err = errnoFor(OP_CLOSE, f.arg); fired(f, true);
            if (f.kind == F_LOSE && wr) { string& d = i->second.node->data; if (!d.empty()) d.resize(mix64(f.arg) % d.size()); }
        }
        p->fds.erase(i); p->closedFds.insert(fd);
    }
    rec(OP_CLOSE, path, fd, res ? -err : 0, false);
    if (f.kind == F_KILL_AFTER) crashNow(w, f);
    if (res) errno = err;
    return res;
}

// ---------------------------------------------------------------- libc entry points of the tools
#define API extern "C" __attribute__((visibility("default")))
API int sim_open(const char* path, int flags, ...) { return doOpen(path, flags); }
API int sim_creat(const char* path, int) { return doOpen(path, O_CREAT | O_TRUNC | O_WRONLY); }
API ssize_t sim_read(int fd, void* b, size_t n) { return doRead(fd, b, n); }
API ssize_t sim_write(int fd, const void* b, size_t n) { return doWrite(fd, b, n); }
API int sim_close(int fd) { return doClose(fd); }
API off_t sim_lseek(int fd, off_t o, int wh) {
    beginOp(OP_OTHER, true);
    auto i = cur->fds.find(fd); if (i == cur->fds.end()) { errno = EBADF; return -1; }
    auto& of = i->second; long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)of.pos : (long)of.node->data.size();
    if (b + o < 0) { errno = EINVAL; return -1; }
    of.pos = (size_t)(b + o); rec(OP_OTHER, "lseek " + of.path, o, (long)of.pos, false); return (off_t)of.pos;
}
API int sim_ftruncate(int fd, off_t n) { auto i = cur->fds.find(fd); if (i == cur->fds.end()) { errno = EBADF; return -1; } i->second.node->data.resize((size_t)n); return 0; }
API int sim_fsync(int fd) { beginOp(OP_OTHER, true); auto i = cur->fds.find(fd); if (i == cur->fds.end()) { errno = EBADF; return -1; } cur->w->disk.durable[cur->w->disk.key(i->second.path)] = i->second.node->data; return 0; }
API int sim_unlink(const char* p) {
    beginOp(OP_OTHER, true);
    auto& d = cur->w->disk; auto i = d.files.find(d.key(p));
    rec(OP_OTHER, string("unlink ") + p, 0, i != d.files.end(), false);
    if (i == d.files.end()) { errno = ENOENT; return -1; }
    d.files.erase(i); return 0;
}
API int sim_rename(const char* a, const char* b) {
    beginOp(OP_OTHER, true);
    auto& d = cur->w->disk; auto i = d.files.find(d.key(a));
    rec(OP_OTHER, string("rename ") + a + " " + b, 0, i != d.files.end(), false);
    if (i == d.files.end()) { errno = ENOENT; return -1; }
    auto n = i->second; d.files.erase(i); d.files[d.key(b)] = n; return 0;
}
API int sim_access(const char* p, int) { if (cur->w->disk.find(p)) return 0; errno = ENOENT; return -1; }
static int fillStat(FileNode* n, struct stat* st) { memset(st, 0, sizeof *st); if (!n) { errno = ENOENT; return -1; } st->st_mode = S_IFREG | 0600; st->st_size = (off_t)n->data.size(); st->st_nlink = 1; return 0; }
API int sim_stat(const char* p, struct stat* st) { return fillStat(cur->w->disk.find(p), st); }
API int sim_fstat(int fd, struct stat* st) { auto i = cur->fds.find(fd); if (i == cur->fds.end()) { memset(st, 0, sizeof *st); st->st_mode = S_IFCHR; return fd > 2 ? -1 : 0; } return fillStat(i->second.node.get(), st); }
API int sim_isatty(int fd) { return fd <= 2 && cur->spec.outMode == 1; }
API int sim_dup(int fd) { auto i = cur->fds.find(fd); if (i == cur->fds.end()) { errno = EBADF; return -1; } int n = freeFd(cur); OpenFile o = i->second; cur->fds[n] = o; return n; }

static void closeFile(FILE* f) { if (f) fflush(f); }
static void runExit(int code, bool flush) {
    if (flush) {
        while (!cur->atexits.empty()) { auto f = cur->atexits.back(); cur->atexits.pop_back(); f(); }
        closeFile(cur->fout); closeFile(cur->ferr);
    }
    finish(E_EXIT, code & 0xff);
}
API void sim_exit(int code) { runExit(code, true); }
API void sim__exit(int code) { runExit(code, false); }
API int sim_atexit(void (*f)()) { cur->atexits.push_back(f); return 0; }
API void sim_abort() { finish(E_SIGNAL, SIGABRT, "abort"); }
API int sim_raise(int s) { finish(E_SIGNAL, s, "raise"); }
API void sim___assert_fail(const char* e, const char* file, unsigned line, const char*) {
    const char* b = strrchr(file, '/'); (void)line;
    string m = sfmt("%s: Assertion `%s' failed.\n", b ? b + 1 : file, e);
    cur->r.err += m;
    finish(E_SIGNAL, SIGABRT, "assertion failed: " + string(e));
}
API void* sim_malloc(size_t n) { void* p = malloc(n); if (p) { memset(p, 0xA5, n); cur->mallocs.push_back(p); } return p; }
API void* sim_calloc(size_t a, size_t b) { void* p = calloc(a, b); if (p) cur->mallocs.push_back(p); return p; }
API void* sim_realloc(void* q, size_t n) { void* p = realloc(q, n); auto& v = cur->mallocs; for (auto& x : v) if (x == q) { x = p; return p; } v.push_back(p); return p; }
API void sim_free(void* q) { auto& v = cur->mallocs; for (auto& x : v) if (x == q) { x = v.back(); v.pop_back(); free(q); return; } }
API char* sim_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)sim_malloc(n); memcpy(p, s, n); return p; }

// stdio: real FILE objects of the C library over cookie functions that end in the same operations
static ssize_t ckRead(void* c, char* b, size_t n) { return doRead((int)(intptr_t)c, b, n); }
static ssize_t ckWrite(void* c, const char* b, size_t n) { // as the C library does on a descriptor: go on after a partial write
    size_t done = 0;
    while (done < n) { ssize_t r = doWrite((int)(intptr_t)c, b + done, n - done); if (r < 0) break; if (r == 0) break; done += (size_t)r; }
    return (ssize_t)done;
}
static int ckSeek(void* c, off64_t* o, int wh) { off_t r = sim_lseek((int)(intptr_t)c, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ckClose(void* c) { return doClose((int)(intptr_t)c); }
static FILE* cookie(int fd, const char* mode, int bufmode, char* buf) {
    cookie_io_functions_t io = { ckRead, ckWrite, ckSeek, ckClose };
    FILE* f = fopencookie((void*)(intptr_t)fd, mode, io);
    __fsetlocking(f, FSETLOCKING_BYCALLER);
    if (bufmode == 2) setvbuf(f, nullptr, _IONBF, 0);
    else setvbuf(f, buf, bufmode == 1 ? _IOLBF : _IOFBF, 4096);
    return f;
}
API FILE* sim_fopen(const char* path, const char* mode) {
    int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_CREAT | O_TRUNC | O_WRONLY : O_CREAT | O_APPEND | O_WRONLY;
    if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
    int fd = doOpen(path, fl);
    if (fd < 0) return nullptr;
    return cookie(fd, mode, 0, nullptr);
}
API FILE* sim_fdopen(int fd, const char* mode) { return cookie(fd, mode, 0, nullptr); }
API int sim_fileno(FILE* f) { return f == cur->fout ? 1 : f == cur->ferr ? 2 : f == cur->fin ? 0 : -1; }
API int sim_putchar(int c) { return fputc(c, sim_stdout); }
API int sim_putc(int c, FILE* f) { return fputc(c, f); }
API int sim_puts(const char* s) { int r = fputs(s, sim_stdout); return r < 0 ? r : fputc('\n', sim_stdout); }
API int sim_printf(const char* f, ...) { va_list a; va_start(a, f); int r = vfprintf(sim_stdout, f, a); va_end(a); return r; }
API int sim_vprintf(const char* f, va_list a) { return vfprintf(sim_stdout, f, a); }
API int sim_getchar() { return EOF; }
API void sim_perror(const char* s) { fprintf(sim_stderr, "%s: error\n", s); }
API int sim_setvbuf(FILE* f, char* b, int m, size_t n) { return setvbuf(f, b, m, n); }
API long sim_time(long* t) { if (t) *t = 1000; return 1000; }
API long sim_clock() { return 43; }
API char* sim_getenv(const char*) { return nullptr; }
API int sim_system(const char*) { return -1; }
API char* sim_tmpnam(char* b) { static char s[32]; if (!b) b = s; strcpy(b, "tmpXXXX"); return b; }
API int sim_mkstemp(char* t) { size_t n = strlen(t); if (n >= 6) memcpy(t + n - 6, "aaaaaa", 6); return doOpen(t, O_CREAT | O_EXCL | O_RDWR); }

API int sim_open64(const char* p, int f, ...) { return doOpen(p, f); }
API int sim_openat(int, const char* p, int f, ...) { return doOpen(p, f); }
API int sim_openat64(int, const char* p, int f, ...) { return doOpen(p, f); }
API int sim_creat64(const char* p, int m) { return sim_creat(p, m); }
API off_t sim_lseek64(int fd, off_t o, int wh) { return sim_lseek(fd, o, wh); }
API int sim_ftruncate64(int fd, off_t n) { return sim_ftruncate(fd, n); }
API int sim_fdatasync(int fd) { return sim_fsync(fd); }
API int sim_remove(const char* p) { return sim_unlink(p); }
API int sim_stat64(const char* p, struct stat* st) { return sim_stat(p, st); }
API int sim_fstat64(int fd, struct stat* st) { return sim_fstat(fd, st); }
API void sim__Exit(int code) { runExit(code, false); }
API FILE* sim_fopen64(const char* p, const char* m) { return sim_fopen(p, m); }
API int sim__IO_putc(int c, FILE* f) { return fputc(c, f); }
API int sim_putchar_unlocked(int c) { return fputc(c, sim_stdout); }
API int sim_putc_unlocked(int c, FILE* f) { return fputc(c, f); }
API int sim___isoc99_scanf(const char*, ...) { return EOF; }

// ---------------------------------------------------------------- scheduler
static void entry() {
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &gMainBottom, &gMainSize);
#endif
    HostProc* p = cur;
    int r = p->lib->mainFn((int)p->argv.size() - 1, p->argv.data());
    runExit(r, true);
}
static void startProc(HostProc* p, int slot) {
    initSignals();
    p->slot = slot;
    for (auto& s : p->lib->segs) restoreSeg(s);
    char* st = gStacks[slot];
#ifdef SIM_ASAN
    __asan_unpoison_memory_region(st, STACKSZ);
#endif
    u64* q = (u64*)(st + STACKSZ - 48 * 1024); u64 g = mix64(p->spec.seed, 99) | 0x0101010101010101ull;
    for (int i = 0; i < 48 * 1024 / 8; ++i) q[i] = g;
    p->fuelLeft = p->spec.fuel;
    p->argStore.push_back(p->spec.tool);
    for (auto& a : p->spec.args) p->argStore.push_back(a);
    for (auto& a : p->argStore) p->argv.push_back(&a[0]);
    p->argv.push_back(nullptr);
    p->fout = cookie(1, "w", p->spec.outMode, gOutBuf[slot]);
    p->ferr = cookie(2, "w", 2, nullptr);
    p->fin = cookie(0, "r", 0, nullptr);
    getcontext(&p->ctx);
    p->ctx.uc_stack.ss_sp = st; p->ctx.uc_stack.ss_size = STACKSZ; p->ctx.uc_link = nullptr;
    makecontext(&p->ctx, entry, 0);
}
static void resume(HostProc* p) {
    cur = p;
    sim_stdout = p->fout; sim_stderr = p->ferr; sim_stdin = p->fin;
    gCov = p->lib->cov->data(); gCovBase = p->lib->base; gFuel = p->fuelLeft;
    gAsanHit = 0;
#ifdef SIM_ASAN
    __sanitizer_start_switch_fiber(&gMainFake, gStacks[p->slot], STACKSZ);
#endif
    gInSched = false;
    swapcontext(&gSched, &p->ctx);
    gInSched = true;
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(gMainFake, nullptr, nullptr);
#endif
    if (gAsanHit) p->r.detail = "invalid memory access";
    if (gAsanHit && p->done) { p->r.end = E_MEM; }
    else if (gAsanHit) { p->r.end = E_MEM; p->done = true; }
    cur = nullptr;
}
static void endProc(HostProc* p) {
    p->r.steps = p->spec.fuel - p->fuelLeft;
    for (auto& f : p->fds) p->r.openPaths.push_back(f.second.path);
    p->fds.clear();
    for (void* m : p->mallocs) free(m);
    p->lib->busy = false;
    World* w = p->w;
    if (w->oc) {
        Hash h; h.h = w->oc->trace; h.add(p->spec.proc); h.add(p->r.end); h.add((u64)p->r.code); h.add(p->r.out); h.add(p->r.err); h.add(p->r.detail); w->oc->trace = h.h;
        w->oc->st.inc("proc." + p->spec.tool); w->oc->st.inc(string("end.") + endNames[p->r.end]);
        if (gTrace) w->oc->log.push_back(sfmt("[p%d %s] ends: %s", p->spec.proc, p->spec.tool.c_str(), p->r.describe().c_str()));
    }
}
string HostResult::describe() const {
    string s = end == E_EXIT ? sfmt("exit status %d", code) : sfmt("%s %d %s", endNames[end], code, detail.c_str());
    if (!out.empty()) s += " stdout=" + quote(out, 160);
    if (!err.empty()) s += " stderr=" + quote(err, 160);
    return s;
}
vector<HostResult> World::runAll(const vector<HostSpec>& specs, const vector<int>& sched, u64* orderHash, u64* switches) {
    vector<std::unique_ptr<HostProc>> ps;
    int slot = 0;
    for (auto& s : specs) {
        auto p = std::make_unique<HostProc>();
        p->spec = s; p->w = this; p->lib = acquire(s.tool);
        if (!p->lib) { fprintf(stderr, "simlab: tool %s not available\n", s.tool.c_str()); _exit(2); }
        startProc(p.get(), slot++);
        ps.push_back(std::move(p));
    }
    bool multi = specs.size() > 1;
    size_t sp = 0; int last = -1; Hash oh; u64 sw = 0; size_t rr = 0;
    for (;;) {
        vector<int> ready;
        for (size_t i = 0; i < ps.size(); ++i) if (!ps[i]->done) ready.push_back((int)i);
        if (ready.empty() || powerLost) break;
        int pick;
        if (sp < sched.size()) pick = ready[(size_t)sched[sp++] % ready.size()];
        else pick = ready[rr++ % ready.size()];
        if (pick != last) ++sw;
        last = pick; oh.add((u64)pick);
        gMulti = multi;
        resume(ps[pick].get());
        gMulti = false;
    }
    if (orderHash) *orderHash = oh.h;
    if (switches) *switches = sw;
    vector<HostResult> r;
    for (auto& p : ps) { if (!p->done) { p->r.end = E_POWER; } endProc(p.get()); r.push_back(std::move(p->r)); }
    return r;
}
HostResult World::run(const HostSpec& s) { return std::move(runAll({ s }, {})[0]); }
