#include "pc.h"
#include <sys/mman.h>

static u8* gMem; // one machine at a time

void Pc::wr8(u16 seg, u16 off, u8 v) {
    u32 a = ((u32)(seg << 4) + off) & 0xFFFFF;
    if (a - guardLo >= guardHi - guardLo && a - topLo >= topHi - topLo && !(a >= sp->extraLo && a < sp->extraHi)) {
        end(E_MEM, 0, sfmt("write to %04X:%04X outside the program's memory (segment %04X) at %04X:%04X after %llu instructions", seg, off, baseSeg, s[CS], ip, (unsigned long long)steps));
        return;
    }
    mem[a] = v;
}
void Pc::rec(const char* what, u64 a, u64 b, u64 c) {
    Outcome* oc = w->oc; if (!oc) return;
    Hash h; h.h = oc->trace; h.add((u64)(uintptr_t)what[0] * 256 + (u64)what[1]); h.add(a); h.add(b); h.add(c); h.add(steps); oc->trace = h.h;
    if (gTrace && oc->log.size() < 20000) oc->log.push_back(sfmt("[p%d %s @%llu] %s %llX %llX %llX", sp->proc, sp->name.c_str(), (unsigned long long)steps, what, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c));
}
// DOS, BIOS and interrupt handlers use the program's stack
void Pc::clobberBelowSp(int n) {
    u64 g = rnd();
    for (int i = 1; i <= n; ++i) { u32 a = ((u32)(s[SS] << 4) + (u16)(r[SP] - i)) & 0xFFFFF; if (a >= guardLo && a < guardHi) { mem[a] = (u8)(g >> (i & 7) * 8) ^ (u8)i; } }
}

// ---------------------------------------------------------------- DOS
static int dosErr(OpKind k, int sel) {
    static const int o[] = { 2, 3, 4, 5, 0x0C, 0x15, 0x20, 0x53 }, c[] = { 3, 4, 5, 0x13, 0x53, 0x1F }, rw[] = { 5, 6, 0x1E, 0x1D, 0x53, 0x1F }, x[] = { 6, 5, 0x1D };
    unsigned s = (unsigned)sel;
    switch (k) { case OP_OPEN: return o[s % 8]; case OP_CREATE: return c[s % 6]; case OP_READ: case OP_WRITE: return rw[s % 6]; default: return x[s % 3]; }
}
void Pc::dos() {
    DosRec d; d.ax = r[AX]; d.ah = (u8)(r[AX] >> 8); d.bx = r[BX]; d.cx = r[CX]; d.dx = r[DX]; d.step = steps;
    Outcome* oc = w->oc;
    auto inc = [&](const string& k) { if (oc) oc->st.inc(k); };
    auto begin = [&](bool console) -> Fault {
        if (console && !sp->faultConsole) return Fault();
        d.op = opCount++;
        if (!w->applyFaults) return Fault();
        auto i = w->faultMap.find({ sp->proc, d.op });
        return i == w->faultMap.end() ? Fault() : i->second;
    };
    auto fired = [&](const Fault& f, bool err) { res->faultFired = true; if (err) res->errFired = true; inc(string("fault.") + faultNames[f.kind]); };
    auto crash = [&](const Fault& f) { if (f.kind == F_POWER) { w->disk.powerLoss(mix64(f.arg, 77)); w->powerLost = true; inc("fault.power-loss"); end(E_POWER, 0); } else { inc("fault.kill"); end(E_KILLED, 0); } };
    auto done = [&](u16 ax, bool c) { r[AX] = ax; cf = c; d.rax = ax; d.cf = c; if (oc) ++oc->simTime; };
    auto name = [&]() { string n; for (int i = 0; i < 128; ++i) { u8 c = rd8(s[DS], (u16)(r[DX] + i)); if (!c) return n; n += (char)c; } return string(); };
    clobberBelowSp(6 + (int)(rnd() % 40));
    int console = 0;
    if (d.ah == 0x40) console = (r[BX] == 1 || r[BX] == 2) && !fds.count(r[BX]);
    switch (d.ah) {
    case 0x02: {
        if (res->out.size() < (1u << 21)) res->out += (char)(r[DX] & 0xFF); else { end(E_HANG, 0, "endless output"); }
        if (rnd() & 1) r[AX] = (u16)((r[AX] & 0xFF00) | (r[DX] & 0xFF));   // DOS returns the character in AL
        if (oc) { Hash h; h.h = oc->trace; h.add(r[DX] & 0xFF); h.add(steps); oc->trace = h.h; }
        return;
    }
    case 0x09: for (u32 i = 0; i < 65536; ++i) { u8 c = rd8(s[DS], (u16)(r[DX] + i)); if (c == '$') break; res->out += (char)c; } return;
    case 0x30: r[AX] = 0x0005; r[BX] = 0; r[CX] = 0; return;
    case 0x4C: rec("exit", r[AX] & 0xFF, 0, 0); end(E_EXIT, r[AX] & 0xFF); return;
    case 0x3C: case 0x3D: {
        OpKind k = d.ah == 0x3C ? OP_CREATE : OP_OPEN;
        Fault f = begin(false);
        if (f.kind == F_KILL || f.kind == F_POWER) { crash(f); return; }
        d.path = name();
        int mode = k == OP_OPEN ? r[AX] & 7 : 1;
        if (f.kind == F_ERR) { fired(f, true); done((u16)dosErr(k, f.arg), true); }
        else if (d.path.empty()) done(3, true);
        else if ((int)fds.size() >= sp->maxFds) { res->errFired = true; inc("fault.handle-limit"); done(4, true); }
        else {
            string key = w->disk.key(d.path); auto i = w->disk.files.find(key);
            if (i == w->disk.files.end()) {
                if (k == OP_OPEN) { done(2, true); break; }
                w->disk.files[key] = std::make_shared<FileNode>(); i = w->disk.files.find(key);
            } else if (k == OP_CREATE) {
                if (i->second->readonly) { done(5, true); break; }
                i->second->data.clear();
            }
            int fd = 5; while (fds.count(fd)) ++fd;
            H h; h.node = i->second; h.path = d.path; h.wr = mode != 0; fds[fd] = h; closed.erase(fd);
            res->maxOpen = std::max(res->maxOpen, (int)fds.size());
            done((u16)fd, false);
        }
        if (f.kind == F_KILL_AFTER) crash(f);
        break;
    }
    case 0x3E: {
        Fault f = begin(false);
        if (f.kind == F_KILL || f.kind == F_POWER) { crash(f); return; }
        auto i = fds.find(r[BX]);
        if (i == fds.end()) { if (r[BX] > 4) res->protocol.push_back(sfmt(closed.count(r[BX]) ? "handle %d closed twice" : "close of handle %d which is not open", r[BX])); if (r[BX] < 5) done(r[AX], false); else done(6, true); }
        else {
            d.path = i->second.path;
            bool e = f.kind == F_ERR || f.kind == F_LOSE || i->second.late;
            if (f.kind == F_LOSE && i->second.wr) { string& t = i->second.node->data; if (!t.empty()) t.resize(mix64(f.arg) % t.size()); }
            if (e) { if (i->second.late) res->errFired = true; if (f.kind != F_NONE) fired(f, true); }
            closed.insert(i->first); fds.erase(i);
            if (e) done((u16)dosErr(OP_CLOSE, f.arg), true);
            else done((rnd() & 1) ? r[AX] : (u16)((r[AX] & 0xFF00) | (rnd() & 0xFF)), false);   // AL may be destroyed
        }
        if (f.kind == F_KILL_AFTER) crash(f);
        break;
    }
    case 0x3F: {
        Fault f = begin(false);
        if (f.kind == F_KILL || f.kind == F_POWER) { crash(f); return; }
        auto i = fds.find(r[BX]);
        if (f.kind == F_ERR) { if (i != fds.end()) d.path = i->second.path; fired(f, true); done((u16)dosErr(OP_READ, f.arg), true); }
        else if (i == fds.end()) { if (r[BX] == 0) done(0, false); else { res->protocol.push_back(sfmt("read on handle %d which is not open", r[BX])); done(6, true); } }
        else {
            H& h = i->second; d.path = h.path;
            size_t avail = h.pos < h.node->data.size() ? h.node->data.size() - h.pos : 0, m = std::min<size_t>(avail, r[CX]);
            if ((u32)r[DX] + r[CX] > 0x10000) res->protocol.push_back(sfmt("read of %u bytes to %04X runs over the end of the segment", r[CX], r[DX]));
            if (m > 1) {
                size_t lim = m;
                if (f.kind == F_SHORT) { lim = (size_t)std::max(1, f.arg); if (lim < m) fired(f, false); }
                else if (sp->readMode > 0) lim = (size_t)sp->readMode;
                else if (sp->readMode < 0) {
                    u64 g = mix64(sp->readSeed ? sp->readSeed : sp->seed, mix64(hashStr(w->disk.key(h.path)), h.pos, r[CX]));
                    switch (g % 5) { case 0: lim = 1 + (g >> 8) % 4; break; case 1: case 2: lim = 1 + (g >> 8) % 64; break; case 3: lim = 1 + (g >> 8) % m; break; default: break; }
                }
                if (lim < m) { m = lim; inc("fault.split-read"); }
            }
            for (size_t k = 0; k < m; ++k) wr8(s[DS], (u16)(r[DX] + k), (u8)h.node->data[h.pos + k]);
            h.pos += m; done((u16)m, false);
        }
        if (f.kind == F_KILL_AFTER) crash(f);
        break;
    }
    case 0x40: {
        Fault f = begin(console);
        if (f.kind == F_KILL || f.kind == F_POWER) { crash(f); return; }
        size_t n = r[CX], m = n; string data;
        auto i = fds.find(r[BX]);
        if (!console && i != fds.end()) d.path = i->second.path;
        if (f.kind == F_ERR) { fired(f, true); done((u16)dosErr(OP_WRITE, f.arg), true); }
        else if (f.kind == F_ZERO && n) { fired(f, true); done(0, false); }
        else {
            if (f.kind == F_SHORT && (size_t)std::max(1, f.arg) < n) { m = (size_t)std::max(1, f.arg); fired(f, true); }
            if ((u32)r[DX] + n > 0x10000) res->protocol.push_back(sfmt("write of %zu bytes from %04X runs over the end of the segment", n, r[DX]));
            for (size_t k = 0; k < m; ++k) data += (char)rd8(s[DS], (u16)(r[DX] + k));
            if (console) {
                if (sp->consoleRoom > 0 && m > (size_t)sp->consoleRoom) { m = (size_t)sp->consoleRoom; inc("fault.split-console"); }
                res->out += data.substr(0, m); done((u16)m, false);
            } else if (i == fds.end()) { if (r[BX] < 5) done((u16)n, false); else { res->protocol.push_back(sfmt("write on handle %d which is not open", r[BX])); done(6, true); } }
            else if (!i->second.wr) { res->protocol.push_back("write on a handle opened for reading (" + d.path + ")"); done(5, true); }
            else {
                H& h = i->second; string& t = h.node->data;
                size_t room = w->disk.room(*h.node, h.pos, m);
                if (room < m) { inc("fault.disk-full"); res->faultFired = res->errFired = true; m = room; }
                if (n == 0) t.resize(h.pos);                                   // DOS: sets the file size
                else { if (t.size() < h.pos + m) t.resize(h.pos + m); if (f.kind == F_LATE && m) { fired(f, false); h.late = true; memset(&t[0] + h.pos, 0, m); } else memcpy(&t[0] + h.pos, data.data(), m); h.pos += m; }
                done((u16)m, false);
            }
        }
        if (f.kind == F_KILL_AFTER) crash(f);
        break;
    }
    default: end(E_SIGNAL, 0, sfmt("unsupported DOS function AH=%02X at %04X:%04X", d.ah, s[CS], ip)); return;
    }
    if (stop && res->end != E_EXIT) {}
    if (oc) {
        Hash h; h.h = oc->trace; h.add(d.ah); h.add(d.ax); h.add(d.bx); h.add(d.cx); h.add(d.dx); h.add(d.rax * 2 + d.cf); h.add(d.path); h.add(steps); oc->trace = h.h;
        if (gTrace && oc->log.size() < 20000) oc->log.push_back(sfmt("[p%d %s @%llu] DOS %02X bx=%04X cx=%04X dx=%04X %s -> ax=%04X%s", sp->proc, sp->name.c_str(), (unsigned long long)steps, d.ah, d.bx, d.cx, d.dx, d.path.c_str(), d.rax, d.cf ? " CF" : ""));
    }
    if (res->calls.size() < 100000) res->calls.push_back(d);
}

// ---------------------------------------------------------------- processor
static u8 gParity[256];
struct Exec {
    Pc& c; u8* mem; int seg; u8 modrm; u16 eaOff, eaSeg; bool isReg; int rm;
    explicit Exec(Pc& p) : c(p), mem(p.mem), seg(-1) {}
    u8 fetch() { u8 v = mem[((u32)(c.s[CS] << 4) + c.ip) & 0xFFFFF]; ++c.ip; return v; }
    u16 fetch16() { u8 a = fetch(); return (u16)(a | fetch() << 8); }
    u16 dseg(int def) { return c.s[seg >= 0 ? seg : def]; }
    void decode() {
        modrm = fetch(); int mod = modrm >> 6; rm = modrm & 7; isReg = mod == 3;
        if (isReg) return;
        u16 o = 0; int def = DS;
        switch (rm) {
        case 0: o = (u16)(c.r[BX] + c.r[SI]); break;
        case 1: o = (u16)(c.r[BX] + c.r[DI]); break;
        case 2: o = (u16)(c.r[BP] + c.r[SI]); def = SS; break;
        case 3: o = (u16)(c.r[BP] + c.r[DI]); def = SS; break;
        case 4: o = c.r[SI]; break;
        case 5: o = c.r[DI]; break;
        case 6: if (mod == 0) o = fetch16(); else { o = c.r[BP]; def = SS; } break;
        case 7: o = c.r[BX]; break;
        }
        if (mod == 1) o = (u16)(o + (int8_t)fetch()); else if (mod == 2) o = (u16)(o + fetch16());
        eaOff = o; eaSeg = dseg(def);
    }
    u8 g8(int i) { return (u8)(i < 4 ? c.r[i] : c.r[i - 4] >> 8); }
    void s8(int i, u8 v) { if (i < 4) c.r[i] = (u16)((c.r[i] & 0xFF00) | v); else c.r[i - 4] = (u16)((c.r[i - 4] & 0xFF) | v << 8); }
    u16 getE(bool w) { return isReg ? (w ? c.r[rm] : g8(rm)) : w ? c.rd16(eaSeg, eaOff) : c.rd8(eaSeg, eaOff); }
    void putE(bool w, u16 v) { if (isReg) { if (w) c.r[rm] = v; else s8(rm, (u8)v); } else if (w) c.wr16(eaSeg, eaOff, v); else c.wr8(eaSeg, eaOff, (u8)v); }
    u16 getG(bool w) { int i = modrm >> 3 & 7; return w ? c.r[i] : g8(i); }
    void putG(bool w, u16 v) { int i = modrm >> 3 & 7; if (w) c.r[i] = v; else s8(i, (u8)v); }
    void push(u16 v) { c.r[SP] = (u16)(c.r[SP] - 2); c.wr16(c.s[SS], c.r[SP], v); }
    u16 pop() { u16 v = c.rd16(c.s[SS], c.r[SP]); c.r[SP] = (u16)(c.r[SP] + 2); return v; }
    u8 und(u8 old) { switch (c.undef) { case 0: return old; case 1: return 0; case 2: return 1; default: return (u8)(c.rnd() & 1); } }
    void szp(bool w, u32 v) { c.sf = (u8)(w ? v >> 15 & 1 : v >> 7 & 1); c.zf = (w ? (v & 0xFFFF) : (v & 0xFF)) == 0; c.pf = gParity[v & 0xFF]; }
    u16 add(bool w, u16 a, u16 b, int ci) {
        u32 v = (u32)a + b + (u32)ci; c.af = (u8)((a ^ b ^ v) >> 4 & 1);
        if (w) { c.cf = v >> 16 & 1; c.of = (u8)(((a ^ v) & (b ^ v)) >> 15 & 1); } else { c.cf = v >> 8 & 1; c.of = (u8)(((a ^ v) & (b ^ v)) >> 7 & 1); }
        szp(w, v); return (u16)v;
    }
    u16 sub(bool w, u16 a, u16 b, int ci) {
        u32 v = (u32)a - b - (u32)ci; c.af = (u8)((a ^ b ^ v) >> 4 & 1);
        if (w) { c.cf = v >> 16 & 1; c.of = (u8)(((a ^ b) & (a ^ v)) >> 15 & 1); } else { c.cf = v >> 8 & 1; c.of = (u8)(((a ^ b) & (a ^ v)) >> 7 & 1); }
        szp(w, v); return (u16)v;
    }
    u16 logic(bool w, u16 v) { c.cf = c.of = 0; c.af = und(c.af); szp(w, v); return v; }
    u16 alu(int op, bool w, u16 a, u16 b) {
        switch (op) {
        case 0: return add(w, a, b, 0);
        case 1: return logic(w, a | b);
        case 2: return add(w, a, b, c.cf);
        case 3: return sub(w, a, b, c.cf);
        case 4: return logic(w, a & b);
        case 5: case 7: return sub(w, a, b, 0);
        default: return logic(w, a ^ b);
        }
    }
    bool cond(int k) {
        bool t;
        switch (k >> 1) {
        case 0: t = c.of; break; case 1: t = c.cf; break; case 2: t = c.zf; break; case 3: t = c.cf || c.zf; break;
        case 4: t = c.sf; break; case 5: t = c.pf; break; case 6: t = c.sf != c.of; break; default: t = c.zf || c.sf != c.of;
        }
        return t != (bool)(k & 1);
    }
    void bad(u8 op) { c.end(E_SIGNAL, 0, sfmt("invalid instruction %02X at %04X:%04X after %llu instructions", op, c.s[CS], (u16)(c.ip - 1), (unsigned long long)c.steps)); }
    void divErr() { c.end(E_SIGNAL, 0, sfmt("division error at %04X:%04X", c.s[CS], c.ip)); }
    void strOp(u8 op, int rep) { // rep: 0 none, 1 REPNE, 2 REPE/REP
        bool w = op & 1; int d = (c.df ? -1 : 1) * (w ? 2 : 1);
        u8 k = op & 0xFE;
        while (true) {
            if (rep && c.r[CX] == 0) return;
            u16 src = dseg(DS);
            switch (k) {
            case 0xA4: if (w) c.wr16(c.s[ES], c.r[DI], c.rd16(src, c.r[SI])); else c.wr8(c.s[ES], c.r[DI], c.rd8(src, c.r[SI])); c.r[SI] = (u16)(c.r[SI] + d); c.r[DI] = (u16)(c.r[DI] + d); break;
            case 0xA6: { u16 a = w ? c.rd16(src, c.r[SI]) : c.rd8(src, c.r[SI]), b = w ? c.rd16(c.s[ES], c.r[DI]) : c.rd8(c.s[ES], c.r[DI]); sub(w, a, b, 0); c.r[SI] = (u16)(c.r[SI] + d); c.r[DI] = (u16)(c.r[DI] + d); break; }
            case 0xAA: if (w) c.wr16(c.s[ES], c.r[DI], c.r[AX]); else c.wr8(c.s[ES], c.r[DI], (u8)c.r[AX]); c.r[DI] = (u16)(c.r[DI] + d); break;
            case 0xAC: if (w) c.r[AX] = c.rd16(src, c.r[SI]); else s8(0, c.rd8(src, c.r[SI])); c.r[SI] = (u16)(c.r[SI] + d); break;
            default: { u16 b = w ? c.rd16(c.s[ES], c.r[DI]) : c.rd8(c.s[ES], c.r[DI]); sub(w, w ? c.r[AX] : (u16)(c.r[AX] & 0xFF), b, 0); c.r[DI] = (u16)(c.r[DI] + d); }
            }
            if (!rep || c.stop) return;
            --c.r[CX]; ++c.steps;
            if ((k == 0xA6 || k == 0xAE) && c.zf != (rep == 2)) return;
        }
    }
    u16 shift(int op, bool w, u16 v, unsigned n) {
        unsigned bits = w ? 16 : 8; u32 m = w ? 0xFFFF : 0xFF, top = w ? 0x8000 : 0x80; u32 x = v;
        if (!n) return v;
        bool multi = n != 1; u32 before = x;
        if (n > 64) { // same result, fewer rounds
            if (op < 2) n = 64 + n % bits % 64; else if (op < 4) n = (bits + 1) + (n % (bits + 1)); else n = 64;
        }
        for (unsigned i = 0; i < n; ++i) {
            switch (op) {
            case 0: c.cf = (x & top) != 0; x = (x << 1 | c.cf) & m; break;
            case 1: c.cf = x & 1; x = x >> 1 | (c.cf ? top : 0); break;
            case 2: { u8 o = c.cf; c.cf = (x & top) != 0; x = (x << 1 | o) & m; break; }
            case 3: { u8 o = c.cf; c.cf = x & 1; x = x >> 1 | (o ? top : 0); break; }
            case 4: c.cf = (x & top) != 0; x = x << 1 & m; break;
            case 5: c.cf = x & 1; x >>= 1; break;
            case 7: c.cf = x & 1; x = x >> 1 | (x & top); break;
            default: bad(0xD0); return v;
            }
        }
        if (multi) c.of = und(c.of);
        else switch (op) {
            case 0: case 2: case 4: c.of = ((x & top) != 0) != c.cf; break;
            case 1: case 3: c.of = ((x & top) != 0) != ((x & top >> 1) != 0); break;
            case 5: c.of = (before & top) != 0; break;
            default: c.of = 0;
        }
        if (op >= 4) { szp(w, x); c.af = und(c.af); }
        return (u16)x;
    }
    void intr(int n) {
        if (c.sp->hooks && c.sp->hooks->intr(c, n)) { c.clobberBelowSp(6 + (int)(c.rnd() % 24)); return; }
        if (n == 0x20) { c.rec("exit20", 0, 0, 0); c.end(E_EXIT, 0); return; }
        if (n == 0x21) { c.dos(); return; }
        c.end(E_SIGNAL, 0, sfmt("unsupported interrupt %02X at %04X:%04X", n, c.s[CS], c.ip));
    }
    // executes one instruction; returns true if interrupts are held off until after the next one
    bool step() {
        seg = -1; int rep = 0;
        for (;;) {
            u8 op = fetch();
            if (op < 0x40 && (op & 7) < 6) {
                int k = op >> 3; bool w = op & 1; u16 v;
                if (op & 4) { u16 b = w ? fetch16() : fetch(); v = alu(k, w, w ? c.r[AX] : (u16)(c.r[AX] & 0xFF), b); if (k != 7) { if (w) c.r[AX] = v; else s8(0, (u8)v); } return false; }
                decode();
                if (op & 2) { v = alu(k, w, getG(w), getE(w)); if (k != 7) putG(w, v); }
                else { v = alu(k, w, getE(w), getG(w)); if (k != 7) putE(w, v); }
                return false;
            }
            switch (op) {
            case 0x26: case 0x2E: case 0x36: case 0x3E: seg = op >> 3 & 3; continue;
            case 0xF2: rep = 1; continue;
            case 0xF3: rep = 2; continue;
            case 0xF0: continue;
            case 0x06: case 0x0E: case 0x16: case 0x1E: push(c.s[op >> 3]); return false;
            case 0x07: case 0x17: case 0x1F: c.s[op >> 3] = pop(); return true;
            case 0x27: { u8 al = (u8)c.r[AX], o = al; u8 oc = c.cf; c.of = und(c.of); if ((al & 15) > 9 || c.af) { al = (u8)(al + 6); c.af = 1; } else c.af = 0; if (o > 0x99 || oc) { al = (u8)(al + 0x60); c.cf = 1; } else c.cf = 0; s8(0, al); szp(false, al); return false; }
            case 0x2F: { u8 al = (u8)c.r[AX], o = al; u8 oc = c.cf; c.of = und(c.of); if ((al & 15) > 9 || c.af) { al = (u8)(al - 6); c.af = 1; } else c.af = 0; if (o > 0x99 || oc) { al = (u8)(al - 0x60); c.cf = 1; } else c.cf = 0; s8(0, al); szp(false, al); return false; }
            case 0x37: case 0x3F: { bool adj = (c.r[AX] & 15) > 9 || c.af; int sg = op == 0x37 ? 1 : -1; if (adj) { u8 ah = (u8)((c.r[AX] >> 8) + sg), al = (u8)(c.r[AX] + 6 * sg); c.r[AX] = (u16)(ah << 8 | (al & 15)); } else c.r[AX] &= 0xFF0F; c.cf = c.af = adj; c.of = und(c.of); c.sf = und(c.sf); c.zf = und(c.zf); c.pf = und(c.pf); return false; }
            case 0x40: case 0x41: case 0x42: case 0x43: case 0x44: case 0x45: case 0x46: case 0x47: { u8 o = c.cf; c.r[op & 7] = add(true, c.r[op & 7], 1, 0); c.cf = o; return false; }
            case 0x48: case 0x49: case 0x4A: case 0x4B: case 0x4C: case 0x4D: case 0x4E: case 0x4F: { u8 o = c.cf; c.r[op & 7] = sub(true, c.r[op & 7], 1, 0); c.cf = o; return false; }
            case 0x54: c.r[SP] = (u16)(c.r[SP] - 2); c.wr16(c.s[SS], c.r[SP], c.r[SP]); return false; // 8086: the decremented value
            case 0x50: case 0x51: case 0x52: case 0x53: case 0x55: case 0x56: case 0x57: push(c.r[op & 7]); return false;
            case 0x58: case 0x59: case 0x5A: case 0x5B: case 0x5C: case 0x5D: case 0x5E: case 0x5F: c.r[op & 7] = pop(); return false;
            case 0x70: case 0x71: case 0x72: case 0x73: case 0x74: case 0x75: case 0x76: case 0x77: case 0x78: case 0x79: case 0x7A: case 0x7B: case 0x7C: case 0x7D: case 0x7E: case 0x7F:
                { int8_t d = (int8_t)fetch(); if (cond(op & 15)) c.ip = (u16)(c.ip + d); return false; }
            case 0x80: case 0x81: case 0x82: case 0x83: { bool w = op & 1; decode(); u16 b = op == 0x81 ? fetch16() : op == 0x83 ? (u16)(int8_t)fetch() : fetch(); int k = modrm >> 3 & 7; u16 v = alu(k, w, getE(w), b); if (k != 7) putE(w, v); return false; }
            case 0x84: case 0x85: { bool w = op & 1; decode(); logic(w, getE(w) & getG(w)); return false; }
            case 0x86: case 0x87: { bool w = op & 1; decode(); u16 a = getE(w), b = getG(w); putE(w, b); putG(w, a); return false; }
            case 0x88: case 0x89: { bool w = op & 1; decode(); putE(w, getG(w)); return false; }
            case 0x8A: case 0x8B: { bool w = op & 1; decode(); putG(w, getE(w)); return false; }
            case 0x8C: decode(); if (modrm & 0x20) { bad(op); return false; } putE(true, c.s[modrm >> 3 & 3]); return false;
            case 0x8E: decode(); if ((modrm & 0x20) || (modrm >> 3 & 3) == CS) { bad(op); return false; } c.s[modrm >> 3 & 3] = getE(true); return true;
            case 0x8D: decode(); if (isReg) { bad(op); return false; } putG(true, eaOff); return false;
            case 0x8F: decode(); if (modrm & 0x38) { bad(op); return false; } { u16 v = pop(); putE(true, v); } return false;
            case 0x90: case 0x91: case 0x92: case 0x93: case 0x94: case 0x95: case 0x96: case 0x97: { u16 t = c.r[AX]; c.r[AX] = c.r[op & 7]; c.r[op & 7] = t; return false; }
            case 0x98: c.r[AX] = (u16)(int8_t)c.r[AX]; return false;
            case 0x99: c.r[DX] = c.r[AX] & 0x8000 ? 0xFFFF : 0; return false;
            case 0x9A: { u16 o = fetch16(), sg = fetch16(); push(c.s[CS]); push(c.ip); c.s[CS] = sg; c.ip = o; return false; }
            case 0x9B: return false;
            case 0x9C: push(c.flags()); return false;
            case 0x9D: c.setFlags(pop()); return false;
            case 0x9E: { u8 f = (u8)(c.r[AX] >> 8); c.cf = f & 1; c.pf = f >> 2 & 1; c.af = f >> 4 & 1; c.zf = f >> 6 & 1; c.sf = f >> 7; return false; }
            case 0x9F: c.r[AX] = (u16)((c.r[AX] & 0xFF) | (c.flags() & 0xFF) << 8); return false;
            case 0xA0: s8(0, c.rd8(dseg(DS), fetch16())); return false;
            case 0xA1: c.r[AX] = c.rd16(dseg(DS), fetch16()); return false;
            case 0xA2: c.wr8(dseg(DS), fetch16(), (u8)c.r[AX]); return false;
            case 0xA3: c.wr16(dseg(DS), fetch16(), c.r[AX]); return false;
            case 0xA4: case 0xA5: case 0xA6: case 0xA7: case 0xAA: case 0xAB: case 0xAC: case 0xAD: case 0xAE: case 0xAF: strOp(op, rep); return false;
            case 0xA8: logic(false, (c.r[AX] & 0xFF) & fetch()); return false;
            case 0xA9: logic(true, c.r[AX] & fetch16()); return false;
            case 0xB0: case 0xB1: case 0xB2: case 0xB3: case 0xB4: case 0xB5: case 0xB6: case 0xB7: s8(op & 7, fetch()); return false;
            case 0xB8: case 0xB9: case 0xBA: case 0xBB: case 0xBC: case 0xBD: case 0xBE: case 0xBF: c.r[op & 7] = fetch16(); return false;
            case 0xC2: { u16 n = fetch16(); c.ip = pop(); c.r[SP] = (u16)(c.r[SP] + n); return false; }
            case 0xC3: c.ip = pop(); return false;
            case 0xC4: case 0xC5: decode(); if (isReg) { bad(op); return false; } putG(true, c.rd16(eaSeg, eaOff)); c.s[op == 0xC4 ? ES : DS] = c.rd16(eaSeg, (u16)(eaOff + 2)); return false;
            case 0xC6: case 0xC7: { bool w = op & 1; decode(); u16 v = w ? fetch16() : fetch(); if (modrm & 0x38) { bad(op); return false; } putE(w, v); return false; }
            case 0xCA: { u16 n = fetch16(); c.ip = pop(); c.s[CS] = pop(); c.r[SP] = (u16)(c.r[SP] + n); return false; }
            case 0xCB: c.ip = pop(); c.s[CS] = pop(); return false;
            case 0xCC: intr(3); return false;
            case 0xCD: intr(fetch()); return false;
            case 0xCE: if (c.of) intr(4); return false;
            case 0xCF: c.ip = pop(); c.s[CS] = pop(); c.setFlags(pop()); return false;
            case 0xD0: case 0xD1: case 0xD2: case 0xD3: { bool w = op & 1; decode(); putE(w, shift(modrm >> 3 & 7, w, getE(w), op & 2 ? c.r[CX] & 0xFF : 1)); return false; }
            case 0xD4: { u8 b = fetch(); if (!b) { divErr(); return false; } u8 al = (u8)c.r[AX]; c.r[AX] = (u16)((al / b) << 8 | al % b); szp(false, c.r[AX]); c.cf = und(c.cf); c.of = und(c.of); c.af = und(c.af); return false; }
            case 0xD5: { u8 b = fetch(); u8 al = (u8)((c.r[AX] & 0xFF) + (c.r[AX] >> 8) * b); c.r[AX] = al; szp(false, al); c.cf = und(c.cf); c.of = und(c.of); c.af = und(c.af); return false; }
            case 0xD7: s8(0, c.rd8(dseg(DS), (u16)(c.r[BX] + (c.r[AX] & 0xFF)))); return false;
            case 0xE0: case 0xE1: case 0xE2: { int8_t d = (int8_t)fetch(); --c.r[CX]; if (c.r[CX] && (op == 0xE2 || c.zf == (op & 1))) c.ip = (u16)(c.ip + d); return false; }
            case 0xE3: { int8_t d = (int8_t)fetch(); if (!c.r[CX]) c.ip = (u16)(c.ip + d); return false; }
            case 0xE4: case 0xE5: case 0xEC: case 0xED: { u16 port = op & 8 ? c.r[DX] : fetch(), v = 0; if (!c.sp->hooks || !c.sp->hooks->in(c, port, op & 1, v)) { c.end(E_SIGNAL, 0, sfmt("unexpected input from port %X", port)); return false; } if (op & 1) c.r[AX] = v; else s8(0, (u8)v); return false; }
            case 0xE6: case 0xE7: case 0xEE: case 0xEF: { u16 port = op & 8 ? c.r[DX] : fetch(); if (!c.sp->hooks || !c.sp->hooks->out(c, port, op & 1, c.r[AX])) { c.end(E_SIGNAL, 0, sfmt("unexpected output to port %X", port)); } return false; }
            case 0xE8: { u16 d = fetch16(); push(c.ip); c.ip = (u16)(c.ip + d); return false; }
            case 0xE9: { u16 d = fetch16(); c.ip = (u16)(c.ip + d); return false; }
            case 0xEA: { u16 o = fetch16(), sg = fetch16(); c.s[CS] = sg; c.ip = o; return false; }
            case 0xEB: { int8_t d = (int8_t)fetch(); c.ip = (u16)(c.ip + d); return false; }
            case 0xF4: if (c.sp->hooks && c.iff) { c.sp->hooks->halt(c); return false; } bad(op); return false;
            case 0xF5: c.cf ^= 1; return false;
            case 0xF6: case 0xF7: {
                bool w = op & 1; decode(); u16 e = getE(w);
                switch (modrm >> 3 & 7) {
                case 0: logic(w, e & (w ? fetch16() : fetch())); return false;
                case 2: putE(w, (u16)~e); return false;
                case 3: { u16 v = sub(w, 0, e, 0); putE(w, v); return false; }
                case 4: case 5: {
                    u32 v; bool big;
                    if (w) { if (modrm & 8) { v = (u32)((int32_t)(int16_t)c.r[AX] * (int16_t)e); big = (int32_t)v != (int16_t)v; } else { v = (u32)c.r[AX] * e; big = v >> 16; } c.r[AX] = (u16)v; c.r[DX] = (u16)(v >> 16); }
                    else { if (modrm & 8) { v = (u32)((int)(int8_t)c.r[AX] * (int8_t)e); big = (int32_t)v != (int8_t)v; } else { v = (c.r[AX] & 0xFFu) * (e & 0xFFu); big = v >> 8; } c.r[AX] = (u16)v; }
                    c.cf = c.of = big; c.sf = und(c.sf); c.zf = und(c.zf); c.af = und(c.af); c.pf = und(c.pf); return false;
                }
                case 6: case 7: {
                    c.cf = und(c.cf); c.of = und(c.of); c.sf = und(c.sf); c.zf = und(c.zf); c.af = und(c.af); c.pf = und(c.pf);
                    if (!e) { divErr(); return false; }
                    if (w) {
                        u32 a = (u32)c.r[DX] << 16 | c.r[AX];
                        if (modrm & 8) { int64_t x = (int32_t)a, d = (int16_t)e, q = x / d; if (q > 32767 || q < -32768) { divErr(); return false; } c.r[AX] = (u16)q; c.r[DX] = (u16)(x % d); }
                        else { u32 q = a / e; if (q > 0xFFFF) { divErr(); return false; } c.r[AX] = (u16)q; c.r[DX] = (u16)(a % e); }
                    } else {
                        u16 a = c.r[AX]; e &= 0xFF;
                        if (modrm & 8) { int x = (int16_t)a, d = (int8_t)e, q = x / d; if (q > 127 || q < -128) { divErr(); return false; } c.r[AX] = (u16)((q & 0xFF) | (x % d & 0xFF) << 8); }
                        else { u16 q = (u16)(a / e); if (q > 0xFF) { divErr(); return false; } c.r[AX] = (u16)(q | (a % e) << 8); }
                    }
                    return false;
                }
                default: bad(op); return false;
                }
            }
            case 0xF8: c.cf = 0; return false; case 0xF9: c.cf = 1; return false;
            case 0xFA: c.iff = 0; return false; case 0xFB: c.iff = 1; return true;
            case 0xFC: c.df = 0; return false; case 0xFD: c.df = 1; return false;
            case 0xFE: { decode(); u8 o = c.cf; int k = modrm >> 3 & 7; if (k > 1) { bad(op); return false; } u16 v = k ? sub(false, getE(false), 1, 0) : add(false, getE(false), 1, 0); putE(false, v); c.cf = o; return false; }
            case 0xFF: {
                decode(); int k = modrm >> 3 & 7;
                switch (k) {
                case 0: case 1: { u8 o = c.cf; u16 v = k ? sub(true, getE(true), 1, 0) : add(true, getE(true), 1, 0); putE(true, v); c.cf = o; return false; }
                case 2: { u16 t = getE(true); push(c.ip); c.ip = t; return false; }
                case 3: { if (isReg) { bad(op); return false; } u16 o = c.rd16(eaSeg, eaOff), sg = c.rd16(eaSeg, (u16)(eaOff + 2)); push(c.s[CS]); push(c.ip); c.s[CS] = sg; c.ip = o; return false; }
                case 4: c.ip = getE(true); return false;
                case 5: { if (isReg) { bad(op); return false; } u16 o = c.rd16(eaSeg, eaOff), sg = c.rd16(eaSeg, (u16)(eaOff + 2)); c.s[CS] = sg; c.ip = o; return false; }
                case 6: { if (isReg && rm == SP) { c.r[SP] = (u16)(c.r[SP] - 2); c.wr16(c.s[SS], c.r[SP], c.r[SP]); } else push(getE(true)); return false; }
                default: bad(op); return false;
                }
            }
            default: bad(op); return false;
            }
        }
    }
};
void Pc::run() {
    Exec x(*this);
    u64 nextIrq = ~0ull; u64 nextTick = (u64)sp->tickEvery; u32 ticks = sp->ticks0;
    auto setTicks = [&]() { mem[0x46C] = (u8)ticks; mem[0x46D] = (u8)(ticks >> 8); mem[0x46E] = (u8)(ticks >> 16); mem[0x46F] = (u8)(ticks >> 24); };
    setTicks();
    if (sp->irqEvery > 0) nextIrq = 1 + rnd() % (2 * (u64)sp->irqEvery);
    bool hold = false; Outcome* oc = w->oc; u64 irqs = 0;
    while (!stop) {
        if (sp->trace) {
            res->steps_.push_back({ ip, r[SP], r[BP] });
            if (r[SP] && r[SP] < res->minSp) {
                res->minSp = r[SP]; res->stack.clear(); u16 at = ip;
                for (u16 b = r[BP]; b && res->stack.size() < 50;) { res->stack.push_back({ b, at }); at = rd16(s[SS], (u16)(b + 2)); b = rd16(s[SS], b); }
            }
        }
        hold = x.step(); ++steps;
        if (s[CS] != baseSeg && !stop) end(E_MEM, 0, sfmt("execution left the program: %04X:%04X", s[CS], ip));
        if (steps >= nextIrq && iff && !hold) {
            nextIrq = steps + 1 + rnd() % (2 * (u64)sp->irqEvery);
            clobberBelowSp(6 + (int)(rnd() % 26)); ++irqs; // a handler ran and returned
        }
        if (steps >= nextTick) { nextTick += (u64)std::max(1, sp->tickEvery); ++ticks; setTicks(); }
        if (steps >= sp->fuel && !stop) end(E_HANG, 0, sfmt("still running after %llu instructions at %04X:%04X", (unsigned long long)steps, s[CS], ip));
    }
    if (oc && irqs) oc->st.inc("fault.interrupt", irqs);
}
PcResult runPc(World& w, const PcSpec& s) {
    PcResult res;
    if (!gMem) {
        gMem = (u8*)mmap(nullptr, 0x100000 + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        for (int i = 0; i < 256; ++i) gParity[i] = !(__builtin_popcount((unsigned)i) & 1);
    }
    if (s.image.size() > 0xFEFE) { res.end = E_EXIT; res.code = 255; res.detail = "program too large"; return res; }
    Pc c; c.mem = gMem; c.w = &w; c.sp = &s; c.res = &res; c.rng = mix64(s.seed, 0x8086);
    u64 g = mix64(s.seed, 17) | 1;
    switch (s.garbage) {
    case 0: memset(gMem, 0, 0x100000); break;
    case 1: memset(gMem, 0xFF, 0x100000); break;
    case 2: { u64 p = mix64(g); for (u32 i = 0; i < 0x100000; i += 8) memcpy(gMem + i, &p, 8); break; }
    default: for (u32 i = 0; i < 0x100000; i += 8) { g ^= g << 13; g ^= g >> 7; g ^= g << 17; memcpy(gMem + i, &g, 8); }
    }
    u16 seg = (u16)(0x600 + c.rnd() % 0x3000); c.baseSeg = seg;
    u32 base = (u32)seg << 4; u8* p = gMem + base;
    c.guardLo = base; c.guardHi = base + 0x10000;
    if (s.extraAbove) { c.topLo = base + 0x10000; c.topHi = 0xA0000; } else c.topLo = c.topHi = 0;
    // PSP as DOS leaves it
    p[0] = 0xCD; p[1] = 0x20; p[2] = 0x00; p[3] = 0xA0;
    memset(p + 0x5C, 0, 36); memset(p + 0x5D, ' ', 11); memset(p + 0x6D, ' ', 11);
    string t = s.tail.substr(0, 126);
    p[0x80] = (u8)t.size(); memcpy(p + 0x81, t.data(), t.size()); p[0x81 + t.size()] = '\r';
    memcpy(p + 0x100, s.image.data(), s.image.size());
    p[0xFFFE] = p[0xFFFF] = 0;
    for (int i = 0; i < 8; ++i) c.r[i] = s.garbage ? (u16)c.rnd() : 0;
    c.r[SP] = 0xFFFE; for (int i = 0; i < 4; ++i) c.s[i] = seg;
    c.setFlags((u16)(s.garbage ? c.rnd() : 0)); c.df = 0; c.tf = 0; c.iff = 1; c.ip = 0x100;
    c.undef = s.garbage ? (int)(c.rnd() & 3) : 1;
    c.run();
    res.steps = c.steps;
    for (auto& f : c.fds) res.openPaths.push_back(f.second.path);
    if (s.keepMem) res.seg.assign((char*)p, 0x10000);
    if (w.oc) {
        Hash h; h.h = w.oc->trace; h.add(res.end); h.add((u64)res.code); h.add(res.out); h.add(res.detail); h.add(res.steps); w.oc->trace = h.h;
        w.oc->st.inc("pc." + s.name); w.oc->st.inc(string("end.") + endNames[res.end]); w.oc->st.inc("probe.instructions", res.steps);
        if (gTrace) w.oc->log.push_back(sfmt("[p%d %s] ends: %s", s.proc, s.name.c_str(), res.describe().c_str()));
    }
    return res;
}
string PcResult::describe() const {
    string s = end == E_EXIT ? sfmt("exit code %d", code) : sfmt("%s %s", endNames[end], detail.c_str());
    if (end == E_EXIT && !detail.empty()) s += " (" + detail + ")";
    if (!out.empty()) s += " output=" + quote(out, 160);
    return s;
}
