#include "guest.h"
#include <sstream>

static bool fileOp(char k) { return strchr("CORWXrwx", k); }
vector<GOp> parseScript(const string& text) {
    vector<GOp> v; std::istringstream in(text); string l;
    while (std::getline(in, l) && v.size() < 120) {
        std::istringstream is(l); string k; if (!(is >> k) || k.size() != 1 || !fileOp(k[0])) continue;
        GOp o; o.k = k[0]; bool ok = true;
        switch (o.k) {
        case 'C': case 'O': ok = (bool)(is >> o.slot >> o.name); break;
        case 'R': case 'W': ok = (bool)(is >> o.slot >> o.seg >> o.dx >> o.cx); break;
        case 'X': ok = (bool)(is >> o.slot); break;
        case 'r': case 'w': ok = (bool)(is >> o.handle >> o.seg >> o.dx >> o.cx); break;
        case 'x': ok = (bool)(is >> o.handle); break;
        }
        if (!ok || o.slot < 0 || o.slot > 7) continue;
        o.seg &= 3; o.handle &= 0xFFFF; if (o.handle < 5) o.handle = 0x1234; // 0..4 are the standard devices
        if (o.seg == 0) { if (o.dx < G_BUF || o.dx > G_END) o.dx = G_BUF; if (o.cx < 0 || o.dx + o.cx > G_END) o.cx = G_END - o.dx; }
        else { o.dx &= 0xFFFF; if (o.cx < 0 || o.dx + o.cx > 0xFFFF) o.cx = 0xFFFF - o.dx; }
        if (o.name.size() > 220) o.name.resize(220);
        if (o.name.rfind("MK", 0) == 0) o.name[0] = 'N';
        v.push_back(o);
    }
    return v;
}
static int pickCount(Rng& r, bool small) {
    switch (r.below(small ? 6 : 12)) {
    case 0: return 0; case 1: return 1; case 2: return r.range(2, 20); case 3: return r.range(1, 600); case 4: return r.pick({ 127, 128, 255, 256, 257, 511, 512, 513 });
    case 5: return r.range(1, 64); case 6: return r.range(500, 5000); case 7: return r.pick({ 0x7FFF, 0x8000, 0x8001, 0x9FFF, 0xA000 }); case 8: return r.range(0x7000, 0xA000);
    case 9: return r.range(1, 0xA000); default: return r.range(1, 300);
    }
}
string genScript(Rng& r, map<string, string>& files, int nops, bool small) {
    vector<string> ins, outs, missing = { "NONE", "GONE.TXT", "NO.SUCH" };
    int ni = r.range(1, 3), no = r.range(1, 3);
    for (int i = 0; i < ni; ++i) {
        string n = sfmt("IN%d%s", i, r.pick({ "", ".TXT", ".D", ".DAT" }));
        int sz = small ? r.pick({ 0, 1, r.range(2, 300), r.range(2, 1200) }) : r.pick({ 0, 1, r.range(2, 300), r.range(2, 3000), r.range(3000, 70000), 65536, 65535, 512, 513 });
        string d; for (int k = 0; k < sz; ++k) d += (char)(r.next() >> 20);
        files[n] = d; ins.push_back(n);
    }
    for (int i = 0; i < no; ++i) { string n = sfmt("OUT%d%s", i, r.pick({ "", ".COM", ".X" })); outs.push_back(n); if (r.chance(1, 2)) { string d; int sz = r.range(0, 900); for (int k = 0; k < sz; ++k) d += (char)(r.next() >> 20); files[n] = d; } }
    if (r.chance(1, 3)) { int l = r.chance(1, 2) ? r.range(9, 76) : r.pick({ 60, 63, 64, 65, 76 }); string n = "D"; while ((int)n.size() < l) n += (char)('A' + r.below(26)); ins.push_back(n); files[n] = "long name " + n; }
    struct S { int st = 0; string name; int left = 0; } sl[8]; // 0 closed 1 read 2 write
    int extSeg = small || !r.chance(1, 6) ? 0 : r.range(1, 3);
    string t;
    auto place = [&](int cx, int& seg, int& dx) {
        seg = extSeg && r.chance(1, 3) ? extSeg : 0;
        if (seg) { dx = r.chance(1, 3) ? 0 : (int)r.below((u32)(0xFFFF - cx + 1)); return; }
        int room = G_END - G_BUF - cx; if (room < 0) room = 0;
        dx = r.chance(1, 8) ? G_BUF : r.chance(1, 8) ? G_BUF + room : G_BUF + (int)r.below((u32)room + 1);
        if (small) dx = std::min(dx, G_BUF + 2000 - std::min(cx, 1000));
        if (dx < G_BUF) dx = G_BUF;
    };
    for (int i = 0; i < nops; ++i) {
        int s = (int)r.below(5); S& x = sl[s];
        if (r.chance(1, 12)) { // deliberately wrong
            int h = r.pick({ 0x20, 0xFF, 0x1234, 0x7FFF, 0x8000, 0xFFFF, 0xFFFE, 0x0103, 0x0105, 0x0205, 200 });
            int cx = pickCount(r, small), seg, dx; place(cx, seg, dx);
            switch (r.below(7)) {
            case 0: t += sfmt("r %d %d %d %d\n", h, seg, dx, cx); break;
            case 1: t += sfmt("w %d %d %d %d\n", h, seg, dx, cx); break;
            case 2: t += sfmt("x %d\n", h); break;
            case 3: t += sfmt("O 7 %s\n", r.pick(missing).c_str()); break;
            case 4: { string n; int l = r.chance(1, 2) ? r.pick({ 126, 127, 128, 129 }) : r.range(77, 200); for (int k = 0; k < l; ++k) n += (char)('A' + r.below(26)); t += sfmt("%c 7 %s\n", r.chance(1, 2) ? 'O' : 'C', n.c_str()); break; }
            case 5: if (x.st == 0) t += sfmt("X %d\n", s); break;
            default: if (x.st == 1) t += sfmt("W %d %d %d %d\n", s, seg, dx, cx); break;
            }
            continue;
        }
        if (x.st == 0) {
            if (r.chance(3, 5)) { string n = r.pick(ins); t += sfmt("O %d %s\n", s, n.c_str()); x.st = 1; x.left = (int)files[n].size(); }
            else {
                string n = r.pick(outs); bool used = false; for (auto& y : sl) if (y.st && y.name == n) used = true;
                if (used) continue;
                t += sfmt("C %d %s\n", s, n.c_str()); x.st = 2; x.name = n;
            }
            continue;
        }
        if (r.chance(1, 5)) { t += sfmt("X %d\n", s); x = S(); continue; }
        int cx = pickCount(r, small), seg, dx;
        if (x.st == 1 && r.chance(1, 6)) cx = std::min(0xA000, std::max(0, x.left + r.range(-1, 1)));
        place(cx, seg, dx);
        t += sfmt("%c %d %d %d %d\n", x.st == 1 ? 'R' : 'W', s, seg, dx, cx);
        if (x.st == 1) x.left = std::max(0, x.left - cx);
    }
    return t;
}
void windowOf(const GOp& o, int& from, int& len) {
    int lo = o.seg ? 0 : G_BUF, hi = o.seg ? 0xFFFF : G_END;
    int a = std::max(lo, o.dx - 48), b = std::min(hi, o.dx + o.cx + 48);
    from = a; len = std::max(0, b - a);
}
enum { SAVE = 0xF100, FL = SAVE + 24, SLOTS = 0xF140, DUMPH = 0xF160, SAVELEN = 28 };
Guest buildGuest(const string& script, u64 seed, int exitCode) {
    Guest g; g.ops = parseScript(script); g.exitCode = exitCode & 0xFF;
    Rng r(mix64(seed, 0x6E57));
    Emit e;
    auto setReg = [&](int reg, int v) {
        v &= 0xFFFF;
        if (r.chance(1, 3)) { // leave the value in the register by arithmetic
            int d = (int)r.below(0x10000);
            e.movi(reg, (v - d) & 0xFFFF); e.raw({ 0x81, 0xC0 | reg }); e.u16_(d);
        } else if (r.chance(1, 6)) { int d = (int)r.below(0x10000); e.movi(reg, (v + d) & 0xFFFF); e.raw({ 0x81, 0xE8 | reg }); e.u16_(d); }
        else e.movi(reg, v);
    };
    // everything the program sees in memory goes to this file
    e.movi(AX, 0x3C00); e.movi(CX, 0); e.movl(DX, "dumpname"); e.int21(); e.raw({ 0xA3 }); e.u16_(DUMPH);
    // slots start out invalid
    for (int i = 0; i < 8; ++i) { e.raw({ 0xC7, 0x06 }); e.u16_(SLOTS + 2 * i); e.u16_(0xEEE0 + i); }
    for (auto& o : g.ops) if (o.seg) g.ext[o.seg] = true;
    for (int k = 1; k < 4; ++k) if (g.ext[k]) { // define the memory of the extra segments
        e.raw({ 0x8C, 0xC8, 0x05 }); e.u16_(0x1000 * k); e.raw({ 0x8E, 0xC0 });
        e.movi(DI, 0); e.movi(CX, 0xFFFF); e.movi(AX, 0xA500 + k); e.raw({ 0xF3, 0xAA });
    }
    static const int cmps[][2] = { { 5, 5 }, { 1, 2 }, { 0x8000, 1 }, { 0x7FFF, 0xFFFF }, { 2, 1 }, { 0xFFFF, 1 }, { 1, 0xFFFF } };
    int n = 0;
    auto marker = [&](int i) { e.movi(AX, 0x3D00); e.movl(DX, sfmt("mk%d", i)); e.int21(); };
    for (auto& o : g.ops) {
        marker(n);
        Regs b; memset(&b, 0, sizeof b);
        for (int i = 0; i < 8; ++i) b.r[i] = (u16)(r.next() >> 13);
        u16 es = (u16)(r.next() >> 13);
        switch (o.k) {
        case 'C': b.r[AX] = (u16)(0x3C00 | (b.r[AX] & 0xFF)); b.r[CX] = r.chance(1, 2) ? 0 : 0x20; break;
        case 'O': b.r[AX] = 0x3D00; break;
        case 'R': case 'r': b.r[AX] = (u16)(0x3F00 | (b.r[AX] & 0xFF)); break;
        case 'W': case 'w': b.r[AX] = (u16)(0x4000 | (b.r[AX] & 0xFF)); break;
        default: b.r[AX] = (u16)(0x3E00 | (b.r[AX] & 0xFF));
        }
        if (strchr("RWrw", o.k)) { b.r[DX] = (u16)o.dx; b.r[CX] = (u16)o.cx; }
        // segments (with AX as scratch), then DX by label for names, flags, and everything else by flag-neutral moves at the end
        e.movi(AX, es); e.raw({ 0x8E, 0xC0 });
        e.raw({ 0x8C, 0xC8 }); if (o.seg) { e.u8_(0x05); e.u16_(0x1000 * o.seg); } e.raw({ 0x8E, 0xD8 });
        for (int reg : { CX, DX, BX, BP, SI, DI, AX }) {
            if (reg == DX && (o.k == 'C' || o.k == 'O')) continue;
            if (reg == BX && strchr("RWX", o.k)) { e.raw({ 0x2E, 0x8B, 0x1E }); e.u16_(SLOTS + 2 * o.slot); continue; }
            if (reg == BX && strchr("rwx", o.k)) b.r[BX] = (u16)o.handle;
            setReg(reg, b.r[reg]);
        }
        if (o.k == 'C' || o.k == 'O') { e.movl(DX, sfmt("nm%d", n)); }
        int c = (int)r.below(7);
        u16 a = (u16)cmps[c][0], d = (u16)cmps[c][1]; u32 v = (u32)a - d;
        b.f[0] = v >> 16 & 1; b.f[1] = (v & 0xFFFF) == 0; b.f[2] = v >> 15 & 1; b.f[3] = ((a ^ d) & (a ^ v)) >> 15 & 1;
        e.raw({ 0x2E, 0x81, 0x3E }); e.abs(sfmt("cmp%d", c)); e.u16_(d);
        b.s[ES] = es; b.s[DS] = (u16)(0x1000 * o.seg); // DS, SS relative to CS
        e.int21();
        e.call("dump");
        if (o.k == 'C' || o.k == 'O') { // keep the handle
            e.raw({ 0xA0 }); e.u16_(FL); e.raw({ 0x3C, 0x00, 0x75, 0x06 });
            e.raw({ 0xA1 }); e.u16_(SAVE); e.raw({ 0xA3 }); e.u16_(SLOTS + 2 * o.slot);
        }
        if (o.k == 'R' || o.k == 'r') {
            int from, len; windowOf(o, from, len);
            e.raw({ 0x8C, 0xC8 }); if (o.seg) { e.u8_(0x05); e.u16_(0x1000 * o.seg); } e.raw({ 0x8E, 0xD8 });
            e.movi(DX, from); e.movi(CX, len); e.call("save");
        }
        g.before.push_back(b); ++n;
    }
    marker(n);
    e.cs_eq_ds(); e.movi(DX, 0x100); e.movi(CX, G_END - 0x100); e.call("save");
    for (int k = 1; k < 4; ++k) if (g.ext[k]) { e.raw({ 0x8C, 0xC8, 0x05 }); e.u16_(0x1000 * k); e.raw({ 0x8E, 0xD8 }); e.movi(DX, 0); e.movi(CX, 0xFFFF); e.call("save"); }
    e.movi(AX, 0x4C00 | g.exitCode); e.int21();
    // ---- dump registers and flags without disturbing them, then print
    e.label("dump");
    for (int i = 0; i < 8; ++i) { e.raw({ 0x2E, 0x89, 0x06 | i << 3 }); e.u16_(SAVE + 2 * i); }
    for (int i = 0; i < 4; ++i) { e.raw({ 0x2E, 0x8C, 0x06 | i << 3 }); e.u16_(SAVE + 16 + 2 * i); }
    for (int i = 0; i < 4; ++i) { e.raw({ 0x2E, 0xC6, 0x06 }); e.u16_(FL + i); e.u8_(0); }
    static const int jn[] = { 0x73, 0x75, 0x79, 0x71 };
    for (int i = 0; i < 4; ++i) { e.raw({ jn[i], 6, 0x2E, 0xC6, 0x06 }); e.u16_(FL + i); e.u8_(1); }
    e.cs_eq_ds();
    e.movi(SI, SAVE); e.movi(CX, SAVELEN); e.jmp("print");
    e.label("print"); // DS:SI, CX
    e.raw({ 0xAC, 0x88, 0xC2, 0xB4, 0x02, 0xCD, 0x21, 0x83, 0xE9, 0x01, 0x75, 0xF4, 0xC3 });
    e.label("save"); // DS:DX, CX -> dump file; leaves DS = CS
    e.raw({ 0x2E, 0x8B, 0x1E }); e.u16_(DUMPH); e.raw({ 0xB8, 0x00, 0x40 }); e.int21(); e.cs_eq_ds(); e.raw({ 0xC3 });
    e.label("dumpname"); e.b += "DUMP"; e.u8_(0);
    for (int i = 0; i < 7; ++i) { e.label(sfmt("cmp%d", i)); e.u16_(cmps[i][0]); }
    for (int i = 0; i < (int)g.ops.size(); ++i) { auto& o = g.ops[(size_t)i]; if (o.k == 'C' || o.k == 'O') { e.label(sfmt("nm%d", i)); e.b += o.name; e.u8_(0); } }
    for (int i = 0; i <= (int)g.ops.size(); ++i) { e.label(sfmt("mk%d", i)); e.b += sfmt("MK%d", i); e.u8_(0); }
    if (e.here() > G_BUF || !e.link()) return g;
    // names are in registers at the call: note them now
    for (size_t i = 0; i < g.ops.size(); ++i) { auto& o = g.ops[i]; if (o.k == 'C' || o.k == 'O') g.before[i].r[DX] = (u16)e.lab[sfmt("nm%zu", i)]; }
    while (e.here() < G_END) { int a = e.here(); e.u8_((a * 7 + (a >> 8) * 13 + 1) & 0xFF); }
    g.image = e.b; g.pattern.assign(0x10000, 0); g.pattern.replace(0x100, e.b.size(), e.b);
    g.ok = true;
    return g;
}
GReport parseReport(const Guest& g, const string& out, const string& dump) {
    GReport rep; size_t p = 0, q = 0;
    auto w = [&](size_t at) { return (u16)((u8)out[at] | (u8)out[at + 1] << 8); };
    for (auto& o : g.ops) {
        if (p + SAVELEN > out.size()) return rep;
        GCall c;
        for (int i = 0; i < 8; ++i) c.after.r[i] = w(p + 2 * (size_t)i);
        for (int i = 0; i < 4; ++i) c.after.s[i] = w(p + 16 + 2 * (size_t)i);
        for (int i = 0; i < 4; ++i) c.after.f[i] = (u8)out[p + 24 + (size_t)i];
        p += SAVELEN;
        if (o.k == 'R' || o.k == 'r') { int from, len; windowOf(o, from, len); if (q + (size_t)len > dump.size()) return rep; c.window = dump.substr(q, (size_t)len); q += (size_t)len; }
        rep.calls.push_back(c);
    }
    for (int k = 0; k < 4; ++k) if (k == 0 || g.ext[k]) { size_t n = k ? 0xFFFF : G_END - 0x100; if (q + n > dump.size()) return rep; rep.finalMem[k] = dump.substr(q, n); q += n; }
    rep.complete = p == out.size() && q == dump.size();
    return rep;
}
