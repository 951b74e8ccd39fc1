// P21, P22: the tank game (swar.c built for DOS) on the reference machine with a simulated keyboard,
// display and clock, against a small model of its rules.
#include "progs.h"
#include "jobs.h"
#include "checks.h"
#include "game_model.h"
namespace {
enum { VID = 0xB8000, FONT = 0xFFA6E };
struct KeyEv { int delay; u16 key; };
vector<KeyEv> parseKeys(const string& t) {
    vector<KeyEv> v; size_t p = 0;
    while (p < t.size() && v.size() < 2000) {
        size_t e = t.find('\n', p); if (e == string::npos) e = t.size();
        int d; unsigned k; if (sscanf(t.substr(p, e - p).c_str(), "%d %x", &d, &k) == 2 && d >= 0 && d < 100000 && k < 65536) v.push_back({ d, (u16)k });
        p = e + 1;
    }
    return v;
}
// ------------------------------------------------------------ the machine around it
struct Env : PcHooks {
    const Scenario& s; Outcome& o; PcSpec& sp; Rng r; Game g; bool rules, started = false, fontSet = false;
    vector<KeyEv> keys; size_t next = 0; int wait = 0; vector<u16> buf; int idle = 0;
    u8 mode, mode0; bool graph = false; int retrace = 0, hold = 0; u64 frames = 0, frameRun = 0, polls = 0, dropped = 0; u64 escAt = 0; string cls, why;
    Env(const Scenario& sc, Outcome& oc, PcSpec& p, bool ru) : s(sc), o(oc), sp(p), r((u64)sc.n("seed") ^ 0x6A3E), rules(ru) {
        keys = parseKeys(sc.files.count("@keys") ? sc.files.at("@keys") : ""); mode = mode0 = (u8)sc.n("mode", 3); if (!keys.empty()) wait = keys[0].delay;
    }
    void fail(Pc& c, const string& k, const string& w) { if (cls.empty()) { cls = k; why = w; } c.end(E_KILLED, 0, w); }
    void arrive() { while (next < keys.size() && wait <= 0) { if (buf.size() < 15) buf.push_back(keys[next].key); else { ++dropped; o.st.inc("fault.key-buffer-full"); } ++next; if (next < keys.size()) wait = keys[next].delay; } }
    void tick() { --wait; arrive(); }
    void progress(Pc& c) { sp.fuel = c.steps + 40000000; }
    void compare(Pc& c, const char* when) {
        if (!rules || !started || g.over) return;
        g.finishShot();
        if (memcmp(g.v, c.mem + VID, VLEN)) fail(c, "screen", string(when) + ": " + g.where(c.mem + VID));
    }
    bool intr(Pc& c, int n) override {
        if (n == 0x10) {
            u8 ah = (u8)(c.r[AX] >> 8), al = (u8)c.r[AX];
            c.rec("int10", c.r[AX], c.r[BX], 0);
            if (!fontSet) { fontSet = true; for (int i = 0; i < 1024; ++i) c.mem[FONT + i] = (u8)mix64((u64)s.n("seed"), (u64)i); }
            if (ah == 0) { mode = al; if (!(al & 0x80)) memset(c.mem + VID, 0, VLEN); graph = (al & 0x7F) == 4 || (al & 0x7F) == 5; }
            else if (ah == 0x0B) {}
            else if (ah == 0x0F) { c.r[AX] = (u16)(mode | 40 << 8); c.r[BX] = (u16)(c.r[BX] & 0xFF); return true; }
            else { fail(c, "bios", sfmt("video BIOS function %02X", ah)); return true; }
            c.r[AX] = (u16)c.rnd(); progress(c); return true;
        }
        if (n != 0x16) return false;
        u8 ah = (u8)(c.r[AX] >> 8); progress(c); frameRun = 0; ++polls; tick();
        if (ah == 1) {
            if (!started) {
                started = true; if (!graph) { fail(c, "mode", sfmt("waits for keys in video mode %02X", mode)); return true; }
                string e = g.start(c.mem + VID, c.mem + FONT); if (!e.empty()) { if (rules) fail(c, "start", e); else { rules = false; } }
            }
            compare(c, "waiting for a key");
            if (buf.empty()) { ++idle; if (next >= keys.size() && idle > 2) buf.push_back(0x011B); else if (next < keys.size() && wait > 200) wait = 200; }
            if (buf.empty()) { c.zf = 1; c.r[AX] = (u16)c.rnd(); } else { c.zf = 0; c.r[AX] = buf[0]; }
            return true;
        }
        if (ah == 0) {
            if (buf.empty()) { compare(c, "waiting for a key"); if (next < keys.size()) { wait = 0; arrive(); } if (buf.empty()) buf.push_back(0x011B); }
            u16 k = buf[0]; buf.erase(buf.begin()); c.r[AX] = k; idle = 0;
            if (g.over && rules && started) { fail(c, "esc", "reads another key after the end of the game"); return true; }
            if (started) { if (!g.over && (k & 0xFF) == 27) { g.finishShot(); } g.key(k); if ((k & 0xFF) == 27 && !escAt) { escAt = c.steps; sp.fuel = c.steps + 3000000; } }
            c.rec("key", k, 0, 0); o.st.inc("probe.keys"); return true;
        }
        fail(c, "bios", sfmt("keyboard BIOS function %02X", ah)); return true;
    }
    bool in(Pc& c, u16 port, bool word, u16& v) override {
        if (word || port != 0x3DA) return false;
        v = (u16)(r.next() & 0xF7);
        if (hold > 0) { --hold; v |= 8; }
        else if (retrace-- <= 0) { hold = (int)s.n("pulse", 1); --hold; retrace = (int)s.n("retrace") ? (int)r.below((u32)s.n("retrace")) : 0; v |= 8; }
        if (v & 8) {
            ++frames; ++frameRun; tick(); o.simTime++; if (!escAt) progress(c);
            if (escAt) fail(c, "esc", "shows another frame after Escape");
            else if (frameRun > 2500) fail(c, "shot", sfmt("a shot (angle %d, power %d) still flies after %llu frames", g.t[g.cur].ang, g.t[g.cur].pow, (unsigned long long)frameRun));
            else if (rules && started) { int k = 0; while (memcmp(g.v, c.mem + VID, VLEN)) { if (k > 2 || !g.shot) { fail(c, "path", sfmt("during a shot: ") + g.where(c.mem + VID)); break; } u8 old[VLEN]; memcpy(old, g.v, VLEN); g.flyStep(); if (memcmp(old, g.v, VLEN)) ++k; } }
        }
        return true;
    }
};
Scenario gen(Rng& r, u64 i, bool rules) {
    Scenario s; s.kind = "game"; s.num["seed"] = (long long)(r.next() >> 1); s.num["garbage"] = r.pick({ 0, 1, 2, 3, 3, 3 }); if (r.chance(1, 2)) s.num["irq"] = r.pick({ 20, 200, 2000, 20000 });
    s.num["mode"] = r.pick({ 3, 2, 0, 1, 4, 5, 6, 7, 0x83, 0x82, 0x13, 0x5B, 0x7F }); if (r.chance(1, 2)) s.num["mode"] = 3;
    s.num["ticks"] = r.chance(1, 6) ? r.pick({ 0, 0xFFFF, 0x7FFF, 0x8000, 0x8001, 1, 2, 0xF000, 0x1000, 0xFFF, 0xB40, 0x10000 }) : (int)r.below(0x1800B0);
    if (!rules) s.num["ticks"] = (long long)((r.next() % 24) << 16 | ((i * 40503 + 0x3039) & 0xFFFF));
    s.num["tickEvery"] = r.pick({ 300, 5000, 100000 });
    s.num["retrace"] = r.pick({ 0, 1, 3, 3, 10, 10, 60, 600 }); s.num["pulse"] = r.pick({ 1, 1, 2, 5, 40 });
    string t; int n = rules ? r.range(1, 120) : r.pick({ 0, 0, 1, 2, r.range(0, 30) }); int style = (int)r.below(6);
    static const u16 plain[] = { 0x1E61, 0x1F73, 0x3042, 0x4B34, 0x4D36, 0x4838, 0x5032, 0x4939, 0x5133, 0x3B00, 0x8500, 0x0F09, 0x0E08, 0x7300, 0x7400, 0x8D00, 0x9100, 0x4B35, 0x5100 ^ 0x2, 0x4700, 0x4F00, 0x5200, 0x5300, 0x0300, 0x1071, 0x4C00, 0x4A2D, 0x4E2B, 0x1C0A, 0x39FF, 0x0000 };
    static const u16 act[] = { 0x4B00, 0x4D00, 0x4800, 0x5000, 0x4900, 0x5100 };
    auto add = [&](int d, u16 k) { t += sfmt("%d %04X\n", d, k); };
    for (int k = 0; k < n; ++k) {
        int d = style == 0 ? 0 : r.pick({ 0, 0, 1, 1, 2, 5, 30, (int)r.below(300) });
        switch (r.below(style >= 4 ? 14 : 10)) {
        case 0: add(d, plain[r.below(sizeof plain / 2)]); break;
        case 1: case 2: add(d, act[r.below(6)]); break;
        case 3: case 4: case 5: { u16 a = act[r.below(4)]; int m = r.pick({ 1, 2, 3, 10, 40, (int)r.below(140) }), dd = style == 0 ? (int)r.below(2) : r.chance(1, 4) ? 0 : 2; while (m-- > 0) add(dd, a); break; }
        case 6: add(d, act[4 + r.below(2)]); break;
        case 7: case 10: case 11: case 12: add(d, r.chance(1, 2) ? 0x3920 : 0x1C0D); break;
        case 8: if (r.chance(1, 3)) add(d, r.chance(1, 2) ? 0x3920 : 0x1C0D); break;
        default: if (r.chance(1, rules ? 60 : 8)) add(d, r.chance(1, 8) ? 0x1A1B : 0x011B);
        }
    }
    s.files["@keys"] = t;
    return s;
}
void exec(const Scenario& s, Outcome& o, bool rules) {
    const string& img = toolCom("swar");
    if (img.empty()) { o.fail("build", "swar.com cannot be built"); return; }
    World w; w.sc = &s; w.oc = &o; w.disk.ci = true;
    PcSpec p; p.name = "swar"; p.image = img; p.seed = (u64)s.n("seed"); p.garbage = (int)s.n("garbage"); p.irqEvery = (int)s.n("irq"); p.ticks0 = (u32)s.n("ticks"); p.tickEvery = (int)std::max(20ll, s.n("tickEvery", 20000));
    p.fuel = 60000000; p.extraLo = VID; p.extraHi = VID + VLEN; Env e(s, o, p, rules); p.hooks = &e;
    PcResult r = runPc(w, p);
    Hash h; h.add(s.files.count("@keys") ? s.files.at("@keys") : ""); h.add((u64)s.n("ticks")); h.add(e.frames); h.add(e.polls); o.shape = h.h; o.nontrivial = true;
    o.simTime += e.frames; o.st.inc("probe.frames", e.frames); o.st.inc("probe.shots", (u64)e.g.shots); if (e.g.won) o.st.inc("probe.wins"); o.st.inc("fault.slow-retrace", s.n("retrace") > 3); o.st.inc("probe.polls", e.polls);
    if (!e.cls.empty()) { o.fail(e.cls, e.why + sfmt(" (clock %04llX, shot %d)", s.n("ticks") & 0xFFFF, e.g.shots)); return; }
    if (r.end != E_EXIT) { o.fail(r.end == E_MEM ? "memory" : r.end == E_HANG ? (e.escAt ? "esc" : e.started ? "stuck" : "never-starts") : "end", "the game " + r.describe() + sfmt(" (clock %04llX, shot %d)", s.n("ticks") & 0xFFFF, e.g.shots)); return; }
    if (!e.started) { o.fail("never-starts", "the game ended without waiting for a key: " + r.describe()); return; }
    if (rules && !e.g.over) { o.fail("early-end", "the game ended although nobody won or pressed Escape"); return; }
    if ((e.mode & 0x7F) != (e.mode0 & 0x7F)) { o.fail("mode", sfmt("video mode %02X at the end, %02X at the start", e.mode, e.mode0)); return; }
    if (!r.calls.empty()) for (auto& d : r.calls) if (d.ah == 0x3C || d.ah == 0x3D) { o.fail("calls", "the game opens files"); return; }
}
} // namespace
void registerGameChecks() {
    registerCheck({ "P21", [](Rng& r, u64 i) { return gen(r, i, false); }, [](const Scenario& s, Outcome& o) { exec(s, o, false); }, 4000, 200000, "clock values, initial video modes, key arrival times, retrace timing, interrupts, memory and register garbage; distinct by clock, keys, frames and polls", "swar.c and lib.h of the working tree, built by the host scpp and scc, executed instruction by instruction", "8086 processor, DOS, video and keyboard BIOS, display adapter, timer tick (reference machine)", "display frames" });
    registerCheck({ "P22", [](Rng& r, u64 i) { return gen(r, i, true); }, [](const Scenario& s, Outcome& o) { exec(s, o, true); }, 1500, 60000, "seeded key histories with arrival times, landscapes from clock values, retrace timing, interrupts, garbage; distinct by clock, keys, frames and polls", "swar.c and lib.h of the working tree, built by the host scpp and scc, executed instruction by instruction", "8086 processor, DOS, video and keyboard BIOS, display adapter, timer tick (reference machine); rules model for the expected display", "display frames" });
}
