// P29: straight machine code, instruction by instruction: sim86 against the reference 8086. Every step of a
// generated program is followed by a snapshot of registers and defined flags kept in the program's own memory
// (stored with MOV and Jcc only, so nothing is disturbed), written to a file at the end.
#include "progs.h"
#include "jobs.h"
#include "checks.h"
#include "guest.h"
#include <sstream>
namespace {
enum { FC_ = 1, FZ_ = 2, FS_ = 4, FO_ = 8, ALLF = 15 };
enum { WIN = 0x4000, WLEN = 0x200, LOG = 0x4400, LOGEND = 0x6000, SLOT = 20 };
// A step: "<flags that become undefined> <flags that become defined> <code in hex>" (A instead of I: uses the carry) or "J <cc> <n>" (skip n steps
// on a condition), "M <n>" / "N <n>" (jump short/near over n steps), "C <sub>" / "D <sub>" (call direct/through BX).
struct Step { char k = 'I'; int clr = 0, set = 0, a = 0, n = 0; string code; };
vector<Step> parseSteps(const string& t) {
    vector<Step> v; std::istringstream in(t); string l;
    while (std::getline(in, l) && v.size() < 300) {
        std::istringstream is(l); string k, hex; Step s; if (!(is >> k) || k.size() != 1) continue; s.k = k[0];
        if (s.k == 'I' || s.k == 'A') { if (!(is >> s.clr >> s.set >> hex) || hex.size() % 2) continue; for (size_t i = 0; i < hex.size(); i += 2) s.code += (char)strtol(hex.substr(i, 2).c_str(), nullptr, 16); }
        else if (s.k == 'J') { if (!(is >> s.a >> s.n)) continue; }
        else if (strchr("MN", s.k)) { if (!(is >> s.n)) continue; }
        else if (strchr("CD", s.k)) { if (!(is >> s.n)) continue; }
        else continue;
        v.push_back(s);
    }
    return v;
}
const int needFlags[16] = { FO_, FO_, FC_, FC_, FZ_, FZ_, FC_ | FZ_, FC_ | FZ_, FS_, FS_, 16, 16, FS_ | FO_, FS_ | FO_, FS_ | FO_ | FZ_, FS_ | FO_ | FZ_ };
struct G {
    Rng& r; string t; G(Rng& g) : r(g) {}
    string b; // bytes of the current step
    void o(std::initializer_list<int> l) { for (int v : l) b += (char)v; }
    void w(int v) { b += (char)v; b += (char)(v >> 8); }
    int val() { switch (r.below(5)) { case 0: return (int)r.pick({ 0, 1, 2, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff, 0xff80, 0xff7f, 0xff00 }); case 1: return (int)r.below(16); default: return (int)(r.next() >> 9 & 0xFFFF); } }
    int reg16() { int x; do x = (int)r.below(8); while (x == SP); return x; }
    void mov(int x, int v) { o({ 0xB8 + x }); w(v); }
    int tgt() { return r.range(WIN + 4, WIN + WLEN - 8); }
    // ModRM for a memory operand at offset ea of the chosen segment; loads the base registers first. reg: the /r field.
    // opcode bytes are put between the register loads and the ModRM byte.
    void mem(int ea, int reg, const string& opcode, int avoid = -1) {
        int mode; for (int k = 0;; ++k) { mode = r.chance(1, 6) ? 8 : (int)r.below(8); if (k > 40) mode = 8; if (avoid < 0 || mode == 8) break; static const int use[8][2] = { { BX, SI }, { BX, DI }, { BP, SI }, { BP, DI }, { SI, SI }, { DI, DI }, { BP, BP }, { BX, BX } }; if (use[mode][0] != avoid && use[mode][1] != avoid) break; }
        if (mode == 8) { b += opcode; o({ reg << 3 | 6 }); w(ea); return; }
        int md = r.range(mode == 6 ? 1 : 0, 2), disp = md == 0 ? 0 : md == 1 ? (int)r.below(256) : val(), d = md == 1 ? (signed char)disp : disp;
        int base = (ea - d) & 0xFFFF;
        switch (mode) {
        case 0: case 1: case 2: case 3: { int x = val(); mov(mode & 2 ? BP : BX, x); mov(mode & 1 ? DI : SI, (base - x) & 0xFFFF); } break;
        case 4: mov(SI, base); break; case 5: mov(DI, base); break; case 6: mov(BP, base); break; case 7: mov(BX, base); break;
        }
        b += opcode; o({ md << 6 | reg << 3 | mode }); if (md == 1) o({ disp }); else if (md == 2) w(disp);
    }
    // ES = DS + k; AX holds something harmless afterwards
    void es(int k) { o({ 0x8C, 0xD8, 0x05 }); w(k); o({ 0x8E, 0xC0 }); mov(AX, val()); }
    // an r/m operand instruction: register or memory, with or without a segment override
    // returns via b; clearly marks flags destroyed by setting ES up
    bool usedEs = false;
    void rm(const string& op, int reg, int avoid = -1, bool regForm = true, bool spOk = false) {
        if (regForm && r.chance(1, 2)) { int x = spOk ? (int)r.below(8) : (op[0] & 1) || op[0] == (char)0xC7 || op[0] == (char)0x8E ? reg16() : (int)r.below(8); b += op; o({ 0xC0 | reg << 3 | x }); return; }
        int ea = tgt();
        if (avoid != AX && r.chance(1, 5)) { int k = r.range(0, 0x3F0) - 0x100; if (r.chance(1, 4)) k = 0; es(k & 0xFFFF); usedEs = true; mem((ea - 16 * k) & 0xFFFF, reg, string("\x26") + op, avoid); return; }
        if (r.chance(1, 8)) { mem(ea, reg, string(1, (char)r.pick({ 0x2E, 0x36, 0x3E })) + op, avoid); return; }
        mem(ea, reg, op, avoid);
    }
    void emit(int clr, int set, char k = 'I') { string h; for (char c : b) h += sfmt("%02X", (u8)c); t += sfmt("%c %d %d ", k, clr, set) + h + "\n"; b.clear(); usedEs = false; }
    void step(int left) {
        usedEs = false;
        switch (r.below(30)) {
        case 0: case 1: case 2: case 3: { int op = (int)r.below(8), w16 = (int)r.below(2), dir = (int)r.below(2); rm(string(1, (char)(op << 3 | dir << 1 | w16)), w16 ? reg16() : (int)r.below(8)); emit(0, ALLF, op == 2 || op == 3 ? 'A' : 'I'); break; }
        case 4: { int op = (int)r.below(8); if (r.chance(1, 2)) { o({ op << 3 | 5 }); w(val()); } else o({ op << 3 | 4, val() & 0xFF }); emit(0, ALLF, op == 2 || op == 3 ? 'A' : 'I'); break; }
        case 5: case 6: { int op = (int)r.below(8), c = r.pick({ 0x80, 0x81, 0x83, 0x82, 0x81, 0x83 }); rm(string(1, (char)c), op); int v = val(); if (c == 0x81) w(v); else o({ v & 0xFF }); emit(0, ALLF, op == 2 || op == 3 ? 'A' : 'I'); break; }
        case 7: { int x = reg16(); o({ (r.chance(1, 2) ? 0x40 : 0x48) + x }); emit(0, FZ_ | FS_ | FO_); break; }
        case 8: { int w16 = (int)r.below(2); rm(string(1, (char)(0xFE | w16)), (int)r.below(2)); emit(0, usedEs ? ALLF : FZ_ | FS_ | FO_); break; }
        case 9: { // push and pop, well nested, with something between
            int n = r.range(1, 4); vector<int> seg; for (int i = 0; i < n; ++i) { int x = reg16(); o({ 0x50 + x }); } if (r.chance(1, 2)) mov(reg16(), val()); for (int i = 0; i < n; ++i) o({ 0x58 + reg16() }); emit(0, 0); break; }
        case 10: { // segment registers over the stack
            o({ r.pick({ 0x06, 0x0E, 0x16, 0x1E }) }); if (r.chance(1, 2)) { o({ 0x07 }); } else { o({ r.pick({ 0x06, 0x0E, 0x16, 0x1E }), 0x07, 0x07 }); } int x = tgt(); mov(DI, x); mov(CX, r.range(1, 6)); mov(AX, val()); if (r.chance(1, 2)) { es(0); mov(DI, x); mov(CX, r.range(1, 6)); } emit(0, 0); if (false) break; t.pop_back(); t += "\n"; break; }
        case 11: case 12: { int w16 = (int)r.below(2), dir = (int)r.below(2); rm(string(1, (char)(0x88 | dir << 1 | w16)), w16 ? reg16() : (int)r.below(8)); emit(0, usedEs ? ALLF : 0); break; }
        case 13: { int x = (int)r.below(8); if (r.chance(1, 2)) o({ 0xB0 + x, val() & 0xFF }); else mov(reg16(), val()); emit(0, 0); break; }
        case 14: { int w16 = (int)r.below(2); rm(string(1, (char)(0xC6 | w16)), 0); int v = val(); if (w16) w(v); else o({ v & 0xFF }); emit(0, usedEs ? ALLF : 0); break; }
        case 15: { int ea = tgt(); if (r.chance(1, 4)) o({ r.pick({ 0x2E, 0x36, 0x3E }) }); o({ 0xA0 + (int)r.below(4) }); w(ea); emit(0, 0); break; }
        case 16: { // through memory into ES, then used
            int m = WIN; o({ 0x8C, r.pick({ 0x0E, 0x16, 0x1E }) }); w(m); o({ 0x8E, 0x06 }); w(m); o({ 0xC7, 0x06 }); w(m); w(val()); int x = tgt(); mov(DI, x); o({ 0x26, 0x8A, 0x05 }); emit(0, 0); break; }
        case 17: { int ea = val(); mem(ea, reg16(), "\x8D"); emit(0, 0); break; }
        case 18: { int x; do x = (int)r.below(8); while (x == SP); o({ 0x90 + x }); emit(0, 0); break; }
        case 19: o({ r.pick({ 0x98, 0x99 }) }); emit(0, 0); break;
        case 20: { int neg = (int)r.below(2); rm("\xF7", 2 + neg); emit(0, usedEs || neg ? ALLF : 0); break; }
        case 21: { // multiply and divide
            switch (r.below(3)) {
            case 0: rm("\xF7", r.range(4, 5)); mov(DX, val()); emit(ALLF, 0); break;
            case 1: { int d = 1 + (val() % 0xFFFF), m = tgt(); bool inMem = r.chance(1, 2); if (inMem) { o({ 0xC7, 0x06 }); w(m); w(d); } mov(AX, val()); mov(DX, 0); if (inMem) { o({ 0xF7, 0x36 }); w(m); } else { int x = r.pick({ (int)CX, (int)BX, (int)SI, (int)DI, (int)BP }); mov(x, d); o({ 0xF7, 0xF0 | x }); } emit(ALLF, 0); break; }
            default: { int d = val(), n = val(); if (!d) d = 3; if (n == 0x8000 && d == 0xFFFF) d = 2; int m = tgt(); bool inMem = r.chance(1, 2); if (inMem) { o({ 0xC7, 0x06 }); w(m); w(d); } mov(AX, n); o({ 0x99 }); if (inMem) { o({ 0xF7, 0x3E }); w(m); } else { int x = r.pick({ (int)CX, (int)BX, (int)SI, (int)DI, (int)BP }); mov(x, d); o({ 0xF7, 0xF8 | x }); } emit(ALLF, 0); break; }
            } break; }
        case 22: case 23: { // shifts
            int k = r.pick({ 4, 5, 7 });
            if (r.chance(1, 2)) { rm("\xD1", k); emit(0, ALLF); }
            else { int n = r.chance(1, 10) ? (int)r.below(256) : r.range(1, 15); o({ 0xB1, n }); rm("\xD3", k, CX); if (n) emit(ALLF, ALLF & ~(n == 1 ? 0 : FO_)); else emit(0, usedEs ? ALLF : 0); }
            break; }
        case 24: case 25: case 26: { // strings
            int n = r.chance(1, 6) ? 0 : r.range(1, 40), s0 = r.range(WIN + 4, WIN + WLEN - 100), d0 = r.chance(1, 4) ? s0 + r.range(0, 3) : r.range(WIN + 4, WIN + WLEN - 100); int k = r.chance(1, 3) ? r.range(0, 0x3F0) - 0x100 : 0;
            if (r.chance(1, 6)) { // over the end of the segment, from behind the program's into the window
                es((WIN >> 4) + r.range(1, 4)); mov(CX, n); mov(SI, s0); mov(AX, val()); mov(DI, 0xFFFF - r.range(0, 24)); if (r.chance(1, 4)) mov(DI, 0xFFFF - r.range(0, 1)); int op = r.pick({ 0xA4, 0xA5, 0xAA, 0xAB, 0xAB }); if (op < 0xAA || r.chance(4, 5)) o({ 0xF3 }); o({ op }); emit(0, ALLF); break; }
            switch (r.below(7)) {
            case 0: case 1: es(k & 0xFFFF); mov(CX, n); mov(SI, s0); mov(DI, (d0 - 16 * k) & 0xFFFF); o({ 0xF3, 0xA4 + (int)r.below(2) }); emit(0, ALLF); break;
            case 2: es(k & 0xFFFF); mov(CX, n); mov(DI, (d0 - 16 * k) & 0xFFFF); mov(AX, val()); if (r.chance(1, 2)) o({ 0xF3 }); o({ 0xAA + (int)r.below(2) }); emit(0, ALLF); break;
            case 3: { es(k & 0xFFFF); bool lod = r.chance(1, 3); mov(SI, lod ? s0 : s0); (void)lod; o({ 0xAC + (int)r.below(2) }); emit(0, ALLF); break; }
            case 4: { // compare: make the two equal for a while
                es(k & 0xFFFF); if (r.chance(2, 3)) { mov(CX, r.range(0, 30)); mov(SI, s0); mov(DI, (d0 - 16 * k) & 0xFFFF); o({ 0xF3, 0xA4 }); }
                mov(CX, n); mov(SI, s0); mov(DI, (d0 - 16 * k) & 0xFFFF); o({ 0xF3, 0xA6 }); emit(0, ALLF); break; }
            case 5: es(k & 0xFFFF); mov(CX, n); mov(DI, (d0 - 16 * k) & 0xFFFF); if (r.chance(1, 2)) { o({ 0xA0 }); w(d0 + (int)r.below(12)); } else mov(AX, val()); o({ 0xF2, 0xAE }); emit(0, ALLF); break;
            default: { // source through an override
                es(k & 0xFFFF); mov(SI, (s0 - 16 * k) & 0xFFFF); o({ 0x26, 0xAC + (int)r.below(2) }); emit(0, ALLF); break; }
            } break; }
        case 27: case 28: if (left > 1) { int n = r.range(1, std::min(left, 4)); switch (r.below(5)) { case 0: t += sfmt("%c %d\n", r.chance(1, 2) ? 'M' : 'N', n); break; case 1: t += sfmt("%c %d\n", r.chance(1, 2) ? 'C' : 'D', (int)r.below(3)); break; default: { int cc; do cc = (int)r.below(16); while (cc == 10 || cc == 11); t += sfmt("J %d %d\n", cc, n); } } } break;
        default: { o({ 0xB2, 32 + (int)r.below(90), 0xB4, 0x02, 0xCD, 0x21 }); mov(AX, val()); emit(0, 0); break; }
        }
    }
};
string build(const string& text, u64 seed, int* snaps, vector<string>* names = nullptr) {
    auto steps = parseSteps(text); Rng r(seed ^ 0x5151); Emit e; vector<int> at; int def = 0, slot = 0; std::map<size_t, vector<std::pair<int, int>>> land; // step -> (fix-up position << 1 | near, flags defined there)
    for (int i = 0; i < 8; ++i) if (i != SP) e.movi(i, (int)(r.next() & 0xFFFF));
    e.raw({ 0x1E, 0x07, 0x3D }); e.u16_((int)(r.next() & 0xFFFF)); def = ALLF; // cmp ax, imm
    string cur; auto snap = [&] {
        int p = LOG + slot * SLOT; if (p + SLOT > LOGEND) return; ++slot; if (names) names->push_back(cur);
        e.raw({ 0xA3 }); e.u16_(p); for (int i = 1; i < 8; ++i) { e.raw({ 0x89, i << 3 | 6 }); e.u16_(p + 2 * i); }
        static const int jn[4] = { 0x73, 0x75, 0x79, 0x71 };
        for (int f = 0; f < 4; ++f) { if (!(def >> f & 1)) continue; e.raw({ 0xC6, 0x06 }); e.u16_(p + 16 + f); e.u8_(2); e.raw({ jn[f], 5, 0xC6, 0x06 }); e.u16_(p + 16 + f); e.u8_(3); }
    };
    for (size_t i = 0; i <= steps.size(); ++i) {
        if (land.count(i)) for (auto& l : land[i]) { int p = l.first >> 1; if (l.first & 1) { int d = (int)e.b.size() - p - 2; e.b[(size_t)p] = (char)d; e.b[(size_t)p + 1] = (char)(d >> 8); } else { int d = (int)e.b.size() - p - 1; if (d > 127) return ""; e.b[(size_t)p] = (char)d; } def &= l.second; }
        if (i == steps.size()) break;
        auto& s = steps[i]; cur.clear(); for (char c : s.code) cur += sfmt("%02X ", (u8)c); if (cur.empty()) cur = "a call";
        if (s.k == 'A' && !(def & FC_)) continue; // adds an undefined carry
        if (s.k == 'I' || s.k == 'A') { e.b += s.code; def = (def & ~s.clr) | s.set; snap(); }
        else if (s.k == 'C') e.call(sfmt("sub%d", s.n % 3));
        else if (s.k == 'D') { e.movl(BX, sfmt("sub%d", s.n % 3)); e.raw({ 0xFF, 0xD3 }); }
        else {
            // short jumps only reach 127 bytes; steps with their snapshots are longer: hop over a near jump
            size_t to = std::min(steps.size(), i + 1 + (size_t)std::max(1, s.n));
            if (s.k == 'J') { int need = needFlags[s.a & 15]; if ((need & def) != need || s.a < 0 || s.a > 15) continue; e.raw({ 0x70 | (s.a ^ 1), 3 }); }
            if (s.k == 'M') { e.raw({ 0xEB, 1, 0x90 }); }
            e.u8_(0xE9); land[to].push_back({ (int)e.b.size() << 1 | 1, def }); e.u16_(0);
        }
        if (s.k == 'C' || s.k == 'D') { def = ALLF; snap(); }
    }
    // the end: everything into a file
    e.raw({ 0x1E, 0x07 });
    e.movl(DX, "name"); e.movi(CX, 0); e.movi(AX, 0x3C00); e.int21(); e.raw({ 0x89, 0xC3 }); e.movi(DX, WIN); e.movi(CX, LOG + slot * SLOT - WIN); e.movi(AX, 0x4000); e.int21(); e.movi(AX, 0x3E00); e.int21(); e.movi(AX, 0x4C00); e.int21();
    // subroutines
    e.label("sub0"); e.raw({ 0x01, 0xF7, 0xC3 });                         // add di, si
    e.label("sub1"); e.raw({ 0x50, 0x29, 0xC8, 0x58, 0xC3 });             // push ax; sub ax, cx; pop ax
    e.label("sub2"); e.call("sub0"); e.raw({ 0x55, 0x89, 0xE5, 0x33, 0x56, 0x02, 0x5D, 0xC3 }); // push bp; mov bp, sp; xor dx, [bp+2]; pop bp
    e.label("name"); e.b += string("OUT\0", 4);
    if (!e.link() || e.b.size() > WIN - 0x100) return "";
    while (e.b.size() < WIN - 0x100) e.b += (char)0x90;
    for (int i = 0; i < WLEN; ++i) e.b += (char)(r.chance(1, 8) ? 0 : r.next() >> 13);
    e.b += string((size_t)(LOG + slot * SLOT - 0x100) - e.b.size(), '\0'); *snaps = slot;
    return e.b;
}
Scenario genCpu(Rng& r, u64) {
    Scenario s; s.kind = "code"; s.num["seed"] = (long long)(r.next() >> 1); s.num["fixed"] = 1; G g(r); int n = r.chance(1, 4) ? r.range(1, 5) : r.range(5, 90);
    for (int i = 0; i < n; ++i) g.step(n - i);
    s.files["@steps"] = g.t; s.num["garbage"] = r.below(4); if (r.chance(1, 2)) s.num["irq"] = r.pick({ 1, 3, 50 });
    if (r.chance(1, 4)) s.num["mode"] = r.pick({ -1, 7, 100 });
    if (r.chance(1, 6)) s.num["nested"] = 1;
    return s;
}
void execCpu(const Scenario& s, Outcome& o) {
    int snaps = 0; vector<string> names; string img = build(s.files.count("@steps") ? s.files.at("@steps") : "", (u64)s.n("seed"), &snaps, &names);
    if (img.empty()) { o.skipped = true; return; }
    PcResult p; string pf, hf, hout, hd; bool hok;
    { World w; w.sc = &s; w.oc = &o; w.disk.ci = true; PcSpec c; c.name = "prog"; c.image = img; c.seed = (u64)s.n("seed"); c.garbage = (int)s.n("garbage"); c.irqEvery = (int)s.n("irq"); c.extraAbove = true; c.fuel = 3000000; p = runPc(w, c); auto* f = w.disk.find("OUT"); if (f) pf = f->data; }
    if (p.end == E_HANG) { o.skipped = true; return; }
    if (!p.ok()) { o.skipped = true; o.st.inc("probe.invalid-on-8086"); return; }
    string who = "sim86";
    if (s.n("nested")) { // the simulator's DOS build
        World w; w.sc = &s; w.oc = &o; w.disk.ci = true; w.disk.put("prog.com", img); PcSpec c; c.name = "sim86"; c.image = toolCom("sim86"); c.tail = " prog.com"; c.seed = (u64)s.n("seed") + 1; c.garbage = 3; c.irqEvery = (int)s.n("irq"); c.extraAbove = true; c.fuel = 60000000; c.readMode = (int)s.n("mode"); if (c.image.empty()) { o.fail("build", "sim86.com cannot be built from the working tree"); return; }
        PcResult x = runPc(w, c); hok = x.ok(); hout = x.out; hd = x.describe(); auto* f = w.disk.find("OUT"); if (f) hf = f->data; who = "sim86.com";
    } else { World w; w.sc = &s; w.oc = &o; w.disk.put("prog.com", img); HostSpec h; h.tool = "sim86"; h.args = { "prog.com" }; h.seed = (u64)s.n("seed"); h.readMode = (int)s.n("mode"); h.fuel = 400 * p.steps + 4000000; HostResult x = w.run(h); hok = x.ok(); hout = x.out; hd = x.describe(); auto* f = w.disk.find("OUT"); if (f) hf = f->data; }
    Hash hh; hh.add(hashStr(pf)); hh.add(p.steps); o.shape = hh.h; o.nontrivial = snaps > 0; o.st.inc("probe.snapshots", (u64)snaps); o.st.inc(s.n("nested") ? "probe.dos-build" : "probe.host-build");
    if (!hok) { o.fail("end", who + " stops a program that runs on the 8086: " + hd); return; }
    if (pf != hf) {
        size_t i = 0; while (i < pf.size() && i < hf.size() && pf[i] == hf[i]) ++i;
        // which step
        string what = "memory"; int first = -1;
        for (int k = 0; k < snaps && first < 0; ++k) for (int b = 0; b < SLOT; ++b) { size_t q = (size_t)(LOG - WIN + k * SLOT + b); if (q < pf.size() && q < hf.size() && pf[q] != hf[q]) { first = k; static const char* const rn[] = { "AX", "CX", "DX", "BX", "SP", "BP", "SI", "DI" }; static const char* const fn[] = { "CF", "ZF", "SF", "OF" }; if (b < 16) { size_t z = (size_t)(LOG - WIN + k * SLOT + (b & ~1)); what = sfmt("%s is %02X%02X on the 8086 and %02X%02X", rn[b / 2], (u8)pf[z + 1], (u8)pf[z], (u8)hf[z + 1], (u8)hf[z]); } else what = sfmt("%s is %d on the 8086 and %d", fn[b - 16], pf[q] & 1, hf[q] & 1); break; } }
        string code = first >= 0 && first < (int)names.size() ? names[(size_t)first] : "";
        if (first < 0) what = sfmt("the byte at offset %04X of memory is %02X on the 8086 and %02X", (unsigned)(WIN + i), i < pf.size() ? (u8)pf[i] : 0, i < hf.size() ? (u8)hf[i] : 0);
        o.fail("state", "after " + (first >= 0 ? "step " + sfmt("%d (%s)", first, code.c_str()) : string("the end")) + " " + what + " in " + who); return;
    }
    if (hout != p.out) { o.fail("output", who + ": console text on the 8086 and simulated: " + diffText(p.out, hout)); return; }
}
} // namespace
void registerCpuChecks() {
    registerCheck({ "P29", genCpu, execCpu, 80000, 1500000, "seeded machine code over every instruction form the simulator knows (operand forms, 16-bit address wrap-around, segment overrides, edge values, conditional and unconditional transfers, string operations) x interrupts and initial state on the 8086 x host or DOS build of the simulator; registers and defined flags compared after every step, memory and console at the end; distinct by final state and instruction count", "sim86.c of the working tree (host build; every 6th run its DOS build made by the host scpp and scc, executed instruction by instruction)", "reference 8086 with DOS (the other side of the comparison), disk, system calls", "8086 instructions (probe.instructions), snapshots compared" });
}
