// A small model of the tank game's rules, shared by the DOS (P21, P22) and the windowed (P24) checks.
#pragma once
#include "core.h"
#include <cmath>
enum { GW = 320, GH = 200, VLEN = 0x4000 };
struct Tank { int x, y, ang, pow, col; };
struct Game {
    int tr(int x) const { return wide ? x : (int16_t)x; }  // the game computes with the int of its machine
    u8 v[VLEN]; const u8* font; Tank t[2]; int cur = 0; bool won = false, over = false;
    // shot in flight
    bool shot = false; bool wide = false; int tx, ty, ca, sa, ssa; int lx, ly, hit = 0; int frames = 0, shots = 0;
    static int off(int x, int y) { return (y & 1) * 0x2000 + (y >> 1) * 80 + (x >> 2); }
    int get(int x, int y) const { return v[off(x, y)] >> (3 - (x & 3)) * 2 & 3; }
    void put(int x, int y, int c) { if (x < 0 || x >= GW || y < 0 || y >= GH) return; u8& b = v[off(x, y)]; int s = (3 - (x & 3)) * 2; b = (u8)((b & ~(3 << s)) | c << s); }
    static int cosv(int a) { a &= 255; double c = 256 * std::cos(a * M_PI / 128); if (a == 64 || a == 192) return 0; return c < 0 ? -(int)std::floor(-c) : (int)std::floor(c); }
    static int sinv(int a) { return cosv(a - 64); }
    void turret(const Tank& k, int c) {
        int x = (k.x + 4) << 7, y = (k.y + 6) << 7, dx = cosv(k.ang) >> 1, dy = -sinv(k.ang) >> 1;
        for (int i = 0; i < 6; ++i) { put(x >> 7 & 0x1FF, y >> 7, c); x += dx; y += dy; }
    }
    void chr(int x, int y, u8 ch, int fg, int bg) { for (int j = 0; j < 8; ++j) for (int i = 0; i < 8; ++i) put(x + i, y + j, font[ch * 8 + j] >> (7 - i) & 1 ? fg : bg); }
    void str(int x, int y, const string& s, int fg, int bg) { for (char c : s) { chr(x, y, (u8)c, fg, bg); x += 8; } }
    void info() { str(0, 0, sfmt("Ang %3d  Pwr %3d", t[cur].ang * 180 / 128, t[cur].pow), t[cur].col, 0); }
    void body(const Tank& k) { for (int y = 0; y < 4; ++y) for (int x = 0; x < 9; ++x) put(k.x + x, k.y + 7 + y, k.col); }
    void startShot() {
        const Tank& k = t[cur]; int c = cosv(k.ang) >> 1, s = -sinv(k.ang) >> 1; shot = true; ++shots; frames = 0;
        tx = tr(((k.x + 4) << 7) + c * 6); ty = tr(((k.y + 6) << 7) + s * 6);
        ca = tr(c * k.pow / 100); sa = tr(s * k.pow / 100); ssa = 0; lx = -1; ly = 0; hit = 0;
    }
    void flyStep() { // one frame of the shot
        int sx = tx >> 7 & 0x1FF, sy = ty >> 7;
        if (sx >= GW || sy >= GH) { put(lx, ly, 0); endShot(); return; }
        ++frames; if (lx >= 0) put(lx, ly, 0);
        if (sy >= 0) { if (sy > 8 && get(sx, sy)) { hit = get(sx, sy); put(sx, sy, 0); endShot(); return; } put(sx, sy, 1); }
        lx = sx; ly = sy; tx = tr(tx + ca); ty = tr(ty + sa); sa = tr(sa + (ssa >> 10)); ssa = tr(ssa + 5);
    }
    void endShot() {
        shot = false;
        if (hit >= 2) { won = true; string m = sfmt("Player %d wins!", hit == 2 ? 2 : 1); str((GW - 8 * (int)m.size()) / 2, GH / 2 - 4, m, hit == 2 ? 3 : 2, 0); }
        else { cur ^= 1; info(); }
    }
    void finishShot() { while (shot) flyStep(); }
    void key(u16 k) {
        finishShot(); if (over) return;
        if (won || (k & 0xFF) == 27) { over = true; return; }
        if ((k & 0xFF) == 13 || (k & 0xFF) == 32) { startShot(); return; }
        Tank& c = t[cur]; int a = c.ang;
        switch (k) {
        case 0x4B00: a = a == 128 ? 0 : a + 1; break;
        case 0x4D00: a = a == 0 ? 128 : a - 1; break;
        case 0x4800: if (c.pow < 100) ++c.pow; break;
        case 0x5000: if (c.pow > 0) --c.pow; break;
        case 0x4900: c.pow = 100; break;
        case 0x5100: c.pow = 0; break;
        default: return;
        }
        if (a != c.ang) { turret(c, 0); c.ang = a; turret(c, c.col); }
        info();
    }
    // take the landscape from the first screen; "" or what is wrong with it
    string start(const u8* vid, const u8* fnt) {
        memcpy(v, vid, VLEN); font = fnt; u8 first[VLEN]; memcpy(first, v, VLEN);
        for (int x = 0; x < GW; ++x) { if (get(x, GH - 1) != 1) return sfmt("no ground at column %d", x); if ((x < 14 || x > 31) && (x < 297 || x > 310)) { int y = GH - 1; while (y >= 9 && get(x, y)) --y; if (y < 9) return sfmt("ground up to the top at column %d", x); for (; y >= 9; --y) if (get(x, y)) return sfmt("something in the air at column %d", x); } }
        static const int xs[2] = { 20, 300 }, probe[2] = { 20, 308 }, as[2] = { 32, 96 };
        for (int i = 0; i < 2; ++i) {
            int y = 9; while (y < GH && get(probe[i], y) != i + 2) ++y;
            if (y > GH - 11) return sfmt("tank %d is missing", i + 1);
            t[i] = { xs[i], y - 7, as[i], 100, i + 2 };
            if (get(xs[i] + 4, y + 4) != 1) return sfmt("tank %d does not stand on the ground", i + 1);
            turret(t[i], t[i].col); body(t[i]);
        }
        cur = 0; info();
        if (memcmp(first, v, VLEN)) return "first screen: " + where(first);
        return "";
    }
    string where(const u8* got) const { // first differing pixel
        for (int y = 0; y < GH; ++y) for (int x = 0; x < GW; ++x) { int o = off(x, y), s = (3 - (x & 3)) * 2; if ((got[o] >> s & 3) != (v[o] >> s & 3)) return sfmt("pixel %d,%d is %d, %d expected", x, y, got[o] >> s & 3, v[o] >> s & 3); }
        for (int o = 0; o < VLEN; ++o) if (got[o] != v[o]) return sfmt("display memory outside the picture changed at %04X", o);
        return "no difference";
    }
};
