// P24: the windowed build of the tank game (swar.c with _WIN32) as a host process whose window,
// message queue, clock and sleeping are simulated.
#include "progs.h"
#include "jobs.h"
#include "checks.h"
#include "game_model.h"
#include "font.h"
#include <deque>
#include "win/windows.h"
extern "C" void sim__exit(int);
struct W_Wnd { int x; }; struct W_Dc { int x; }; struct W_Bmp { int x; };
namespace {
struct Ev { int delay; char k; int a, b; };
// K vk scan: key pressed and released; U vk scan: released only; A vk scan: with Alt; C: close box; M msg: other message;
// J ms: the clock jumps; V 0/1: window covered / visible; S ms: the process is stalled
vector<Ev> parseEv(const string& t) {
    vector<Ev> v; size_t p = 0;
    while (p < t.size() && v.size() < 3000) {
        size_t e = t.find('\n', p); if (e == string::npos) e = t.size();
        Ev x{ 0, 0, 0, 0 }; int n = sscanf(t.substr(p, e - p).c_str(), "%d %c %d %d", &x.delay, &x.k, &x.a, &x.b); p = e + 1;
        if (n < 2 || x.delay < 0 || x.delay > 100000 || !strchr("KUACMJVS", x.k) || x.a < 0 || x.b < 0 || x.a > 100000 || x.b > 255) continue;
        if (strchr("KUA", x.k) && (x.a < 1 || x.a > 255)) continue;
        if (x.k == 'M' && x.a != WM_MOUSEMOVE && x.a != WM_TIMER && x.a != WM_SIZE && x.a != WM_MOVE && x.a != WM_SETFOCUS && x.a != WM_CHAR) continue;
        v.push_back(x);
    }
    return v;
}
struct Win {
    const Scenario& s; Outcome& o; Rng r; vector<Ev> ev; size_t next = 0; int wait = 0;
    u64 now; int slow; string cls, why; Hash th;
    W_Wnd wnd; W_Dc dc, pdc; W_Bmp bmp; WNDPROC proc = nullptr; bool exists = false, quit = false, dirty = false, covered = false; string name;
    std::deque<MSG> q; Game g; bool started = false; enum { POLL, FLY, END } phase = POLL; std::deque<u16> keys; bool painted = false, userClosed = false;
    u64 frames = 0, prevFrame = 0, calls = 0, closeAt = 0, idle = 0, overflow = 0, delivered = 0, afterQuit = 0; bool disturbed = false; int maxQ = 0; u64 finals = 0;
    Win(const Scenario& sc, Outcome& oc) : s(sc), o(oc), r((u64)sc.n("seed") ^ 0x77), ev(parseEv(sc.files.count("@ev") ? sc.files.at("@ev") : "")), now((u64)sc.n("clock")), slow((int)sc.n("slow")) { if (!ev.empty()) wait = ev[0].delay; g.wide = true; }
    [[noreturn]] void fail(const string& c, const string& w) { if (cls.empty()) { cls = c; why = w; } sim__exit(98); abort(); }
    void log(const char* w, u64 a, u64 b) { th.add(hashStr(w)); th.add(a); th.add(b); if (gTrace) o.log.push_back(sfmt("[%llu ms] %s %llx %llx", (unsigned long long)now, w, (unsigned long long)a, (unsigned long long)b)); }
    void post(UINT m, WPARAM w, LPARAM l) { MSG x{}; x.hwnd = &wnd; x.message = m; x.wParam = w; x.lParam = l; x.time = (DWORD)now; q.push_back(x); }
    void keyEv(int vk, int scan, bool down, bool alt) {
        LPARAM l = 1 | (LPARAM)scan << 16 | (r.chance(1, 3) ? 1 << 24 : 0) | (alt ? 1 << 29 : 0);
        if (down) { int n = r.chance(1, 4) ? r.range(1, 4) : 1; for (int i = 0; i < n; ++i) post(alt ? WM_SYSKEYDOWN : WM_KEYDOWN, (WPARAM)vk, l | (i ? 1 << 30 : 0)); }
        post(alt ? WM_SYSKEYUP : WM_KEYUP, (WPARAM)vk, l | (LPARAM)0xC0000000u);
    }
    void arrive() {
        while (next < ev.size() && wait <= 0) {
            auto& e = ev[next]; log("event", (u64)e.k, (u64)e.a);
            switch (e.k) {
            case 'K': keyEv(e.a, e.b, true, false); break;
            case 'U': keyEv(e.a, e.b, false, false); break;
            case 'A': keyEv(e.a, e.b, true, true); o.st.inc("fault.sys-key"); break;
            case 'C': if (exists) post(WM_CLOSE, 0, 0); o.st.inc("fault.close"); break;
            case 'M': post((UINT)e.a, 0x4B, 0x4B0000); o.st.inc("fault.other-message"); break;
            case 'J': now += (u64)e.a; disturbed = true; o.st.inc("fault.clock-jump"); break;
            case 'S': now += (u64)e.a; o.st.inc("fault.stall"); break;
            case 'V': covered = e.a == 0 && started; if (!covered) dirty = true; o.st.inc("fault.cover"); break;
            }
            ++next; if (next < ev.size()) wait = ev[next].delay;
        }
    }
    void call() { ++calls; ++o.simTime; if (slow && r.chance(1, 3)) now += r.below((u32)slow); if (exists) { --wait; arrive(); } if (calls > 3000000) fail("stuck", "the game calls the window system for ever"); }
    // what the game does between two frames
    void advance() {
        if (phase == END) fail("esc", "shows another frame after the end of the game");
        if (phase == FLY) {
            g.flyStep(); if (g.shot && ((g.tx >> 7 & 0x1FF) >= GW || g.ty >> 7 >= GH)) g.flyStep();
            if (!g.shot) { phase = POLL; if (g.won && !keys.empty()) phase = END; }
        } else if (!keys.empty()) {
            u16 k = keys.front(); keys.pop_front(); g.key(k); log("takes key", k, 0); idle = 0;
            phase = g.over ? END : g.shot ? FLY : POLL;
            if (g.over) fail("esc", g.won ? "goes on after the key that follows the end of the game" : "goes on after Escape");
        } else ++idle;
    }
    void frame() {
        ++frames; log("frame", frames, 0);
        if (frames > 1) {
            if (!disturbed && now - prevFrame < 20) fail("pace", sfmt("frames %llu and %llu are only %llu ms apart (clock %08X)", (unsigned long long)frames - 1, (unsigned long long)frames, (unsigned long long)(now - prevFrame), (u32)now));
            if (started) advance();
        }
        prevFrame = now; disturbed = false; dirty = true;
        if (closeAt) { if (frames > closeAt + 3) fail("close", "still shows frames after the window was closed"); }
        if (next >= ev.size() && phase == POLL && idle > 3) { idle = 0; if (++finals > 20) fail("esc", "Escape has no effect"); if (s.n("final")) post(WM_CLOSE, 0, 0); else keyEv(0x1B, 1, true, false); }
        else if (phase == POLL && idle > 3 && wait > 3) wait = 3;
    }
    void picture(const u8* bits) {
        u8 v[VLEN]; memset(v, 0, sizeof v);
        for (int y = 0; y < GH; ++y) for (int x = 0; x < GW; ++x) { if (bits[y * GW + x] > 3) fail("screen", sfmt("colour %d at %d,%d", bits[y * GW + x], x, y)); int of = Game::off(x, y); v[of] = (u8)(v[of] | bits[y * GW + x] << (3 - (x & 3)) * 2); }
        if (!started) { string e = g.start(v, kFont); if (!e.empty()) fail("start", e); started = true; return; }
        painted = true;
        if (memcmp(v, g.v, VLEN)) fail("keys", sfmt("frame %llu does not show the effect of the keys delivered so far (%llu, %zu waiting): ", (unsigned long long)frames, (unsigned long long)delivered, keys.size()) + g.where(v));
    }
    LRESULT send(UINT m, WPARAM w, LPARAM l) {
        if (m == WM_KEYUP && proc && exists) {
            u16 c = (u16)w; if (!((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || c == 13 || c == 27 || c == 32)) c = 0;
            u16 k = (u16)((c & 0xFF) | (l >> 8 & 0xFF00)); ++delivered;
            if (keys.size() < 16) keys.push_back(k); else { ++overflow; o.st.inc("fault.key-queue-full"); }
            maxQ = std::max(maxQ, (int)keys.size());
        }
        return proc ? proc(&wnd, m, w, l) : 0;
    }
    bool fetch(MSG* m, bool remove) {
        if (!q.empty()) { *m = q.front(); if (remove) q.pop_front(); return true; }
        if (quit) { memset(m, 0, sizeof *m); m->message = WM_QUIT; if (remove) quit = false; return true; }
        if (dirty && exists && !covered) { memset(m, 0, sizeof *m); m->hwnd = &wnd; m->message = WM_PAINT; if (remove && r.chance(1, 50)) o.st.inc("probe.paint-sampled"); return true; }
        return false;
    }
};
Win* gW;
} // namespace
#define WAPI extern "C" __attribute__((visibility("default")))
WAPI BOOL W_PeekMessage(MSG* m, HWND, UINT, UINT, UINT f) { gW->call(); bool ok = gW->fetch(m, f & PM_REMOVE); if (ok) gW->log("message", m->message, m->wParam); return ok; }
WAPI BOOL W_GetMessage(MSG* m, HWND, UINT, UINT) { Win& w = *gW; w.call(); for (int i = 0; !w.fetch(m, true); ++i) { w.now += 5; if (w.next < w.ev.size()) { w.wait = 0; w.arrive(); } else if (w.s.n("final")) w.post(WM_CLOSE, 0, 0); else w.keyEv(0x1B, 1, true, false); if (i > 10000) w.fail("stuck", "waits for ever"); } return m->message != WM_QUIT; }
WAPI BOOL W_TranslateMessage(const MSG* m) { gW->call(); if (m->message == WM_KEYDOWN && ((m->wParam >= '0' && m->wParam <= 'Z') || m->wParam == 13 || m->wParam == 27 || m->wParam == 32)) { MSG c = *m; c.message = WM_CHAR; gW->q.push_front(c); return 1; } return 0; }
WAPI LRESULT W_DispatchMessage(const MSG* m) { gW->call(); if (m->hwnd && !gW->exists) return 0; return gW->send(m->message, m->wParam, m->lParam); }
WAPI DWORD W_GetTickCount(void) { gW->call(); gW->log("clock", gW->now & 0xFFFFFFFF, 0); return (DWORD)gW->now; }
WAPI ULONGLONG W_GetTickCount64(void) { gW->call(); return gW->now; }
WAPI BOOL W_QueryPerformanceCounter(LARGE_INTEGER* l) { gW->call(); l->QuadPart = (LONGLONG)(gW->now * 10000); return 1; }
WAPI BOOL W_QueryPerformanceFrequency(LARGE_INTEGER* l) { l->QuadPart = 10000000; return 1; }
WAPI void W_Sleep(DWORD n) { Win& w = *gW; w.log("sleep", n, 0); if (n > 5000) w.fail("stuck", sfmt("sleeps %u ms", n)); w.now += n; if (w.s.n("oversleep")) w.now += w.r.below((u32)w.s.n("oversleep")); w.call(); }
WAPI DWORD W_MsgWait(DWORD, const HANDLE*, BOOL, DWORD ms, DWORD) { Win& w = *gW; w.call(); MSG m; for (DWORD i = 0; i < ms && i < 5000; ++i) { if (w.fetch(&m, false)) return 0; ++w.now; if ((i & 3) == 3) { --w.wait; w.arrive(); } } return WAIT_TIMEOUT; }
WAPI BOOL W_InvalidateRect(HWND, const RECT*, BOOL) { gW->call(); gW->frame(); return 1; }
WAPI BOOL W_UpdateWindow(HWND) { gW->call(); if (gW->dirty && !gW->covered && gW->exists) gW->send(WM_PAINT, 0, 0); return 1; }
WAPI BOOL W_ShowWindow(HWND, int) { gW->call(); return 0; }
WAPI LRESULT W_DefWindowProc(HWND h, UINT m, WPARAM, LPARAM) { if (m == WM_CLOSE) { gW->userClosed = true; W_DestroyWindow(h); } else if (m == WM_PAINT) gW->dirty = false; return 0; }
WAPI void W_PostQuitMessage(int) { gW->quit = true; if (!gW->closeAt) gW->closeAt = gW->frames + 1; }
WAPI BOOL W_PostMessage(HWND, UINT m, WPARAM w, LPARAM l) { gW->post(m, w, l); return 1; }
WAPI LRESULT W_SendMessage(HWND, UINT m, WPARAM w, LPARAM l) { return gW->send(m, w, l); }
WAPI BOOL W_DestroyWindow(HWND) { Win& w = *gW; if (!w.exists) return 0; w.log("destroy", 0, 0); if (!w.closeAt) w.closeAt = w.frames + 1; w.send(WM_DESTROY, 0, 0); w.exists = false; w.q.clear(); return 1; }
WAPI BOOL W_IsWindow(HWND h) { return h == &gW->wnd && gW->exists; }
WAPI HDC W_BeginPaint(HWND, PAINTSTRUCT* p) { gW->dirty = false; memset(p, 0, sizeof *p); p->hdc = &gW->pdc; p->rcPaint = RECT{ 0, 0, 640, 400 }; if (gW->started && gW->r.chance(1, 16)) { p->rcPaint.right = p->rcPaint.left = 0; gW->o.st.inc("fault.empty-paint"); } return p->hdc; }
WAPI BOOL W_EndPaint(HWND, const PAINTSTRUCT*) { return 1; }
WAPI BOOL W_ValidateRect(HWND, const RECT*) { gW->dirty = false; return 1; }
WAPI BOOL W_IsRectEmpty(const RECT* r) { return r->right <= r->left || r->bottom <= r->top; }
WAPI BOOL W_GetClientRect(HWND, RECT* r) { *r = RECT{ 0, 0, 640, 400 }; return 1; }
WAPI BOOL W_GetUpdateRect(HWND, RECT* r, BOOL) { *r = RECT{ 0, 0, 640, 400 }; return gW->dirty; }
WAPI BOOL W_StretchBlt(HDC, int, int, int, int, HDC, int, int, int, int, DWORD) { return 1; }
WAPI BOOL W_BitBlt(HDC, int, int, int, int, HDC, int, int, DWORD) { return 1; }
WAPI int W_SetDIBits(HDC, HBITMAP, UINT, UINT n, const void* b, const BITMAPINFO* i, UINT) { if (i->bmiHeader.biWidth == GW && i->bmiHeader.biHeight == -GH && i->bmiHeader.biBitCount == 8 && n == GH) gW->picture((const u8*)b); return (int)n; }
WAPI int W_StretchDIBits(HDC, int, int, int, int, int, int, int, int, const void* b, const BITMAPINFO* i, UINT, DWORD) { if (i->bmiHeader.biWidth == GW && i->bmiHeader.biHeight == -GH && i->bmiHeader.biBitCount == 8) gW->picture((const u8*)b); return GH; }
WAPI HDC W_CreateCompatibleDC(HDC) { return &gW->dc; }
WAPI HBITMAP W_CreateCompatibleBitmap(HDC, int, int) { return &gW->bmp; }
WAPI HGDIOBJ W_SelectObject(HDC, HGDIOBJ o) { return o; }
WAPI BOOL W_DeleteObject(HGDIOBJ) { return 1; }
WAPI BOOL W_DeleteDC(HDC) { return 1; }
WAPI HDC W_GetWindowDC(HWND) { return &gW->pdc; }
WAPI int W_ReleaseDC(HWND, HDC) { return 1; }
WAPI ATOM W_RegisterClass(const WNDCLASS* c) { gW->call(); if (gW->s.n("init") == 1) return 0; gW->proc = c->lpfnWndProc; return 1; }
WAPI HWND W_CreateWindow(LPCSTR, LPCSTR, DWORD, int, int, int, int, HWND, HMENU, HINSTANCE, LPVOID) { gW->call(); if (gW->s.n("init") == 2) return nullptr; gW->exists = true; if (gW->send(WM_CREATE, 0, 0) == -1) { gW->exists = false; return nullptr; } gW->send(WM_SHOWWINDOW, 1, 0); gW->send(WM_SIZE, 0, 0); gW->send(WM_ERASEBKGND, 0, 0); return &gW->wnd; }
WAPI BOOL W_AdjustWindowRect(RECT*, DWORD, BOOL) { return 1; }
WAPI HMODULE W_GetModuleHandle(LPCSTR) { return (void*)1; }
WAPI DWORD W_GetLastError(void) { return 8; }
WAPI int W_MessageBox(HWND, LPCSTR, LPCSTR, UINT) { return 1; }
WAPI HCURSOR W_LoadCursor(HINSTANCE, LPCSTR) { return nullptr; }
namespace {
Scenario gen(Rng& r, u64) {
    Scenario s; s.kind = "window"; s.num["seed"] = (long long)(r.next() >> 1);
    s.num["clock"] = r.chance(1, 3) ? (long long)0x100000000ll - r.range(1, 3000) : r.chance(1, 6) ? (long long)r.below(3) : (long long)(r.next() & 0x3FFFFFFFF); s.num["slow"] = r.pick({ 0, 0, 2, 3, 10, 40 }); s.num["oversleep"] = r.pick({ 0, 0, 2, 16, 100 }); s.num["final"] = r.chance(1, 3);
    if (r.chance(1, 40)) s.num["init"] = r.range(1, 2);
    struct K { int vk, scan; };
    static const K act[] = { { 0x25, 0x4B }, { 0x27, 0x4D }, { 0x26, 0x48 }, { 0x28, 0x50 }, { 0x21, 0x49 }, { 0x22, 0x51 }, { 0x64, 0x4B }, { 0x66, 0x4D } };
    static const K other[] = { { 'A', 0x1E }, { 'K', 0x25 }, { '4', 0x05 }, { 0x34, 0x4B }, { 0x70, 0x3B }, { 0x10, 0x2A }, { 0x11, 0x1D }, { 0x09, 0x0F }, { 0x08, 0x0E }, { 0x2E, 0x53 }, { 0xBD, 0x0C }, { 0xE7, 0 }, { 0x3A, 0x4B }, { 0x40, 0x4D }, { 0x5B, 0x48 }, { 0x2F, 0x50 }, { 'Z', 0x4B }, { '9', 0x50 }, { '0', 0x48 } };
    static const int misc[] = { WM_MOUSEMOVE, WM_TIMER, WM_SIZE, WM_MOVE, WM_SETFOCUS, WM_CHAR };
    string t; int n = r.range(1, 80), style = (int)r.below(4);
    auto add = [&](int d, char k, int a, int b) { t += sfmt("%d %c %d %d\n", d, k, a, b); };
    for (int i = 0; i < n; ++i) {
        int d = style == 0 ? 0 : r.pick({ 0, 0, 0, 1, 3, 10, 60, (int)r.below(400) });
        switch (r.below(20)) {
        case 0: case 1: { auto& k = other[r.below(sizeof other / sizeof *other)]; add(d, r.chance(1, 3) ? 'U' : 'K', k.vk, k.scan); break; }
        case 2: case 3: case 4: case 5: case 6: { auto& k = act[r.below(8)]; add(d, r.chance(1, 3) ? 'U' : 'K', k.vk, k.scan); break; }
        case 7: case 8: case 9: { int m = r.pick({ 2, 5, 15, 16, 17, 20, 31, 33, 40 }); bool same = r.chance(1, 3); auto k = act[r.below(8)]; while (m--) { if (!same) k = act[r.below(8)]; add(m ? 0 : d, r.chance(1, 2) ? 'U' : 'K', k.vk, k.scan); } break; }
        case 10: case 11: case 12: add(d, 'K', r.chance(1, 2) ? 0x20 : 0x0D, r.chance(1, 2) ? 0x39 : 0x1C); break;
        case 13: { auto& k = act[r.below(8)]; add(d, 'A', r.chance(1, 4) ? 0x1B : k.vk, k.scan); break; }
        case 14: add(d, 'M', misc[r.below(6)], 0); break;
        case 15: add(d, 'J', r.chance(1, 2) ? r.range(1, 50) : r.range(50, 100000), 0); break;
        case 16: add(d, 'S', r.range(1, 200), 0); break;
        case 17: add(d, 'V', (int)r.below(2), 0); if (r.chance(1, 2)) add(r.range(1, 200), 'V', 1, 0); break;
        case 18: if (r.chance(1, 30)) add(d, 'C', 0, 0); break;
        default: if (r.chance(1, 60)) add(d, 'K', 0x1B, 1);
        }
    }
    s.files["@ev"] = t; return s;
}
void exec(const Scenario& s, Outcome& o) {
    World w; w.sc = &s; w.oc = &o; Win x(s, o); gW = &x;
    HostSpec h; h.tool = "winswar"; h.seed = (u64)s.n("seed"); h.fuel = 4000000000ull;
    HostResult r = w.run(h); gW = nullptr;
    { Hash hh; hh.h = o.trace; hh.add(x.th.h); o.trace = hh.h; }
    Hash sh; sh.add(x.th.h); o.shape = sh.h; o.nontrivial = x.delivered > 0;
    o.st.inc("probe.frames", x.frames); o.st.inc("probe.keys", x.delivered); o.st.inc("probe.shots", (u64)x.g.shots); if (x.g.won) o.st.inc("probe.wins"); if (x.maxQ >= 16) o.st.inc("probe.full-queue"); if (s.n("clock") > 0xFFFFF000ll && s.n("clock") < 0x100000000ll) o.st.inc("fault.clock-wrap");
    string ctx = sfmt(" (frame %llu, %llu keys delivered, %llu beyond the queue's room, clock %08X)", (unsigned long long)x.frames, (unsigned long long)x.delivered, (unsigned long long)x.overflow, (u32)x.now);
    if (!x.cls.empty()) { o.fail(x.cls, x.why + ctx); return; }
    if (r.end != E_EXIT) { o.fail(r.end == E_HANG ? "stuck" : "end", "the game: " + r.describe() + ctx); return; }
    if (s.n("init")) { o.st.inc("fault.no-window"); if (r.code == 0) o.fail("init", "exit status 0 although there is no window"); return; }
    if (x.started && !x.closeAt) { o.fail("close", "the window is left open" + ctx); return; }
    // the end must be explained by the closed window or by the next key
    if (r.code != 0) { o.fail("end", "the game: " + r.describe() + ctx); return; }
    if (x.userClosed) return;
    if (!x.started) { o.fail("start", "ended before the first picture: " + r.describe() + ctx); return; }
        if (x.phase == Win::FLY) { x.g.flyStep(); if (x.g.shot && ((x.g.tx >> 7 & 0x1FF) >= GW || x.g.ty >> 7 >= GH)) x.g.flyStep(); if (x.g.shot) { o.fail("early-end", "the game ended during a shot" + ctx); return; } }
        if (x.phase != Win::END) { if (x.keys.empty()) { o.fail("early-end", "the game ended without a key" + ctx); return; } u16 k = x.keys.front(); if (!x.g.won && (k & 0xFF) != 27) { o.fail("early-end", sfmt("the game ended on key %04X", k) + ctx); return; } }
}
} // namespace
void registerWinChecks() {
    registerCheck({ "P24", gen, exec, 4000, 200000, "seeded sequences of window messages, key bursts, clock wraps and jumps, stalls, covered windows and failing window creation x arrival at every call into the window system; distinct by the sequence of calls and messages", "swar.c of the working tree, windowed build (_WIN32), compiled for the host", "window system, message queue, painting, clock and sleeping (simulated); rules model for the expected pictures", "calls into the window system" });
}
