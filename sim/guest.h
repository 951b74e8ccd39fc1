// Machine-code guest programs for the simulator checks: they perform a script of DOS calls with chosen
// register, flag and memory contents, and report everything they can observe after every call.
#pragma once
#include "pc.h"

struct Emit { // tiny 8086 emitter; only instructions every simulated CPU here supports
    string b; int org = 0x100; map<string, int> lab; vector<std::pair<int, string>> fix16; // absolute fix-ups
    vector<std::pair<int, string>> fixRel;
    int here() const { return org + (int)b.size(); }
    void u8_(int v) { b += (char)v; }
    void u16_(int v) { u8_(v & 0xFF); u8_(v >> 8 & 0xFF); }
    void raw(std::initializer_list<int> l) { for (int v : l) u8_(v); }
    void label(const string& n) { lab[n] = here(); }
    void abs(const string& n) { fix16.push_back({ (int)b.size(), n }); u16_(0); }
    void movi(int reg, int v) { u8_(0xB8 + reg); u16_(v); }
    void movl(int reg, const string& n) { u8_(0xB8 + reg); abs(n); }
    void call(const string& n) { u8_(0xE8); fixRel.push_back({ (int)b.size(), n }); u16_(0); }
    void jmp(const string& n) { u8_(0xE9); fixRel.push_back({ (int)b.size(), n }); u16_(0); }
    void int21() { raw({ 0xCD, 0x21 }); }
    void cs_eq_ds() { raw({ 0x8C, 0xC8, 0x8E, 0xD8 }); }
    bool link() { for (auto& f : fix16) { if (!lab.count(f.second)) return false; int v = lab[f.second]; b[f.first] = (char)v; b[f.first + 1] = (char)(v >> 8); } for (auto& f : fixRel) { if (!lab.count(f.second)) return false; int v = lab[f.second] - (org + f.first + 2); b[f.first] = (char)v; b[f.first + 1] = (char)(v >> 8); } return true; }
};

struct GOp { char k = 0; int slot = 0; int handle = 0; int seg = 0, dx = 0, cx = 0; string name; };
// script: one call per line
//  C slot name | O slot name | R slot seg dx cx | W slot seg dx cx | X slot
//  r handle seg dx cx | w handle seg dx cx | x handle      (raw handles)
vector<GOp> parseScript(const string& text);
string genScript(Rng& r, map<string, string>& files, int nops, bool small); // creates input files too
struct Regs { u16 r[8]; u16 s[4]; u8 f[4]; };   // f: C Z S O
struct Guest {
    string image; vector<GOp> ops; vector<Regs> before; string pattern; // pattern: initial 64K (from 0x100)
    bool ext[4] = { 0, 0, 0, 0 }; int exitCode = 0; bool ok = false;
};
enum { G_BUF = 0x5000, G_END = 0xF000 };
Guest buildGuest(const string& script, u64 seed, int exitCode);
struct GCall { Regs after; string window; };
struct GReport { vector<GCall> calls; bool complete = false; string finalMem[4]; };
GReport parseReport(const Guest& g, const string& out, const string& dump); // console output, content of DUMP
void windowOf(const GOp& o, int& from, int& len);
