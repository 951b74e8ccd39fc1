// Seeded workload generators.
#pragma once
#include "core.h"

struct Prog { string src; string expect; };   // expect: console output under DOS (\n already \r\n if lib printf)

// A program in the supported C subset together with the text it must print. style: how wildly the
// text is formatted (comments, spacing, number bases, string pieces). useLib: uses lib.h (needs the
// preprocessor), otherwise self contained.
Prog genProgram(Rng& r, int size, int style, bool useLib);
// C text exercising every token kind of the compiler; always compiles.
string genLexC(Rng& r, int size, bool inRange = false); // inRange: constant expressions fit a 16-bit int
// Assembly source using every instruction form; always assembles.
string genAsm(Rng& r, int size);
// A preprocessor input tree: "main" file name given, includes created next to it.
void genPP(Rng& r, map<string, string>& files, const string& mainName, int size);
// Break a valid text somewhere (never introduces NUL bytes).
string breakC(Rng& r, const string& src);
string breakAsm(Rng& r, const string& src);
// Pad with a comment so that an interesting place lands near a 512-byte boundary.
string padFront(Rng& r, const string& src, const char* comment);
// A runnable assembly program and what it prints.
Prog genRunAsm(Rng& r, int size);
// A script of lib.h file operations (creates input files), its text form, and a C program performing it.
struct FileOp { char k = 0; int slot = 0, off = 0, n = 0; string name; };
string genFileProg(Rng& r, map<string, string>& files, int nops, vector<FileOp>* ops);
string fileOpsText(const vector<FileOp>& v);
vector<FileOp> parseFileOps(const string& t);
string fileProgSource(const vector<FileOp>& ops, int exitCode);
