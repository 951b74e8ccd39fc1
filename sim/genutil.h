// Text formatting helpers shared by the generators. style: 0 plain, 1 spacing and number bases, 2 wild.
#pragma once
#include "gen.h"
string ws(Rng& r, int style);
string ows(Rng& r, int style);
string num(Rng& r, int v, int style);
string strLit(Rng& r, const string& s, int style);
Prog genProgram2(Rng& r, int size, int style, bool useLib);
