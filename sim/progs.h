// .com programs of the working tree, built inside the simulator by the host tools.
#pragma once
#include "pc.h"
// scc, scpp, sas: compiled directly; sim86, swar: preprocessed with lib.h first (as CMakeLists.txt does)
const string& toolCom(const string& name);
// C text (may include lib.h) -> .com, "" and *err on failure
string buildCom(const string& src, bool preprocess, string* err = nullptr);
string buildAsm(const string& src, string* err = nullptr);
map<string, string> upperKeys(const map<string, string>& m);
