// Executable reference of C preprocessing (hide sets, full argument expansion) for the subset of
// directives scpp knows. Independent of scpp's streaming implementation.
#pragma once
#include "core.h"
#include <list>
namespace ppref {
struct Tok { string s; bool ws = false; bool nl = false; int line = 0; std::set<string> hide; bool place = false; };
using Toks = std::list<Tok>;
struct Macro { bool func = false; vector<string> params; vector<Tok> body; };
struct PP {
    const map<string, string>* files = nullptr;
    map<string, Macro> macros;
    vector<string> out;          // C tokens
    bool error = false;          // a diagnostic is due (#error, missing include)
    bool invalid = false;        // outside what the reference (or the C standard) defines
    string why, errFile; int errLine = 0; // of an active #error
    int depth = 0;
    int dead = 0;                // evaluating an operand that isn't used
    string file;                 // current
    void run(const string& name);
    void directive(const string& line); // one directive outside any file (generator use)
    bool evalIf(const vector<Tok>& line, long* v); // false: not usable
    Toks expand(Toks in);
private:
    bool evalExpr(Toks& t, int prec, long* v);
    bool evalUnary(Toks& t, long* v);
    void define(vector<Tok>& l, size_t i);
};
vector<Tok> lexLine(const string& s, bool* bad = nullptr); // tokens of comment-free text
vector<string> cTokens(const string& text); // all C tokens of a text, line structure and comments ignored
bool isId(const string& s);
}
