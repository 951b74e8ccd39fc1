// Tool invocations as parts of scenarios, shared by the host and the 8086 checks.
#pragma once
#include "host.h"
#include "gen.h"
struct Job { string tool; vector<string> args; vector<string> outputs; };
vector<string> split(const string& s);
string join(const vector<string>& v);
void setJob(Scenario& s, int j, const Job& b);
Job getJob(const Scenario& s, int j);
HostSpec specOf(const Scenario& s, int j);
string toolFor(Rng& r);
// a valid input for tool is added to sc.files; big: larger inputs; real: also the repository's own sources
Job makeInput(Rng& r, Scenario& sc, const string& tool, const string& b, int big = 0, bool real = true);
struct Ref { HostResult r; map<string, string> disk; };
Ref reference(const Scenario& sc, int j, Outcome* oc = nullptr, const map<string, string>* files = nullptr);
bool sameFile(const map<string, string>& a, const map<string, string>& b, const string& n, string* why);
string faultText(const Scenario& s);
void stale(Rng& r, Scenario& s, const Job& j);
