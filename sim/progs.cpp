#include "progs.h"
static string firstLine(const HostResult& r) { return r.describe(); }
static string build(const map<string, string>& files, const string& main, bool pp, string* err) {
    World w; w.applyFaults = false; w.disk.load(files);
    HostSpec h; string in = main;
    if (pp) { h.tool = "scpp"; h.args = { main, "b.i" }; HostResult r = w.run(h); if (!r.ok()) { if (err) *err = "scpp: " + firstLine(r); return ""; } in = "b.i"; }
    h.tool = "scc"; h.args = { in, "b.com" };
    HostResult r = w.run(h);
    if (!r.ok()) { if (err) *err = "scc: " + firstLine(r); return ""; }
    return w.disk.find("b.com")->data;
}
const string& toolCom(const string& name) {
    static map<string, string> cache;
    auto i = cache.find(name); if (i != cache.end()) return i->second;
    bool pp = name == "sim86" || name == "swar"; string err;
    map<string, string> f; f[name + ".c"] = readRealFile(gRepo + "/" + name + ".c");
    if (pp) f["lib.h"] = readRealFile(gRepo + "/lib.h");
    string c = build(f, name + ".c", pp, &err);
    if (c.empty() && gTrace) fprintf(stderr, "building %s.com: %s\n", name.c_str(), err.c_str());
    return cache[name] = c;
}
string buildCom(const string& src, bool preprocess, string* err) {
    map<string, string> f; f["b.c"] = src;
    if (preprocess) { static string lib; if (lib.empty()) lib = readRealFile(gRepo + "/lib.h"); f["lib.h"] = lib; }
    return build(f, "b.c", preprocess, err);
}
string buildAsm(const string& src, string* err) {
    World w; w.applyFaults = false; w.disk.put("b.s", src);
    HostSpec h; h.tool = "sas"; h.args = { "b.s", "b.com" };
    HostResult r = w.run(h);
    if (!r.ok()) { if (err) *err = "sas: " + firstLine(r); return ""; }
    return w.disk.find("b.com")->data;
}
map<string, string> upperKeys(const map<string, string>& m) { Disk d; d.ci = true; map<string, string> r; for (auto& i : m) r[d.key(i.first)] = i.second; return r; }
