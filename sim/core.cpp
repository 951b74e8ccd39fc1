#include "core.h"
#include <cstdarg>
#include <fstream>
#include <sstream>

bool gTrace = false;
string gBuildDir, gRepo;
const char* const faultNames[F_KINDS] = { "none", "error", "short", "zero", "kill", "kill-after", "power-loss", "lost-close", "late-error", "irq" };

string sfmt(const char* f, ...) {
    va_list a; va_start(a, f);
    char buf[4096]; int n = vsnprintf(buf, sizeof buf, f, a); va_end(a);
    if (n < 0) return "";
    return string(buf, std::min<size_t>(n, sizeof buf - 1));
}
u64 hashStr(const string& s) { Hash h; h.add(s); return h.h; }
string quote(const string& s, size_t maxLen) {
    string r = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        if (i >= maxLen) { r += sfmt("\"...(%zu bytes)", s.size()); return r; }
        unsigned char c = s[i];
        if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c >= 127) r += sfmt("\\x%02X", c); else r += c;
    }
    return r + "\"";
}
string diffText(const string& a, const string& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    size_t from = i > 20 ? i - 20 : 0;
    return sfmt("sizes %zu/%zu, first difference at byte %zu: expected ...%s, got ...%s", a.size(), b.size(), i,
        quote(from < a.size() ? a.substr(from, 60) : "", 60).c_str(), quote(from < b.size() ? b.substr(from, 60) : "", 60).c_str());
}
string readRealFile(const string& path, bool* ok) {
    std::ifstream f(path, std::ios::binary);
    if (ok) *ok = !!f;
    std::stringstream ss; ss << f.rdbuf();
    return ss.str();
}
void tlog(Outcome* o, const string& s) { if (gTrace && o) o->log.push_back(s); }

// text format: one item per line, "key name = value" with strings escaped
static string esc(const string& s) {
    string r;
    for (unsigned char c : s) {
        if (c == '\\') r += "\\\\"; else if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t";
        else if (c < 32 || c >= 127) r += sfmt("\\x%02x", c); else r += c;
    }
    return r;
}
static string unesc(const string& s) {
    string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '\\' || i + 1 >= s.size()) { r += s[i]; continue; }
        char c = s[++i];
        if (c == 'n') r += '\n'; else if (c == 'r') r += '\r'; else if (c == 't') r += '\t';
        else if (c == 'x' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
        else r += c;
    }
    return r;
}
string Scenario::serialize() const {
    string o = "prop " + prop + "\nkind " + kind + "\n";
    for (auto& i : num) o += sfmt("num %s %lld\n", i.first.c_str(), i.second);
    for (auto& i : str) o += "str " + i.first + " " + esc(i.second) + "\n";
    for (auto& i : files) o += "file " + i.first + " " + esc(i.second) + "\n";
    for (auto& f : faults) o += sfmt("fault %d %d %s %d\n", f.proc, f.op, faultNames[f.kind], f.arg);
    if (!sched.empty()) {
        o += "sched";
        for (size_t i = 0; i < sched.size();) { // run-length
            size_t j = i; while (j < sched.size() && sched[j] == sched[i]) ++j;
            o += j - i > 1 ? sfmt(" %d*%zu", sched[i], j - i) : sfmt(" %d", sched[i]);
            i = j;
        }
        o += "\n";
    }
    return o;
}
bool Scenario::parse(const string& text, Scenario& o, map<string, string>* extra) {
    std::istringstream in(text);
    string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        size_t sp = line.find(' ');
        string k = line.substr(0, sp), rest = sp == string::npos ? "" : line.substr(sp + 1);
        if (k == "prop") o.prop = rest;
        else if (k == "kind") o.kind = rest;
        else if (k == "num" || k == "str" || k == "file") {
            size_t s2 = rest.find(' ');
            string name = rest.substr(0, s2), v = s2 == string::npos ? "" : rest.substr(s2 + 1);
            if (k == "num") o.num[name] = atoll(v.c_str());
            else if (k == "str") o.str[name] = unesc(v);
            else o.files[name] = unesc(v);
        } else if (k == "fault") {
            Fault f; char nm[64];
            if (sscanf(rest.c_str(), "%d %d %63s %d", &f.proc, &f.op, nm, &f.arg) != 4) return false;
            for (int i = 0; i < F_KINDS; ++i) if (!strcmp(nm, faultNames[i])) f.kind = (FaultKind)i;
            o.faults.push_back(f);
        } else if (k == "sched") {
            std::istringstream is(rest); string t;
            while (is >> t) {
                size_t st = t.find('*');
                int v = atoi(t.c_str()); size_t n = st == string::npos ? 1 : (size_t)atoll(t.c_str() + st + 1);
                if (n > 10000000) return false;
                o.sched.insert(o.sched.end(), n, v);
            }
        } else if (extra) (*extra)[k] = unesc(rest);
    }
    return !o.prop.empty();
}

static vector<Check>& checks() { static vector<Check> v; return v; }
void registerCheck(const Check& c) { checks().push_back(c); }
Check* findCheck(const string& id) { for (auto& c : checks()) if (id == c.id) return &c; return nullptr; }
vector<string> checkIds() { vector<string> v; for (auto& c : checks()) v.push_back(c.id); return v; }
