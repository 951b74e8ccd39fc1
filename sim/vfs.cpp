#include "vfs.h"

string Disk::key(const string& n) const {
    string r = n;
    if (ci) for (auto& c : r) { if (c >= 'a' && c <= 'z') c -= 32; if (c == '/') c = '\\'; }
    while (r.size() > 2 && r[0] == '.' && (r[1] == '/' || (ci && r[1] == '\\'))) r = r.substr(2);
    return r;
}
size_t Disk::room(const FileNode& f, size_t pos, size_t n) const {
    if (capacity < 0) return n;
    if (!free.empty()) { auto i = files.find(free); if (i != files.end() && i->second.get() == &f) return n; }
    long long freeBytes = capacity - used();
    if (freeBytes < 0) freeBytes = 0;
    size_t inPlace = pos < f.data.size() ? std::min(n, f.data.size() - pos) : 0;
    size_t gap = pos > f.data.size() ? pos - f.data.size() : 0;
    if ((long long)gap > freeBytes) return 0;
    return std::min<size_t>(n, inPlace + (size_t)(freeBytes - (long long)gap));
}
string tornContent(bool hadOld, const string& old, const string& cur, u64 seed, bool& exists) {
    Rng r(seed);
    exists = true;
    switch (r.below(7)) {
    case 0: exists = hadOld; return old;               // nothing of the change survived
    case 1: return cur;                                // everything survived
    case 2: return "";                                 // only the creation/truncation survived
    case 3: return cur.substr(0, r.below((u32)cur.size() + 1) & ~511u);   // whole sectors
    case 4: return cur.substr(0, r.below((u32)cur.size() + 1));
    case 5: {                                          // size survived, sectors independently new/old/zero
        string d = cur;
        for (size_t s = 0; s < d.size(); s += 512) {
            u32 k = r.below(3);
            for (size_t i = s; i < std::min(d.size(), s + 512); ++i) {
                if (k == 1) d[i] = i < old.size() ? old[i] : 0;
                else if (k == 2) d[i] = 0;
            }
        }
        return d;
    }
    default: {                                         // truncation lost: new bytes over the old file
        string d = old;
        size_t n = r.below((u32)cur.size() + 1);
        if (d.size() < n) d.resize(n);
        memcpy(&d[0], cur.data(), n);
        if (!hadOld) d.resize(n + r.below(700), (char)0xF6);
        return d;
    }
    }
}
void Disk::powerLoss(u64 seed) {
    map<string, string> cur = snapshot();
    std::set<string> names;
    for (auto& i : cur) names.insert(i.first);
    for (auto& i : durable) names.insert(i.first);
    map<string, std::shared_ptr<FileNode>> nf;
    for (auto& n : names) {
        bool hadOld = durable.count(n), hasNew = cur.count(n);
        const string old = hadOld ? durable[n] : "", now = hasNew ? cur[n] : "";
        bool exists = true; string d;
        if (hadOld && hasNew && old == now) d = old;
        else if (!hasNew) { exists = mix64(seed, hashStr(n)) & 1; d = old; }   // removal lost or kept
        else d = tornContent(hadOld, old, now, mix64(seed, hashStr(n)), exists);
        if (exists) { auto p = std::make_shared<FileNode>(); p->data = d; nf[n] = p; }
    }
    files = nf;
    syncAll();
}
