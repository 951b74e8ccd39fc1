// Simulated disk: flat name space, capacity limit, page cache that a power loss may tear.
#pragma once
#include "core.h"
#include <memory>

struct FileNode { string data; bool readonly = false; };
struct Disk {
    map<string, std::shared_ptr<FileNode>> files;
    map<string, string> durable;      // content known to be on stable storage
    bool ci = false;                  // case-insensitive names (DOS)
    long long capacity = -1;          // bytes, -1 = unlimited
    string free;                      // this file takes no space
    string key(const string& n) const;
    void put(const string& n, const string& d) { auto p = std::make_shared<FileNode>(); p->data = d; files[key(n)] = p; }
    void load(const map<string, string>& m) { for (auto& i : m) put(i.first, i.second); }
    void syncAll() { durable.clear(); for (auto& i : files) durable[i.first] = i.second->data; }
    FileNode* find(const string& n) { auto i = files.find(key(n)); return i == files.end() ? nullptr : i->second.get(); }
    long long used() const { long long u = 0; for (auto& i : files) if (free.empty() || i.first != free) u += (long long)i.second->data.size(); return u; }
    map<string, string> snapshot() const { map<string, string> m; for (auto& i : files) m[i.first] = i.second->data; return m; }
    // how many of n bytes at pos fit
    size_t room(const FileNode& f, size_t pos, size_t n) const;
    void powerLoss(u64 seed);         // what survives is decided by seed alone
};
string tornContent(bool hadOld, const string& old, const string& cur, u64 seed, bool& exists);
