// Model of what one run of detox may make of a tree: entries of a directory are dealt with one by one, in any order.
#pragma once
#include "mc.hpp"
#include "ref.hpp"

struct FsOpts { bool recurse = false, special = false, dry = false, verbose = false; V<S> ignore; std::function<S(const S &)> clean; bool casefold = false; };

// a state is a Snap whose dirs change; inodes and their info never do
typedef std::map<uint64_t, std::map<S, uint64_t>> Dirs;

struct Model {
    const Snap *s0;     // info
    const FsOpts *o;
    size_t cap = 20000;
    bool capped = false;

    char type(uint64_t ino) const { auto i = s0->info.find(ino); return i == s0->info.end() ? (ino == s0->root ? 'd' : 0) : i->second.t; }

    // all outcomes of renaming the given entries of one directory, in any order
    void dir_orders(const std::map<S, uint64_t> &m, V<S> todo, std::set<std::map<S, uint64_t>> &out)
    {
        // entries nobody competes with are dealt with first
        V<S> hard;
        std::map<S, S> to;
        std::map<S, int> want;
        std::map<S, uint64_t> cur = m;
        for (auto &e : todo) { S t = o->clean(e); if (t == e || !usable(t)) continue; to[e] = t; want[t]++; }
        for (auto &x : to) {
            if (want[x.second] == 1 && !m.count(x.second) && !to.count(x.second)) { cur[x.second] = cur[x.first]; cur.erase(x.first); }
            else if (m.count(x.second) && !to.count(x.second)) { /* taken by something that stays: refused */ }
            else hard.push_back(x.first);
        }
        std::sort(hard.begin(), hard.end());
        if (hard.size() > 7) { capped = true; out.insert(cur); return; }
        do {
            auto c = cur;
            for (auto &e : hard) if (!c.count(to[e])) { c[to[e]] = c[e]; c.erase(e); }
            out.insert(c);
        } while (std::next_permutation(hard.begin(), hard.end()));
    }
    static bool usable(const S &t) { return !t.empty() && t.size() <= 255 && t.find('/') == S::npos && t != "." && t != ".."; }
    bool ignored(const S &n) const
    {
        if (n[0] == '.') return true;
        for (auto &x : o->ignore) if (x == n) return true;
        return false;
    }
    std::set<Dirs> dir(const Dirs &d, uint64_t ino)
    {
        std::set<Dirs> res;
        V<S> todo; V<uint64_t> subs;
        for (auto &x : d.at(ino)) {
            if (ignored(x.first)) continue;
            char t = type(x.second);
            if (t == 'd') subs.push_back(x.second);
            if (t == 'f' || t == 'd' || o->special) todo.push_back(x.first);
        }
        std::set<std::map<S, uint64_t>> maps;
        dir_orders(d.at(ino), todo, maps);
        for (auto &m : maps) { Dirs n = d; n[ino] = m; res.insert(n); }
        if (o->recurse)
            for (auto s : subs) {
                std::set<Dirs> next;
                for (auto &x : res) { auto r = dir(x, s); next.insert(r.begin(), r.end()); if (next.size() > cap) { capped = true; break; } }
                res.swap(next);
            }
        return res;
    }
    // resolves a path below cwd without following a last symlink; returns inode of the directory and the name
    bool resolve(const Dirs &d, uint64_t cwd, const S &path, uint64_t &parent, S &name, uint64_t &ino, const S &abs_prefix)
    {
        S p = path;
        if (!p.empty() && p[0] == '/') {
            if (p.compare(0, abs_prefix.size(), abs_prefix) != 0) return false;
            p = p.substr(abs_prefix.size());
            while (!p.empty() && p[0] == '/') p.erase(0, 1);
        }
        bool slash = !p.empty() && p.back() == '/';
        V<S> comps; S c;
        for (char ch : p) { if (ch == '/') { if (!c.empty()) comps.push_back(c); c.clear(); } else c += ch; }
        if (!c.empty()) comps.push_back(c);
        V<uint64_t> at = {cwd};
        parent = 0; name = ""; ino = cwd;
        for (size_t i = 0; i < comps.size(); i++) {
            if (comps[i] == ".") { name = "."; continue; }
            if (comps[i] == "..") { if (at.size() < 2) return false; at.pop_back(); ino = at.back(); name = ".."; continue; }
            auto it = d.find(at.back());
            if (it == d.end()) return false;
            auto e = it->second.find(comps[i]);
            if (e == it->second.end()) return false;
            parent = at.back(); name = comps[i]; ino = e->second;
            if (type(ino) == 'd') at.push_back(ino);
            else if (i + 1 < comps.size() || slash) return false;
        }
        if (slash || name == "." || name == "..") name = "";   // nothing of it to rename
        return true;
    }
    std::set<Dirs> args(const V<S> &as, const S &abs_prefix)
    {
        std::set<Dirs> cur = {s0->dirs};
        for (auto &a : as) {
            std::set<Dirs> next;
            for (auto &d : cur) {
                uint64_t parent, ino; S name;
                if (a.empty() || !resolve(d, s0->root, a, parent, name, ino, abs_prefix)) { next.insert(d); continue; }
                char t = type(ino);
                Dirs n = d;
                if (!name.empty() && (t == 'd' || t == 'f' || o->special)) {
                    S c = o->clean(name);
                    if (c != name && usable(c) && !n[parent].count(c)) { n[parent][c] = ino; n[parent].erase(name); }
                }
                if (t == 'd') { auto r = dir(n, ino); next.insert(r.begin(), r.end()); }
                else next.insert(n);
                if (next.size() > cap) { capped = true; break; }
            }
            cur.swap(next);
        }
        return cur;
    }
};

// everything that was there is still there, in the same directory, unchanged. "" or what is wrong.
inline S check_nothing_lost(const Snap &a, const Snap &b)
{
    for (auto &x : a.info) {
        auto y = b.info.find(x.first);
        S what = S(1, x.second.t) + " #" + std::to_string(x.first);
        for (auto &d : a.dirs) for (auto &e : d.second) if (e.second == x.first) what += " " + qs(e.first);
        if (y == b.info.end()) return "lost: " + what;
        if (y->second.t != x.second.t || y->second.content != x.second.content) return "content or type changed: " + what;
        if (y->second.mode != x.second.mode) return "mode changed: " + what;
        if (y->second.nlink != x.second.nlink) return "number of links changed: " + what;
    }
    for (auto &x : b.info) if (!a.info.count(x.first)) return "appeared: #" + std::to_string(x.first) + " " + x.second.t;
    for (auto &d : a.dirs) {
        auto e = b.dirs.find(d.first);
        if (e == b.dirs.end()) return "directory lost";
        std::multiset<uint64_t> p, q;
        for (auto &n : d.second) p.insert(n.second);
        for (auto &n : e->second) q.insert(n.second);
        if (p != q) return "an entry left its directory (or the number of its names changed)";
    }
    return "";
}
