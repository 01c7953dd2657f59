// Scenarios on directory trees and what is checked about them.
#pragma once
#include "fsmodel.hpp"

struct Scn {
    V<Ent> world;           // below T
    V<S> args = {"."};
    V<S> flags;             // options, before the arguments
    S conf;                 // configuration, "" = built-in
    S seq;                  // -s
    V<S> ignore = {"{arch}"};
    const RSeq *rseq = nullptr;
    bool outside = true;    // there is a directory next to the tree
    bool casefold = false;
    bool records = false;   // see arrow_lines
    V<S> argv0;             // replaces "detox"
    V<S> raw;               // the whole command line, if it is not the usual one
    V<std::pair<S, S>> env;
    S in;                   // standard input
    V<std::pair<S, HookArea::StatEdit>> edits;  // path below T, what is claimed about it
    int order = ORDER_ALL;
};
inline bool has(const V<S> &v, const S &x) { return std::find(v.begin(), v.end(), x) != v.end(); }

struct Change { uint64_t dir; S from, to; uint64_t ino; };

struct Ctx {
    Worker *w; const Scn *s; Snap a, b; uint64_t T; const Result *R; FsOpts o;
    V<Change> changes; S change_error;

    char type(uint64_t i) const { auto x = a.info.find(i); return x == a.info.end() ? 0 : x->second.t; }
};

inline uint64_t tree_ino(const Snap &s)
{
    uint64_t i = s.root;
    for (const char *n : {"pad1", "pad2", "T"}) { auto d = s.dirs.find(i); if (d == s.dirs.end()) return 0; auto e = d->second.find(n); if (e == d->second.end()) return 0; i = e->second; }
    return i;
}

inline FsOpts opts_of(const Scn &s)
{
    FsOpts o;
    for (auto &f : s.flags) {
        if (f == "-r" || f == "--recursive") o.recurse = true;
        else if (f == "--special") o.special = true;
        else if (f == "-n" || f == "--dry-run") o.dry = true;
        else if (f == "-v" || f == "--verbose") o.verbose = true;
        else if (f.size() > 2 && f[0] == '-' && f[1] != '-') for (char c : f) { if (c == 'r') o.recurse = true; if (c == 'n') o.dry = true; if (c == 'v') o.verbose = true; }
    }
    o.ignore = s.ignore;
    const RSeq *q = s.rseq ? s.rseq : &stock_seq(s.seq.empty() ? "default" : s.seq);
    o.clean = [q](const S &n) { return n == "." || n == ".." ? n : ref_seq(*q, n); };
    return o;
}

inline void setup_scn(Worker &w, const Scn &s)
{
    wipe(w.top);
    mkdirs(w.tree);
    if (s.outside) {
        mkdir((w.top + "/out").c_str(), 0755);
        build_world(w.top + "/out", {{"o o", 'f', "outside"}, {"e e", 'd', ""}, {"e e/i i", 'f', "deep outside"}});
        build_world(w.top + "/pad1/pad2", {{"n n", 'f', "next to"}});
    }
    build_world(w.tree, s.world);
    if (!s.conf.empty()) write_file(w.dir + "/conf", s.conf);
}

inline Run run_of(Worker &w, const Scn &s)
{
    Run r;
    r.env = s.env; r.stdin_data = s.in;
    r.argv = s.argv0.empty() ? V<S>{"detox"} : s.argv0;
    if (!s.raw.empty()) r.argv = s.raw;
    else {
    if (!s.conf.empty()) { r.argv.push_back("-f"); r.argv.push_back(w.dir + "/conf"); }
    if (!s.seq.empty()) { r.argv.push_back("-s"); r.argv.push_back(s.seq); }
    for (auto &f : s.flags) r.argv.push_back(f);
    for (auto &a : s.args) r.argv.push_back(a.compare(0, 3, "@T/") == 0 ? w.tree + a.substr(2) : a);
    }
    S root = w.root;
    bool cf = s.casefold; int od = s.order;
    auto ed = s.edits; S tree = w.tree;
    r.hooks = [root, cf, od, ed, tree](HookArea &h) {
        for (auto &e : ed) { struct stat st; if (lstat((tree + "/" + e.first).c_str(), &st) == 0) { h.edit[h.n_edit] = e.second; h.edit[h.n_edit++].ino = st.st_ino; } }
        snprintf(h.root, sizeof h.root, "%s", root.c_str()); h.casefold = cf; h.order = od; h.rot = 7; };
    return r;
}
inline Run with_hooks(Run r, std::function<void(HookArea &)> f)
{
    auto g = r.hooks;
    r.hooks = [g, f](HookArea &h) { g(h); f(h); };
    return r;
}

inline S describe_scn(const Scn &s)
{
    S t = "tree:\n";
    for (auto &e : s.world) { t += "  "; t += e.t; t += " " + qs(e.path) + (e.data.empty() ? "" : " " + qs(e.data)) + "\n"; if (t.size() > 6000) { t += "  ...\n"; break; } }
    for (auto &e : s.edits) {
        auto &x = e.second; char b[300];
        snprintf(b, sizeof b, "  %s appears with", qs(e.first).c_str()); t += b;
        if (x.fmt) { snprintf(b, sizeof b, " type %06o", x.fmt); t += b; }
        if (x.has_perm) { snprintf(b, sizeof b, " mode %04o", x.perm); t += b; }
        if (x.has_uid) { snprintf(b, sizeof b, " owner %d", x.uid); t += b; }
        if (x.dev) { snprintf(b, sizeof b, " device +%lld", x.dev); t += b; }
        if (x.inode) { snprintf(b, sizeof b, " inode +%lld", x.inode); t += b; }
        if (x.rdev) { snprintf(b, sizeof b, " rdev +%lld", x.rdev); t += b; }
        if (x.nlink >= 0) { snprintf(b, sizeof b, " %d links", x.nlink); t += b; }
        if (x.has_size) { snprintf(b, sizeof b, " size %lld", x.size); t += b; }
        if (x.has_mtime) { snprintf(b, sizeof b, " time %lld", x.mtime); t += b; }
        t += "\n";
    }
    if (!s.conf.empty()) t += "configuration:\n" + s.conf.substr(0, 4000);
    return t;
}

// what changed: every (name, inode) pair that went away matched with the one that came
inline void find_changes(Ctx &c)
{
    for (auto &d : c.a.dirs) {
        auto e = c.b.dirs.find(d.first);
        if (e == c.b.dirs.end()) { c.change_error = "directory lost"; return; }
        std::map<uint64_t, V<S>> gone, came;
        for (auto &n : d.second) { auto x = e->second.find(n.first); if (x == e->second.end() || x->second != n.second) gone[n.second].push_back(n.first); }
        for (auto &n : e->second) { auto x = d.second.find(n.first); if (x == d.second.end() || x->second != n.second) came[n.second].push_back(n.first); }
        for (auto &g : gone) {
            auto k = came.find(g.first);
            if (k == came.end() || k->second.size() != g.second.size()) { c.change_error = "entry " + qs(g.second[0]) + " left its directory or lost a name"; return; }
            auto to = k->second;
            for (auto &f : g.second) {
                S want = c.o.clean(f);
                auto it = std::find(to.begin(), to.end(), want);
                if (it == to.end()) it = to.begin();
                c.changes.push_back({d.first, f, *it, g.first});
                to.erase(it);
            }
            came.erase(k);
        }
        if (!came.empty()) { c.change_error = "a new name " + qs(came.begin()->second[0]) + " appeared"; return; }
    }
}

// the entries that are candidates: (directory, name), and the ignored or hidden ones below the arguments
struct Scope { std::set<std::pair<uint64_t, S>> in; };
inline void scope_dir(const Ctx &c, uint64_t ino, Scope &sc)
{
    auto d = c.a.dirs.find(ino);
    if (d == c.a.dirs.end()) return;
    for (auto &e : d->second) {
        if (e.first[0] == '.' || has(c.o.ignore, e.first)) continue;
        char t = c.type(e.second);
        if (t == 'f' || t == 'd' || c.o.special) sc.in.insert({ino, e.first});
        if (t == 'd' && c.o.recurse) scope_dir(c, e.second, sc);
    }
}
inline Scope scope_of(Ctx &c)
{
    Scope sc; Model m{&c.a, &c.o};
    Snap &a = c.a;
    for (auto &arg : c.s->args) {
        uint64_t parent, ino; S name;
        S p = arg.compare(0, 3, "@T/") == 0 ? arg.substr(3) : arg;
        if (arg.empty() || !m.resolve(a.dirs, c.T, p, parent, name, ino, "")) continue;
        char t = c.type(ino);
        if (!name.empty() && (t == 'f' || t == 'd' || c.o.special)) sc.in.insert({parent, name});
        if (t == 'd') scope_dir(c, ino, sc);
    }
    return sc;
}
inline S path_of(const Snap &s, uint64_t ino)
{
    for (auto &d : s.dirs) for (auto &e : d.second) if (e.second == ino) return (d.first == s.root ? S("") : path_of(s, d.first) + "/") + e.first;
    return "";
}
inline V<S> plain_args(const Scn &s)
{
    V<S> v;
    for (auto a : s.args) v.push_back(a.compare(0, 3, "@T/") == 0 ? a.substr(3) : a);
    return v;
}
inline S check_changes_exact(const Ctx &c)
{
    if (!c.change_error.empty()) return c.change_error;
    for (auto &x : c.changes) {
        S want = c.o.clean(x.from);
        if (x.to != want) return "entry " + qs(x.from) + " was renamed to " + qs(x.to) + ", the sequence gives " + qs(want);
    }
    return "";
}
inline S check_scope(Ctx &c)
{
    Scope sc = scope_of(c);
    for (auto &x : c.changes)
        if (!sc.in.count({x.dir, x.from})) return "entry " + qs(path_of(c.a, x.dir) + "/" + x.from) + " was renamed, but is not a candidate";
    return "";
}
inline S check_model(Ctx &c)
{
    Model m{&c.a, &c.o};
    Snap a = c.a; a.root = c.T;
    m.s0 = &a;
    auto outs = m.args(plain_args(*c.s), "");
    if (m.capped) return "";
    if (outs.count(c.b.dirs)) return "";
    S t = "the tree after the run is none of the " + std::to_string(outs.size()) + " possible ones\nafter:\n" + c.b.text();
    Snap e = c.b; e.dirs = *outs.begin(); e.info = c.a.info;
    return t + "one of the possible ones:\n" + e.text();
}
inline bool is_taken(const Ctx &c, uint64_t dir, const S &n) { auto d = c.a.dirs.find(dir); return d != c.a.dirs.end() && d->second.count(n); }

// lines "old -> new" on stdout
struct Line { S old_, new_; };
// records: every path starts with w and a number, and there may be newlines and arrows in names
inline V<Line> arrow_lines(const S &out, V<S> *others = nullptr, bool records = false)
{
    V<Line> v;
    auto path_at = [&](size_t p) { return p + 1 < out.size() && out[p] == 'w' && isdigit((unsigned char)out[p + 1]); };
    size_t p = 0;
    while (p < out.size()) {
        size_t e = out.find('\n', p);
        while (records && e != S::npos && e + 1 < out.size() && !path_at(e + 1) && !(out.compare(e + 1, 10, "Scanning: ") == 0 && path_at(e + 11))) e = out.find('\n', e + 1);
        if (e == S::npos) e = out.size();
        S l = out.substr(p, e - p);
        size_t k = l.find(" -> ");
        while (records && k != S::npos && !path_at(p + k + 4)) k = l.find(" -> ", k + 1);
        p = e + 1;
        if (k == S::npos) { if (others) others->push_back(l); }
        else v.push_back({l.substr(0, k), l.substr(k + 4)});
    }
    return v;
}
// the directories a printed path may mean, when every component may be the name before or after the run
inline void walk_path(const Ctx &c, uint64_t from, const V<S> &comps, size_t i, std::set<uint64_t> &out)
{
    std::set<uint64_t> now = {from};
    for (; i < comps.size(); i++) {
        if (comps[i] == ".") continue;
        std::set<uint64_t> next;
        for (auto at : now) {
            for (auto *s : {&c.a, &c.b}) {
                auto d = s->dirs.find(at);
                if (d == s->dirs.end()) continue;
                auto e = d->second.find(comps[i]);
                if (e != d->second.end() && c.type(e->second) == 'd') next.insert(e->second);
            }
            if (comps[i] == "..") for (auto &d : c.a.dirs) for (auto &e : d.second) if (e.second == at) next.insert(d.first);
        }
        now = next;
    }
    out.insert(now.begin(), now.end());
}
inline bool split_path(const S &p0, const S &treepath, V<S> &comps, S &base)
{
    S p = p0;
    if (!p.empty() && p[0] == '/') { if (p.compare(0, treepath.size() + 1, treepath + "/")) return false; p = p.substr(treepath.size() + 1); }
    size_t k = p.rfind('/');
    base = k == S::npos ? p : p.substr(k + 1);
    S d = k == S::npos ? "" : p.substr(0, k), c;
    comps.clear();
    for (char ch : d) { if (ch == '/') { if (!c.empty()) comps.push_back(c); c.clear(); } else c += ch; }
    if (!c.empty()) comps.push_back(c);
    return true;
}

// runs a scenario under an explorer and judges every execution
typedef std::function<S(Ctx &)> Oracle;
inline void explore_scn(Worker &w, const Scn &s, const std::function<void(HookArea &)> &hooks, const Oracle &oracle, uint64_t max = 2000000)
{
    Ctx base; base.w = &w; base.s = &s; base.o = opts_of(s); base.R = nullptr;
    Snap a; uint64_t T = 0;
    Run r = run_of(w, s);
    if (hooks) r = with_hooks(r, hooks);
    explore(w, r, [&] { setup_scn(w, s); a = snapshot(w.top); T = tree_ino(a); },
        [&](const Result &R) -> S {
            Ctx c = base; c.a = a; c.T = T; c.R = &R; c.b = snapshot(w.top);
            find_changes(c);
            if (seen_new(mix(c.a.hash_names(), mix(c.b.hash_names(), 4711)))) G->outcomes++;
            if (R.escapes) return "changed or tried to change something outside of the tree: " + R.escape_path;
            return oracle(c);
        },
        [&] { return describe_scn(s) + "before:\n" + a.text(); }, max);
}

// all choices of up to k names with a type each
struct Pick { uint8_t n; uint8_t name[6], type[6]; };
inline V<Pick> picks_upto(int names, int types, int k, int mink = 1)
{
    V<Pick> v;
    for (int want = mink; want <= k; want++) {
        std::function<void(Pick, int)> rec = [&](Pick p, int from) {
            if (p.n == want) { v.push_back(p); return; }
            for (int i = from; i < names; i++)
                for (int t = 0; t < types; t++) { Pick q = p; q.name[q.n] = i; q.type[q.n] = t; q.n++; rec(q, i + 1); }
        };
        rec(Pick{0}, 0);
    }
    return v;
}
// one entry of a world: type codes f d l L p h e
inline void add_entry(V<Ent> &w, const S &name, char t, int i)
{
    switch (t) {
        case 'f': w.push_back({name, 'f', "content of " + name}); break;
        case 'e': w.push_back({name, 'd', ""}); break;
        case 'd': w.push_back({name, 'd', ""}); w.push_back({name + "/c d", 'f', "child of " + name}); w.push_back({name + "/ok", 'f', "second child of " + name}); break;
        case 'l': w.push_back({name, 'l', "nowhere" + std::to_string(i)}); break;
        case 'L': w.push_back({name, 'l', "../../../out"}); break;
        case 'p': w.push_back({name, 'p', ""}); break;
        case 'h': {
            S first;
            for (auto &e : w) if (e.t == 'f' && e.path.find('/') == S::npos) { first = e.path; break; }
            if (first.empty()) w.push_back({name, 'f', "content of " + name}); else w.push_back({name, 'h', first});
            break;
        }
    }
}
inline V<Ent> world_of(const Pick &p, const V<S> &names, const char *types, const S &prefix = "")
{
    V<Ent> w;
    for (int i = 0; i < p.n; i++) {
        V<Ent> x;
        add_entry(w, names[p.name[i]], types[p.type[i]], i);
    }
    (void)prefix;
    return w;
}
// every way to cut s in two, and s byte by byte
inline V<V<S>> cuts(const S &s)
{
    V<V<S>> v = {{s}};
    for (size_t k = 1; k < s.size(); k++) v.push_back({s.substr(0, k), s.substr(k)});
    V<S> b; for (char c : s) b.push_back(S(1, c));
    v.push_back(b);
    return v;
}
inline S cut_text(const V<S> &v) { return v.size() > 2 ? S("byte by byte") : v.size() < 2 ? S("whole") : "after " + std::to_string(v[0].size()) + " bytes"; }
