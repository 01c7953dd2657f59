// Families of trees and arguments.
#pragma once
#include "oddnames.hpp"
#include "fscommon.hpp"

static const V<S> NAMES = {"a b", "a_b", "a?b", "-", "a", " a", ".h h", "{arch}", "...", "x&y", "a  b", "(z)"};
static const V<V<S>> FLAGS = {{}, {"-r"}, {"--special"}, {"-r", "--special"}};

static void fs_rule(const S &s)
{
    RULE = s;
    EXHAUSTIVE = true;
}
static void sample_scn(const Scn &s, const S &tail = "")
{
    sample(describe_scn(s) + "args: " + joinargs(s.flags) + " " + joinargs(s.args) + (s.seq.empty() ? "" : " sequence " + s.seq) + tail);
}

// ---------------------------------------------------------------- families of trees
typedef std::function<void(Worker &, const Scn &)> ScnFn;

// one directory with up to k entries of every name and type, every listing order
static void fam_small(const S &name, int nnames, const char *types, int mink, int k, const V<V<S>> &flags, const ScnFn &fn, const S &seq = "", const V<S> *names = nullptr)
{
    auto ps = picks_upto(nnames, strlen(types), k, mink);
    const V<S> *nm = names ? names : &NAMES;
    family(name, ps.size() * flags.size(), [&, nm](Worker &w, uint64_t i) {
        Scn s;
        s.world = world_of(ps[i / flags.size()], *nm, types);
        s.flags = flags[i % flags.size()];
        s.seq = seq;
        if (i % 997 == 3) sample_scn(s);
        fn(w, s);
    });
}
// chains of directories: every level has one directory and up to two other entries
static void fam_deep(const S &name, int depth, const V<V<S>> &flags, const ScnFn &fn)
{
    static const V<S> dn = {"d d", "d_d", "ok", ".h", "{arch}", "-"};
    static const V<V<S>> other = {{}, {"a b"}, {"a_b", "a b"}, {"d?d"}, {"x"}};
    uint64_t per = dn.size() * other.size(), n = 1;
    for (int i = 0; i < depth; i++) n *= per;
    family(name, n * flags.size(), [&, n, per](Worker &w, uint64_t i) {
        Scn s; S at; uint64_t k = i / flags.size();
        for (int l = 0; l < depth; l++) {
            uint64_t v = k % per; k /= per;
            const S &d = dn[v % dn.size()];
            s.world.push_back({at + d, 'd', ""});
            for (auto &f : other[v / dn.size()]) if (f != d) s.world.push_back({at + f, 'f', "level " + std::to_string(l) + f});
            at += d + "/";
        }
        s.world.push_back({at + "la st", 'f', "last"});
        s.flags = flags[i % flags.size()];
        if (i % 4999 == 17) sample_scn(s);
        fn(w, s);
    });
}
// argument lists
static const V<Ent> ARGW = {
    {"d d", 'd', ""}, {"d d/f f", 'f', "1"}, {"d d/s s", 'd', ""}, {"d d/s s/g g", 'f', "2"}, {"d d/f_g", 'f', "3"},
    {"a b", 'f', "4"}, {"a?b", 'f', "5"}, {"c_d", 'f', "6"}, {"c d", 'f', "7"}, {".h h", 'd', ""}, {".h h/i i", 'f', "8"},
    {"l l", 'l', "d d"}, {"m m", 'l', "gone"}, {"{arch}", 'd', ""}, {"{arch}/j j", 'f', "9"}, {"p p", 'p', ""}, {"-x y", 'f', "10"}, {"...", 'f', "11"}};
static const V<S> ARGS = {"a b", "a?b", "c d", "d d", "d d/", "d d/f f", "d d/s s", "./a b", ".", "..", "missing one", "", ".h h", "l l", "m m", "{arch}", "p p", "./-x y",
    "@T/a b", "@T/d d", "d d/./f f", "d d//f f", "./d d/../a b", "d d/s s/", "...", "{arch}/j j", "l l/f f", "a b/"};
static bool arg_ok(const S &a)   // arguments that lead through links or out of the tree are for F04 only
{
    return a != ".." && a != "l l/f f" && a != "./d d/../a b" && a != "a b/";
}
static void fam_args(const S &name, int k, const V<V<S>> &flags, const ScnFn &fn, bool all = false)
{
    V<S> pool;
    for (auto &a : ARGS) if (all || arg_ok(a)) pool.push_back(a);
    uint64_t n = 1;
    for (int i = 0; i < k; i++) n *= pool.size();
    family(name, n * flags.size() * 2, [=, &flags](Worker &w, uint64_t i) {
        Scn s; s.world = ARGW; s.args.clear();
        s.order = i % 2 ? ORDER_REVERSE : ORDER_SORTED;
        uint64_t v = i / 2 / flags.size();
        for (int j = 0; j < k; j++) { s.args.push_back(pool[v % pool.size()]); v /= pool.size(); }
        s.flags = flags[i / 2 % flags.size()];
        if (i % 1999 == 11) sample_scn(s);
        fn(w, s);
    });
}
// many entries in one directory: lengths around every growth step
static void fam_many(const S &name, const V<int> &counts, const V<V<S>> &flags, const ScnFn &fn)
{
    family(name, counts.size() * flags.size() * 3, [&](Worker &w, uint64_t i) {
        int n = counts[i / (flags.size() * 3)], kind = i % 3;
        Scn s; s.flags = flags[(i / 3) % flags.size()];
        char b[300];
        for (int j = 0; j < n; j++) {
            if (kind == 0) snprintf(b, sizeof b, "f %04d", j);
            else if (kind == 1) snprintf(b, sizeof b, j % 3 ? "e_%04d" : "e %04d x", j);
            else snprintf(b, sizeof b, "%0*d n", 20 + j % 200, j);
            s.world.push_back({b, kind == 1 && j % 5 == 0 ? 'd' : 'f', "#" + std::to_string(j)});
            if (kind == 1 && j % 5 == 0) s.world.push_back({S(b) + "/in side", 'f', "in" + std::to_string(j)});
        }
        if (n <= 4) sample_scn(s);
        fn(w, s);
    });
}
// entries of every type with every attribute the system may report: permissions, owner, device, links, size, times
struct Attr { char t; HookArea::StatEdit e; };
static HookArea::StatEdit plain_edit() { HookArea::StatEdit e = {}; e.nlink = -1; return e; }
static V<Attr> attrs()
{
    V<Attr> v;
    for (unsigned f : {(unsigned)S_IFCHR, (unsigned)S_IFBLK, (unsigned)S_IFIFO, (unsigned)S_IFSOCK}) { auto e = plain_edit(); e.fmt = f; v.push_back({'p', e}); for (long long r : {0x103ll, 0x801ll, 1ll << 40}) { e.rdev = r; v.push_back({'p', e}); } }
    v.push_back({'s', plain_edit()});
    for (char t : {'f', 'd', 'l', 'L', 'p'}) {
        for (unsigned p : {0u, 0400u, 0444u, 0200u, 0111u, 0555u, 0777u, 04755u, 02755u, 06777u, 01777u}) { auto e = plain_edit(); e.has_perm = true; e.perm = p; v.push_back({t, e}); }
        for (int u : {0, 1000, 65534, -1}) { auto e = plain_edit(); e.has_uid = true; e.uid = u; v.push_back({t, e}); }
        for (long long d : {1ll, -1ll, 256ll, 1ll << 16, 1ll << 32, 1ll << 44}) { auto e = plain_edit(); e.dev = d; v.push_back({t, e}); }
        for (long long d : {1ll << 31, 1ll << 32, 1ll << 62}) { auto e = plain_edit(); e.inode = d; v.push_back({t, e}); }
        for (int n : {0, 1, 2, 3, 65000}) { auto e = plain_edit(); e.nlink = n; v.push_back({t, e}); }
        for (long long z : {0ll, 1ll, 4096ll, (1ll << 31) - 1, 1ll << 31, 1ll << 32, 1ll << 40, -1ll}) { auto e = plain_edit(); e.has_size = true; e.size = z; v.push_back({t, e}); }
        for (long long z : {0ll, -1ll, (1ll << 31) - 1, 1ll << 31, 1ll << 33}) { auto e = plain_edit(); e.has_mtime = true; e.mtime = z; v.push_back({t, e}); }
    }
    return v;
}
static void fam_attr(const S &name, const V<V<S>> &flags, const ScnFn &fn)
{
    auto at = attrs();
    family(name, at.size() * flags.size() * 5, [=, &flags](Worker &w, uint64_t i) {
        Scn s; int how = i % 5; i /= 5;
        s.flags = flags[i % flags.size()]; const Attr &a = at[i / flags.size()];
        static const char *where[] = {"q q", "q q", "d d/q q", "d d/q q", "d d/e e/q q"};
        if (how >= 2) s.world.push_back({"d d", 'd', ""});
        if (how >= 4) s.world.push_back({"d d/e e", 'd', ""});
        S p = where[how];
        if (a.t == 's') s.world.push_back({p, 's', ""});
        else { V<Ent> x; add_entry(x, "q q", a.t, 0); for (auto &e : x) { e.path = p.substr(0, p.size() - 3) + e.path; s.world.push_back(e); } }
        if (how == 1 || how == 2) { s.world.push_back({"a a", 'f', "a"}); s.world.push_back({"z z", 'd', ""}); s.world.push_back({"z z/y y", 'f', "y"}); }
        if (how >= 2) { s.world.push_back({"d d/a a", 'f', "a"}); s.world.push_back({"d d/z z", 'd', ""}); s.world.push_back({"d d/z z/y y", 'f', "y"}); }
        s.args = how == 0 ? V<S>{"q q"} : how == 2 ? V<S>{"d d/q q", "a a"} : how == 3 ? V<S>{"d d"} : V<S>{"."};
        s.edits = {{p, a.e}};
        if (how == 4) { s.order = ORDER_SORTED; }
        if (i % 97 == 3) sample_scn(s);
        fn(w, s);
    });
}
// many entries that cannot have their new names, in one directory, in a chain of directories, and as arguments
static void fam_refused(const V<V<S>> &flags, const ScnFn &fn)
{
    static const V<int> num = {1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 20, 21, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1000, 1025, 2049};
    family("numbers of refusals", num.size() * flags.size() * 4, [&flags, &fn](Worker &w, uint64_t i) {
        int how = i % 4; i /= 4; Scn s; s.order = ORDER_SORTED; s.flags = flags[i % flags.size()]; int n = num[i / flags.size()];
        if (n > 600 && how > 1 && !O.thorough) return;
        if (how == 2) s.args.clear();
        for (int k = 0; k < n; k++) {
            S b = "r" + std::to_string(k), at = how == 1 ? "d" + std::to_string(k % 7) + "/" : "";
            if (how == 1 && k < 7) s.world.push_back({"d" + std::to_string(k), 'd', ""});
            s.world.push_back({at + b + " x", 'f', "1"}); s.world.push_back({at + b + "_x", how == 3 && k % 2 ? 'd' : 'f', how == 3 && k % 2 ? "" : "2"});
            if (how == 2) s.args.push_back(b + " x");
            if (how == 3 && k % 3 == 0) s.world.push_back({b + " y", 'f', "3"});
        }
        fn(w, s);
    });
}
static V<int> upto(int a, int b) { V<int> v; for (int i = a; i <= b; i++) v.push_back(i); return v; }
// sizes: one of every kind of entry, at every length of a name, of a path, depth, number of entries and of arguments
static void one_of_each(V<Ent> &w, const S &at, const S &base, const S &tail)
{
    auto cut = [](S n) { return n.substr(0, 255); };
    w.push_back({at + cut(base + " f" + tail), 'f', "f"}); w.push_back({at + cut(base + "?t" + tail), 'f', "t1"}); w.push_back({at + cut(base + "_t" + tail), 'f', "t2"});
    w.push_back({at + cut(base + "&l" + tail), 'l', "nowhere"}); w.push_back({at + cut("." + base + " h" + tail), 'f', "h"}); w.push_back({at + cut(base + "_ok" + tail), 'f', "ok"}); w.push_back({at + cut(base + " p" + tail), 'p', ""});
    w.push_back({at + cut(base + " L" + tail), 'l', "."});
    S d = at + cut(base + " d" + tail);
    w.push_back({d, 'd', ""}); w.push_back({d + "/i i", 'f', "i"});
}
// names: every byte at every kind of place, pairs of bytes that mean something, words that mean something to somebody
static void fam_names(const V<V<S>> &flags, const ScnFn &fn)
{
    static const auto &pool = odd_names();
    static const std::map<S, RSeq> rs = {{"", stock_seq("default")}, {"utf_8", stock_seq("utf_8")}, {"lower", stock_seq("lower")}};
    static const V<S> seqs = {"", "utf_8", "lower"};
    const int PER = 20; uint64_t n = (pool.size() + PER - 1) / PER;
    family("names: every byte, words", n * flags.size() * seqs.size() * 2, [&flags, &fn, n](Worker &w, uint64_t i) {
        Scn s; uint64_t g = i % n; i /= n; s.flags = flags[i % flags.size()]; i /= flags.size(); s.seq = seqs[i % seqs.size()]; bool named = i / seqs.size();
        if (!O.thorough && named && (g + i) % 3) return;
        s.order = g % 2 ? ORDER_SORTED : ORDER_REVERSE; s.args.clear(); s.records = true;
        for (int j = 0; j < PER && g * PER + j < pool.size(); j++) {
            const S &x = pool[g * PER + j]; S at = "w" + std::to_string(j);
            if (x == "." || x == "..") continue;
            s.world.push_back({at, 'd', ""}); if (!named) s.args.push_back(at); at += "/";
            s.world.push_back({at + x, j % 5 == 1 ? 'd' : j % 5 == 2 ? 'l' : 'f', j % 5 == 2 ? "nowhere" : j % 5 == 1 ? "" : "1"});
            if (j % 5 == 1) { s.world.push_back({at + x + "/" + x, 'f', "2"}); s.world.push_back({at + x + "/i i", 'f', "3"}); }
            if (named) s.args.push_back(at + x);
            S t = ref_seq(rs.at(s.seq), x);     // taken
            if ((j + g) % 4 == 3 && t != x && !t.empty() && t != "." && t != ".." && t.find('/') == S::npos && t.size() < 256) s.world.push_back({at + t, j % 3 == 1 ? 'd' : 'f', j % 3 == 1 ? "" : "4"});
        }
        fn(w, s);
    });
}
static void fam_sizes(const V<V<S>> &flags, const ScnFn &fn)
{
    family("sizes: names", 250 * flags.size(), [&](Worker &w, uint64_t i) {
        Scn s; s.order = ORDER_SORTED; s.flags = flags[i % flags.size()]; int len = i / flags.size() + 1;
        S pad; for (int k = 0; k < len; k++) pad += char('a' + k % 26);
        one_of_each(s.world, "", len % 2 ? pad : "", len % 2 ? "" : pad);
        fn(w, s);
    });
    static const V<int> quick = {1, 2, 3, 5, 8, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 260}, deep = [] { auto v = upto(1, 140); v.push_back(256); v.push_back(300); return v; }();
    const V<int> &n = O.thorough ? deep : quick;
    family("sizes: numbers of entries", n.size() * flags.size(), [&](Worker &w, uint64_t i) {
        Scn s; s.order = ORDER_SORTED; s.flags = flags[i % flags.size()]; int c = n[i / flags.size()];
        for (int k = 0; k < c; k++) one_of_each(s.world, "", "e" + std::to_string(k), "");
        fn(w, s);
    });
    static const V<int> qd = upto(1, 30), dd = upto(1, 60);
    const V<int> &d = O.thorough ? dd : qd;
    family("sizes: depth", d.size() * flags.size() * 2 * 4, [&](Worker &w, uint64_t i) {
        Scn s; s.order = i % 2 ? ORDER_SORTED : ORDER_REVERSE; i /= 2; static const char *dn[][2] = {{"dd", "D D"}, {"a", "a"}, {"d d", "d d"}, {"x", "x y"}}; auto &nm = dn[i % 4]; i /= 4; s.flags = flags[i % flags.size()]; int c = d[i / flags.size()]; S at;
        for (int k = 0; k < c; k++) { one_of_each(s.world, at, "e" + std::to_string(k), ""); at += nm[k % 3 != 1]; s.world.push_back({at, 'd', ""}); at += "/"; }
        one_of_each(s.world, at, "last", "");
        if (!has(s.flags, "-r")) { s.args = {at.substr(0, at.size() - 1), "./" + at + "last f"}; }
        fn(w, s);
    });
    int step = O.thorough ? 5 : 30;
    family("sizes: lengths of paths", 3400 / step * flags.size(), [&, step](Worker &w, uint64_t i) {
        Scn s; s.order = ORDER_SORTED; s.flags = flags[i % flags.size()]; int want = i / flags.size() * step + 4, lev = 0; S at;
        while ((int)at.size() < want) { int l = std::min(199, want - (int)at.size()); S x(l, 'p'); if (lev++ % 2) x[l / 2] = ' '; s.world.push_back({at + x, 'd', ""}); at += x + "/"; s.world.push_back({at + "f f", 'f', "l" + std::to_string(lev)}); }
        one_of_each(s.world, at, "last", "");
        if (!has(s.flags, "-r")) { s.args = {at.substr(0, at.size() - 1), "./" + at + "last f"}; }
        fn(w, s);
    });
    family("sizes: numbers of arguments", n.size() * flags.size(), [&](Worker &w, uint64_t i) {
        Scn s; s.order = ORDER_SORTED; s.flags = flags[i % flags.size()]; int c = n[i / flags.size()]; s.args.clear();
        for (int k = 0; k < c; k++) {
            S b = "e" + std::to_string(k); one_of_each(s.world, "", b, "");
            for (const char *t : {" f", "?t", "&l", "_ok", " p", " d", "missing"}) s.args.push_back(b + t);
        }
        fn(w, s);
    });
    fam_names(flags, fn);
}
static void hooks_sorted(HookArea &h) { h.order = ORDER_SORTED; }
static void hooks_reverse(HookArea &h) { h.order = ORDER_REVERSE; }

