// Faults, other processes, being killed, no memory, case-insensitive filesystems.
#include "fsfam.hpp"

// ---------------------------------------------------------------- F09
// the part of the tree that a failing call concerns: entries (with all below), whole directories
struct Zone { std::set<std::pair<uint64_t, S>> entries; std::set<uint64_t> below; bool all = false, unknown = false; };
static void zone_of(const Ctx &c, const Fault &f, Zone &z)
{
    if (f.err == EMFILE || f.err == ENFILE) { z.all = true; return; }
    if (f.op == "fopen") return;    // a configuration that cannot be read is as good as none here
    S p = f.path;
    while (p.size() > 1 && p.back() == '/') p.pop_back();
    V<S> comps; S base;
    if (!split_path(p, c.w->tree, comps, base)) { if (p == c.w->tree) { z.all = true; return; } z.unknown = true; return; }
    std::set<uint64_t> ds; walk_path(c, c.T, comps, 0, ds);
    if (ds.empty()) { z.unknown = true; return; }
    if (base == "." || base == ".." || base.empty()) { z.all = true; return; }
    for (auto d : ds) {
        auto it = c.a.dirs.find(d);
        if (it == c.a.dirs.end()) continue;
        for (auto &e : it->second)
            if (e.first == base || c.o.clean(e.first) == base) { z.entries.insert({d, e.first}); if (c.type(e.second) == 'd' && f.op.compare(0, 6, "rename")) z.below.insert(e.second); }   // under its old name it is entered all the same
    }
}
static bool in_zone(const Ctx &c, const Zone &z, uint64_t d, const S &n)
{
    if (z.all || z.unknown || z.entries.count({d, n})) return true;
    for (uint64_t at = d; at != c.a.root;) {
        if (z.below.count(at)) return true;
        uint64_t up = 0;
        for (auto &x : c.a.dirs) for (auto &e : x.second) if (e.second == at) up = x.first;
        if (!up) break;
        at = up;
    }
    return false;
}
static S check_faulted(Ctx &c)
{
    if (c.R->signaled) return "ended by a signal";
    S e = check_nothing_lost(c.a, c.b); if (!e.empty()) return e;
    e = check_changes_exact(c); if (!e.empty()) return e;
    e = check_scope(c); if (!e.empty()) return e;
    for (auto &x : c.changes) {
        auto h = c.a.dirs.at(x.dir).find(x.to);
        if (h == c.a.dirs.at(x.dir).end()) continue;
        bool moved = false;
        for (auto &y : c.changes) if (y.dir == x.dir && y.from == x.to && y.ino == h->second) moved = true;
        if (!moved) return "the name " + qs(x.to) + " was taken over";
    }
    Zone z;
    for (auto &f : c.R->faults) zone_of(c, f, z);
    if (z.unknown) return "";
    Scope sc = scope_of(c);
    std::map<std::pair<uint64_t, S>, int> want;
    for (auto &x : sc.in) want[{x.first, c.o.clean(x.second)}]++;
    bool fd = false;
    for (auto &f : c.R->faults) if (f.err == EMFILE || f.err == ENFILE) fd = true;
    bool missing = false;
    for (auto &x : sc.in) {
        S t = c.o.clean(x.second);
        if (t == x.second || !Model::usable(t) || is_taken(c, x.first, t) || want[{x.first, t}] > 1) continue;
        bool done = false;
        for (auto &y : c.changes) if (y.dir == x.first && y.from == x.second) done = true;
        if (done) continue;
        missing = true;
        if (!in_zone(c, z, x.first, x.second)) return "entry " + qs(path_of(c.a, x.first) + "/" + x.second) + " was not renamed, although the failing call does not concern it";
    }
    if (missing && fd && !c.R->status && c.R->err.empty()) return "entries were skipped after running out of file descriptors, and nothing was reported";
    return "";
}
static Reg f09("F09", [] {
    fs_rule("every run over small trees, chains of directories and argument lists with every system call failing in every way of its kind (thorough: every pair of calls); the concerned entry or directory may be skipped, everything else must be as usual");
    int nf = O.thorough ? 2 : 1;
    auto one = [](Worker &w, const Scn &s) { for (auto o : {ORDER_SORTED, ORDER_REVERSE}) explore_scn(w, s, [o](HookArea &h) { h.faults = 1; h.order = o; }, check_faulted); };
    auto more = [](Worker &w, const Scn &s) { for (auto o : {ORDER_SORTED, ORDER_REVERSE}) explore_scn(w, s, [o](HookArea &h) { h.faults = 1; h.more_errnos = 1; h.order = o; }, check_faulted); };
    auto oneall = [](Worker &w, const Scn &s) { explore_scn(w, s, [](HookArea &h) { h.faults = 1; h.order = ORDER_ALL; }, check_faulted); };
    fam_small("one directory, 1 or 2 entries, one fault", 8, "fdlh", 1, 2, {{"-r"}, {"-r", "--special"}}, one);
    fam_small("one directory, 2 entries, one fault, every order", 5, "fd", 2, 2, {{"-r"}}, oneall);
    fam_small("one directory, 3 entries, one fault", O.thorough ? 7 : 4, "fd", 3, 3, {{"-r"}}, more);
    fam_deep("chain of 2 directories, one fault", O.thorough ? 2 : 1, {{"-r"}}, more);
    {   // a directory in the middle of others at each level
        static const V<V<Ent>> worlds = {
            {{"b b", 'd', ""}, {"b b/1 1", 'f', "1"}, {"b b/m m", 'd', ""}, {"b b/m m/2 2", 'f', "2"}, {"b b/z z", 'f', "3"}, {"a a", 'f', "4"}, {"c c", 'f', "5"}},
            {{"b b", 'd', ""}, {"b b/1 1", 'f', "1"}, {"c c", 'd', ""}, {"c c/2 2", 'f', "2"}, {"d d", 'd', ""}, {"d d/3 3", 'f', "3"}},
            {{"bb", 'd', ""}, {"bb/1 1", 'f', "1"}, {"bb/x_x", 'f', "t"}, {"bb/x x", 'f', "u"}, {"bb/y y", 'f', "v"}, {"a a", 'f', "w"}, {"a_a", 'd', ""}, {"a_a/k k", 'f', "x"}}};
        static const V<V<S>> as = {{"."}, {"@T/b b", "a a", "c c"}, {"bb", "b b", "c c", "d d", "a_a"}, {"a a", "missing", "b b", "c c"}};
        family("directories among files, " + std::to_string(nf) + " faults", worlds.size() * as.size() * 2, [&](Worker &w, uint64_t i) {
            Scn s; s.world = worlds[i % worlds.size()]; i /= worlds.size();
            s.args = as[i % as.size()]; s.flags = i / as.size() ? V<S>{"-r"} : V<S>{"-r", "-v", "--special"};
            explore_scn(w, s, [nf](HookArea &h) { h.faults = nf; h.more_errnos = nf == 1; h.order = ORDER_SORTED; }, check_faulted, 4000000);
            if (i == 1) sample_scn(s, " with " + std::to_string(nf) + " failing calls");
        });
    }
    if (O.thorough) fam_small("one directory, 1 or 2 entries, two faults", 6, "fdh", 1, 2, {{"-r"}}, [](Worker &w, const Scn &s) { explore_scn(w, s, [](HookArea &h) { h.faults = 2; h.order = ORDER_SORTED; }, check_faulted); });
    // a call that fails whenever it is made again, and one that fails for everything
    for (int st = 1; st <= 2; st++) {
        auto keeps = [st](Worker &w, const Scn &s) {
            explore_scn(w, s, [st](HookArea &h) { h.faults = 1; h.more_errnos = 1; h.sticky = st; h.order = ORDER_SORTED; }, [st](Ctx &c) -> S {
                if (st == 1) return check_faulted(c);
                if (c.R->timed_out) return "does not end";
                if (c.R->signaled) return "ended by a signal";
                S e = check_nothing_lost(c.a, c.b); if (!e.empty()) return e;
                e = check_changes_exact(c); if (!e.empty()) return e;
                return check_scope(c); });
        };
        S what = st == 1 ? ", a call that keeps failing" : ", a call that always fails";
        fam_small("one directory, 1 or 2 entries" + what, 6, "fdh", 1, 2, {{"-r"}}, keeps);
        fam_deep("chain of directories" + what, O.thorough ? 2 : 1, {{"-r"}}, keeps);
        fam_args("one argument" + what, 1, {{"-r"}}, keeps);
    }
    // without -r, as arguments
    fam_args("two arguments, one fault", 2, {{"-r"}}, [](Worker &w, const Scn &s) { if (O.thorough || s.order == ORDER_SORTED) explore_scn(w, s, [&](HookArea &h) { h.faults = 1; h.order = s.order; }, check_faulted); });
});

// ---------------------------------------------------------------- F10
// every file is where it was (or where its owner put it), under a name given by somebody or the filtered form of one
typedef std::function<S(const S &)> Fn;
static std::set<S> closure(std::set<S> names, const V<Fn> &fns)
{
    for (bool more = true; more;) {
        more = false;
        for (auto &n : std::set<S>(names)) for (auto &f : fns) if (names.insert(f(n)).second) more = true;
        if (names.size() > 200) break;
    }
    return names;
}
static S check_shared(const Snap &a, const Snap &b, const V<Fn> &fns)
{
    S e = check_nothing_lost(a, b); if (!e.empty()) return e;
    for (auto &d : a.dirs) for (auto &x : d.second) {
        std::set<S> ok = closure({x.first}, fns);
        bool found = false;
        for (auto &y : b.dirs.at(d.first)) if (y.second == x.second) {
            std::set<S> all = ok;
            for (auto &z : d.second) if (z.second == x.second) { auto c = closure({z.first}, fns); all.insert(c.begin(), c.end()); }
            if (!all.count(y.first)) return "entry " + qs(x.first) + " ended up as " + qs(y.first);
            found = true;
        }
        if (!found) return "entry " + qs(x.first) + " has no name left";
    }
    return "";
}
static const V<V<Ent>> F10W = {
    {{"a b", 'f', "1"}},
    {{"a b", 'f', "1"}, {"a?b", 'f', "2"}},
    {{"a b", 'f', "1"}, {"a_b", 'f', "2"}},
    {{"A B", 'f', "1"}, {"a b", 'f', "2"}},
    {{"a b", 'd', ""}, {"a b/c d", 'f', "2"}},
    {{"a b", 'd', ""}, {"a b/c d", 'f', "2"}, {"a?b", 'd', ""}, {"a?b/c d", 'f', "3"}},
    {{"A b", 'f', "1"}, {"A b2", 'h', "A b"}},
    {{"%2541", 'f', "1"}, {"%41", 'f', "2"}},
    {{"a b", 'f', "1"}, {"a_b", 'd', ""}, {"a_b/x y", 'f', "3"}},
    {{"A x", 'd', ""}, {"A x/B y", 'd', ""}, {"A x/B y/C z", 'f', "1"}},
};
static Reg f10("F10", [] {
    fs_rule("two detoxes (same and different sequences) on one small tree under every interleaving of their system calls with a bounded number of preemptions, and one detox with every single action of another process (create, mkdir, symlink, remove, rename) at every one of its system calls (thorough: every two); every inode that nobody else removed must survive in its directory with its content");
    static const V<std::pair<S, S>> seqs = {{"default", "default"}, {"default", "lower"}, {"uncgi", "default"}, {"lower", "utf_8"}, {"uncgi-only", "uncgi"}};
    int pre = O.thorough ? 3 : 2;
    static const V<V<S>> argv = {{"."}, {"."}};
    family("two detoxes, " + std::to_string(pre) + " preemptions", F10W.size() * seqs.size() * 2, [&](Worker &w, uint64_t i) {
        Scn s; s.world = F10W[i % F10W.size()]; i /= F10W.size();
        auto &q = seqs[i % seqs.size()]; i /= seqs.size();
        s.flags = {"-r"}; s.seq = q.first; s.order = ORDER_SORTED;
        if (i == 1) s.args = {"./" + s.world[0].path, "./" + s.world.back().path};
        Scn t = s; t.seq = q.second; t.order = ORDER_REVERSE;
        if (i == 1) t.args = {"./" + s.world[0].path};
        Run a = run_of(w, s), b = run_of(w, t);
        Snap s0;
        V<Fn> fns = {opts_of(s).clean, opts_of(t).clean};
        sample_scn(s, " together with sequence " + t.seq);
        explore_duo(w, a, b, pre, [&] { setup_scn(w, s); s0 = snapshot(w.top); }, [&](const Worker::Duo &D) -> S {
            if (D.a.signaled || D.b.signaled) return "ended by a signal";
            if (D.a.escapes + D.b.escapes) return "changed something outside of the tree: " + D.a.escape_path + D.b.escape_path;
            Snap b1 = snapshot(w.top);
            if (seen_new(mix(s0.hash_names(), mix(b1.hash_names(), 4713)))) G->outcomes++;
            S e = check_shared(s0, b1, fns);
            return e.empty() ? e : e + "\nafter:\n" + b1.text();
        }, [&] { return describe_scn(s) + "before:\n" + s0.text(); });
    });
    // actions of others
    struct Act { char op; const char *a, *b; };
    static const V<V<Act>> acts = {
        {{'c', "a_b", "new"}, {'d', "a_b", ""}, {'l', "a_b", "nowhere"}, {'u', "a b", ""}, {'r', "a b", "z z"}, {'r', "a?b", "a_b"}, {'c', "x y", "late"}, {'r', "a b", "a_b"}},
        {{'c', "a_b/c_d", "new"}, {'c', "a b/c_d", "new"}, {'d', "a_b", ""}, {'r', "a b", "moved"}, {'u', "a b/c d", ""}, {'r', "a_b", "back b"}, {'c', "a_b/late x", "late"}, {'r', "a_b/c d", "a_b/c_d"}},
        {{'c', "%41", "new"}, {'c', "A", "new"}, {'c', "%2541", "again"}, {'u', "%41", ""}, {'r', "%2541", "%41"}, {'c', "b", "new"}, {'l', "A", "%41"}, {'d', "%41", ""}},
    };
    int budget = O.thorough ? 2 : 1;
    family("actions of another process, " + std::to_string(budget) + " each", F10W.size() * acts.size() * 2 * 2, [&](Worker &w, uint64_t i) {
        Scn s; s.world = F10W[i % F10W.size()]; i /= F10W.size();
        auto &A = acts[i % acts.size()]; i /= acts.size();
        s.flags = {"-r"}; s.seq = i % 2 ? "uncgi" : "default"; i /= 2;
        if (i) s.args = {"./" + s.world[0].path};
        V<Fn> fns = {opts_of(s).clean};
        Snap s0; uint64_t T = 0;
        Run r = with_hooks(run_of(w, s), [&](HookArea &h) {
            h.order = ORDER_SORTED; h.nact = A.size(); h.act_budget = budget;
            for (size_t k = 0; k < A.size(); k++) {
                h.act[k].op = A[k].op;
                snprintf(h.act[k].a, sizeof h.act[k].a, "%s", A[k].a);
                snprintf(h.act[k].b, sizeof h.act[k].b, "%s", A[k].b);
            }
        });
        explore(w, r, [&] { setup_scn(w, s); s0 = snapshot(w.top); T = tree_ino(s0); }, [&](const Result &R) -> S {
            if (R.signaled) return "ended by a signal";
            if (R.escapes) return "changed something outside of the tree: " + R.escape_path;
            Snap b = snapshot(w.top);
            if (seen_new(mix(s0.hash_names(), mix(b.hash_names(), 4714)))) G->outcomes++;
            // what there would be without detox, names aside
            std::multiset<std::pair<uint64_t, uint64_t>> want, have;
            std::set<S> names;
            for (auto &d : s0.dirs) for (auto &e : d.second) { want.insert({d.first, e.second}); names.insert(e.first); }
            for (auto &x : R.did) {
                names.insert(x.name);
                if (x.op == 'c' || x.op == 'd' || x.op == 'l') want.insert({x.d1, x.ino});
                else { auto k = want.find({x.d1, x.ino}); if (k != want.end()) want.erase(k); if (x.op == 'r') want.insert({x.d2, x.ino}); }
            }
            for (auto &d : b.dirs) for (auto &e : d.second) have.insert({d.first, e.second});
            if (want != have) return "a file was lost, replaced or moved to another directory\nafter:\n" + b.text();
            for (auto &x : s0.info) { auto k = b.info.find(x.first); if (k != b.info.end() && (k->second.t != x.second.t || k->second.content != x.second.content || k->second.mode != x.second.mode)) return "a file was altered"; }
            std::set<S> ok = closure(names, fns);
            for (auto &d : b.dirs) for (auto &e : d.second) if (!ok.count(e.first)) return "a name nobody gave: " + qs(e.first);
            return "";
        }, [&] { return describe_scn(s); }, 4000000);
    });
});

// ---------------------------------------------------------------- F11
static Reg f11("F11", [] {
    fs_rule("every run over small trees and chains of directories, killed before each of its system calls under every listing order, and run again in both listing orders; after the kill every entry has its old or its filtered name in its directory, after the second run the tree is one a complete run could have given");
    auto crash = [](Worker &w, const Scn &s, int order) {
        Run again = run_of(w, s);
        explore_scn(w, s, [order](HookArea &h) { h.crash = 1; h.order = order; }, [&](Ctx &c) -> S {
            if (c.R->signaled) return "ended by a signal";
            S e = check_nothing_lost(c.a, c.b); if (!e.empty()) return e;
            e = check_changes_exact(c); if (!e.empty()) return e;
            e = check_scope(c); if (!e.empty()) return e;
            Snap mid = c.b;
            for (auto o : {ORDER_SORTED, ORDER_REVERSE}) {
                // the second order starts from what the first left only when that was complete: repeat from the same state
                if (o == ORDER_REVERSE && !(c.b == mid)) {
                    setup_scn(w, s);
                    Snap a2 = snapshot(w.top);
                    V<uint16_t> pre; for (auto &x : c.R->ch) pre.push_back(x.pick);
                    Run r1 = with_hooks(again, [order](HookArea &h) { h.crash = 1; h.order = order; });
                    w.run(r1, pre);
                    c.a = a2; c.T = tree_ino(a2);
                }
                Run r2 = again;
                r2.argv = {"detox"};
                if (!s.conf.empty()) { r2.argv.push_back("-f"); r2.argv.push_back(w.dir + "/conf"); }
                if (!s.seq.empty()) { r2.argv.push_back("-s"); r2.argv.push_back(s.seq); }
                for (auto &f : s.flags) r2.argv.push_back(f);
                Snap now_ = snapshot(w.top);
                Model m{&c.a, &c.o};
                for (auto &arg : plain_args(s)) {
                    uint64_t p, ino; S n;
                    if (arg.empty() || !m.resolve(c.a.dirs, c.T, arg, p, n, ino, "")) continue;
                    S np = path_of(now_, ino);
                    np = np.compare(0, 12, "pad1/pad2/T/") == 0 ? np.substr(12) : ".";
                    r2.argv.push_back("./" + np + (n.empty() && np != "." ? "/" : ""));
                }
                Result R2 = w.run(with_hooks(r2, [o](HookArea &h) { h.order = o; }));
                if (R2.signaled) return "the second run ended by a signal";
                c.b = snapshot(w.top);
                S e2 = check_model(c);
                if (!e2.empty()) return "after running again: " + e2 + "calls of the second run:\n" + R2.trace;
            }
            return "";
        });
    };
    auto every = [&](Worker &w, const Scn &s) { crash(w, s, ORDER_ALL); };
    auto two = [&](Worker &w, const Scn &s) { crash(w, s, ORDER_SORTED); crash(w, s, ORDER_REVERSE); };
    fam_small("one directory, 1 or 2 entries", 10, "fdlh", 1, 2, {{"-r"}, {"--special"}}, every);
    fam_small("one directory, 3 entries", O.thorough ? 7 : 4, "fd", 3, 3, {{"-r"}}, O.thorough ? (ScnFn)every : (ScnFn)two);
    fam_deep("chain of 2 directories", 2, {{"-r"}}, O.thorough ? (ScnFn)every : (ScnFn)two);
    static const V<S> nm = {"a _b", "\xc3\xa4 \xc3\xb6", "A..b", "- a", "a_b", "A b", "\xff", "a&&b"};
    for (auto &sq : {"utf_8", "lower"}) fam_small(S("mixed names, ") + sq, 8, "fd", 1, 2, {{"-r"}}, every, sq, &nm);
    static V<RSeq> seqs = {{rf_lower()}, {rf_wipe(false)}, {rf_max(6)}, {rf_safe(), rf_lower(), rf_wipe(true), rf_max(8)}};
    static const V<S> nm2 = {"A__b.TXT", "--x_-y", "Long name.c", "aa__", "Z z", "name too long.tar.gz"};
    auto ps = picks_upto(6, 2, 2);
    family("other sequences", ps.size() * seqs.size(), [&](Worker &w, uint64_t i) {
        Scn s; s.world = world_of(ps[i / seqs.size()], nm2, "fd"); s.rseq = &seqs[i % seqs.size()]; s.conf = conf_seq("q", *s.rseq); s.ignore.clear(); s.flags = {"-r"};
        every(w, s);
    });
    fam_args("two arguments", 2, {{"-r", "--special"}}, [&](Worker &w, const Scn &s) { if (O.thorough || s.order == ORDER_SORTED) crash(w, s, s.order); });
    fam_many("many entries", O.thorough ? V<int>{10, 17, 33, 70} : V<int>{17}, {{"-r"}}, [&](Worker &w, const Scn &s) { crash(w, s, ORDER_SORTED); });
});

// ---------------------------------------------------------------- F12
static Reg f12("F12", [] {
    fs_rule("runs that rename, list, print, read every kind of configuration and table and filter standard input, with each of their allocations failing (thorough: and every pair)");
    struct Case { V<S> flags, args; S conf; V<S> argv0; S in; };
    static const S alltables = "ignore { filename \"x\"; filename 'y'; };\nsequence a { safe { filename \"%D/safe.tbl\"; }; utf_8 { filename \"%D/u.tbl\"; }; iso8859_1; max_length { length 20; }; lower; uncgi; wipeup { remove_trailing; }; };\nsequence \"default\" { safe { builtin \"safe\"; }; utf_8; iso8859_1 { builtin \"cp1252\"; }; wipeup; };\nsequence a { lower; };\n";
    static V<Case> cases = {
        {{"-r"}, {"."}, "", {}, ""}, {{"-v"}, {"d d", "a b"}, "", {}, ""}, {{"-n", "-r"}, {".", "a b"}, "", {}, ""},
        {{"-r", "-v", "-s", "utf_8"}, {"."}, "", {}, ""}, {{"-r", "-s", "iso8859_1-legacy"}, {"."}, "", {}, ""}, {{"-s", "uncgi", "-s", "lower"}, {"a b"}, "", {}, ""},
        {{"-r"}, {"."}, alltables, {}, ""}, {{"-r", "-s", "a"}, {"."}, alltables, {}, ""}, {{"-L", "-v"}, {}, alltables, {}, ""}, {{"-L"}, {}, "", {}, ""},
        {{"--inline"}, {}, "", {}, "a b\nc d\n\nlast line"}, {{}, {"a b"}, "", {"inline-detox"}, ""}, {{"-s", "a"}, {}, alltables, {"inline-detox"}, "x y\n"},
        {{"-V"}, {}, "", {}, ""}, {{"-h"}, {}, "", {}, ""}, {{"-s", "none"}, {"a b"}, "", {}, ""}, {{"--special", "--"}, {"a b", "gone", "d d/"}, "", {}, ""},
        {{}, {"a b", "c_d", "d d", "d d/1 1", "d d/2 2", "x", "y", "z", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13"}, "", {}, ""},
    };
    static const V<Ent> world = {{"a b", 'f', "some line\nother line\n"}, {"A\xc3\x84 x", 'f', "2"}, {"d d", 'd', ""}, {"d d/1 1", 'f', "3"}, {"d d/2 2", 'd', ""}, {"d d/2 2/z z", 'f', "4"}, {"c d", 'f', "5"}, {"c_d", 'f', "6"}};
    int nf = O.thorough ? 2 : 1;
    family("allocations, " + std::to_string(nf) + " failing", cases.size() * 2, [&](Worker &w, uint64_t i) {
        const Case &k = cases[i / 2];
        bool big = i % 2;
        Scn s; s.world = world; s.flags = k.flags; s.args = k.args; s.conf = k.conf; s.argv0 = k.argv0;
        if (big) for (int j = 0; j < 20; j++) s.world.push_back({"n " + std::to_string(j), 'f', std::to_string(j)});
        S d = w.dir;
        for (size_t p; (p = s.conf.find("%D")) != S::npos;) s.conf.replace(p, 2, d);
        write_file(d + "/safe.tbl", "default _\nstart\n0x20 _sp_\n0x26 'and'\nend\n");
        write_file(d + "/u.tbl", "start\n0xC4 \"Ae\"\nend\nstart de\n0xC4 x\nend\n");
        mkdirs(w.root + "/usr/share/detox");
        write_file(w.root + "/usr/share/detox/iso8859_1.tbl", "default\nstart\n0xE4 a\nend\n");
        mkdirs(w.root + "/home");
        write_file(w.root + "/home/.detoxrc", big ? "ignore { filename CVS; }; sequence extra { lower; };" : "");
        Snap a;
        Run r = with_hooks(run_of(w, s), [nf](HookArea &h) { h.alloc_faults = nf; h.order = ORDER_SORTED; });
        r.env = {{"HOME", w.root + "/home"}, {"XDG_CONFIG_HOME", w.root + "/home/xdg"}, {"LC_ALL", "C.UTF-8"}};
        if (big) r.env.push_back({"DETOX_SEQUENCE", "default"});
        r.stdin_data = k.in;
        const RSeq *q = nullptr; (void)q;
        sample_scn(s, " with failing allocations");
        Snap full;
        bool first = true;
        std::map<std::pair<uint64_t, S>, S> regular;    // what the run without a failure renames
        explore(w, r, [&] { setup_scn(w, s); a = snapshot(w.top); }, [&](const Result &R) -> S {
            Snap b = snapshot(w.top);
            S e = check_nothing_lost(a, b); if (!e.empty()) return e;
            if (R.signaled) return "ended by a signal after an allocation failed in " + R.alloc_caller;
            // inodes differ between runs: compare by content, which is unique
            std::map<S, std::pair<S, S>> ren;
            for (auto &dd : a.dirs) for (auto &x : dd.second) for (auto &y : b.dirs.at(dd.first)) if (y.second == x.second) ren[path_of(a, dd.first) + "/" + x.first] = {x.first, y.first};
            static std::map<S, std::pair<S, S>> ref; 
            if (R.used_alloc == 0) { ref = ren; return ""; }
            for (auto &x : ren) if (x.second.second != x.second.first && ref.count(x.first) && ref[x.first].second != x.second.second) return "entry " + qs(x.first) + " was renamed to " + qs(x.second.second) + ", a regular run gives " + qs(ref[x.first].second);
            if (R.status == 0) return "exit status 0 although an allocation failed in " + R.alloc_caller;
            if (R.err.empty()) return "no message although an allocation failed in " + R.alloc_caller;
            return "";
        }, [&] { return describe_scn(s); }, 4000000);
        (void)first; (void)full;
    });
});

// ---------------------------------------------------------------- F13
static Reg f13("F13", [] {
    fs_rule("directories of up to 4 files on a file system that ignores case (lookups, listings and renames of the checker ignore case), every listing order, sequences that change case and others; the names afterwards must be what dealing with the files one by one gives, no file lost");
    static const V<S> nm = {"A", "aB", "B c", "b_C", "A_b", "a b", "X", "x.Y", "ab", "\xc3\x84 Q"};
    static V<RSeq> seqs = {{rf_lower()}, {rf_safe(), rf_lower(), rf_wipe(true)}, {rf_safe(), rf_wipe(true)}, {rf_uncgi()}};
    int maxk = O.thorough ? 4 : 3;
    auto ps = picks_upto(nm.size(), 1, maxk);
    auto oracle = [](Ctx &c) -> S {
        if (c.R->signaled) return "ended by a signal";
        S e = check_nothing_lost(c.a, c.b); if (!e.empty()) return e;
        e = check_changes_exact(c); if (!e.empty()) return e;
        // every order of the entries of T
        for (auto &d : c.a.dirs) {
            V<S> todo;
            bool in = false; { uint64_t at = d.first; while (at != c.a.root) { if (at == c.T) in = true; uint64_t up = 0; for (auto &x : c.a.dirs) for (auto &y : x.second) if (y.second == at) up = x.first; if (!up) break; at = up; } }
            if (!in) continue;
            for (auto &x : d.second) if (c.type(x.second) == 'f' && x.first[0] != '.') todo.push_back(x.first);
            std::sort(todo.begin(), todo.end());
            bool ok = false;
            do {
                auto m = d.second;
                for (auto &n : todo) {
                    S t = c.o.clean(n);
                    if (t == n || !Model::usable(t)) continue;
                    bool taken = false;
                    for (auto &x : m) if (x.first != n && foldcase(x.first) == foldcase(t)) taken = true;
                    if (taken) continue;
                    m[t] = m[n]; m.erase(n);
                }
                // directories are not judged
                auto g = c.b.dirs.at(d.first);
                bool same = true;
                for (auto &x : m) if (c.type(x.second) == 'f') { auto y = g.find(x.first); if (y == g.end() || y->second != x.second) same = false; }
                if (same) ok = true;
            } while (!ok && std::next_permutation(todo.begin(), todo.end()));
            if (!ok) return "the names are none that dealing with the files one by one gives\nafter:\n" + c.b.text();
        }
        return "";
    };
    family("files", ps.size() * seqs.size() * 2, [&](Worker &w, uint64_t i) {
        Scn s; auto &q = seqs[i % seqs.size()]; i /= seqs.size(); bool args = i % 2; i /= 2;
        std::set<S> folded; const Pick &p = ps[i];
        V<Ent> W = world_of(p, nm, "f");
        for (auto &e : W) if (!folded.insert(foldcase(e.path)).second) return;      // cannot exist together
        s.world = W; s.rseq = &q; s.conf = conf_seq("q", q); s.casefold = true; s.ignore.clear(); s.outside = false;
        if (args) { s.args.clear(); for (auto &e : W) s.args.push_back(e.path); s.order = ORDER_SORTED; }
        if (i % 97 == 9) sample_scn(s, " on a case-insensitive filesystem");
        explore_scn(w, s, nullptr, oracle);
    });
    // tables of a user, which take the locale into use
    static const V<S> loc = {"", "C.UTF-8", "tr_TR.UTF-8", "tr_TR.ISO-8859-9", "de_DE.ISO-8859-1", "ja_JP.EUC-JP"};
    static const V<S> nl = {"I", "iI x", "\xc3\x84", "A\xc3\x96I", "i", "T\xc3\xa4", "\xc3\xa4 I", "K"};
    static const RTable small = [] { RTable t; t.rows[0xc4] = "\xc3\xa4"; t.rows[0xd6] = "\xc3\xb6"; return t; }();
    auto p3 = picks_upto(nl.size(), 1, 2);
    family("files, every locale", p3.size() * loc.size() * 2 * 2, [&](Worker &w, uint64_t i) {
        Scn s; const S &l = loc[i % loc.size()]; i /= loc.size(); bool lower = i % 2; i /= 2; bool args = i % 2; i /= 2;
        RFilter f = {R_UTF8}; f.tname = w.dir + "/small.tbl"; f.tfile = true; f.t = &small;
        S tbl = "start\n"; for (auto &r : small.rows) { char b[32]; snprintf(b, sizeof b, "0x%x ", r.first); tbl += b + r.second + "\n"; }
        write_file(f.tname, tbl + "end\n");
        RSeq q = {f}; if (lower) q.push_back(rf_lower());
        std::set<S> folded; V<Ent> W = world_of(p3[i], nl, "f");
        for (auto &e : W) if (!folded.insert(foldcase(e.path)).second) return;
        s.world = W; s.rseq = &q; s.conf = conf_seq("q", q); s.casefold = true; s.ignore.clear(); s.outside = false;
        if (args) { s.args.clear(); for (auto &e : W) s.args.push_back(e.path); s.order = ORDER_SORTED; }
        if (!l.empty()) { s.env.push_back({"LC_ALL", l}); if (l.find("C.") && !O.locpath.empty()) s.env.push_back({"LOCPATH", O.locpath}); }
        if (i % 13 == 9) sample_scn(s, " on a case-insensitive filesystem, locale " + l);
        explore_scn(w, s, nullptr, oracle);
    });
    // below directories, which may change case or not
    static const V<S> dn = {"d", "E", "f_G", "H h"};
    auto p2 = picks_upto(nm.size(), 1, 2);
    family("files in directories", p2.size() * dn.size() * 2, [&](Worker &w, uint64_t i) {
        Scn s; auto &q = seqs[i % 2]; i /= 2; const S &d = dn[i % dn.size()]; i /= dn.size();
        std::set<S> folded; V<Ent> W = world_of(p2[i], nm, "f");
        s.world.push_back({d, 'd', ""});
        for (auto &e : W) { if (!folded.insert(foldcase(e.path)).second) return; s.world.push_back({d + "/" + e.path, 'f', e.data}); }
        s.rseq = &q; s.conf = conf_seq("q", q); s.casefold = true; s.flags = {"-r"}; s.ignore.clear(); s.outside = false;
        explore_scn(w, s, nullptr, oracle);
    });
});
