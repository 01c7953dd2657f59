#include "fsfam.hpp"

// ---------------------------------------------------------------- F01
static Reg f01("F01", [] {
    fs_rule("every tree of one directory with up to k entries over colliding names and all entry types, chains of directories, argument lists and long listings, run with every listing order and option set; compared by inode, content, mode and link count");
    auto fn = [](Worker &w, const Scn &s) {
        explore_scn(w, s, nullptr, [](Ctx &c) -> S {
            if (c.R->signaled) return "ended by a signal";
            S e = check_nothing_lost(c.a, c.b);
            if (!e.empty()) return e;
            // a taken name is not taken over, unless its holder was renamed
            for (auto &x : c.changes) {
                auto h = c.a.dirs.at(x.dir).find(x.to);
                if (h == c.a.dirs.at(x.dir).end()) continue;
                bool moved = false;
                for (auto &y : c.changes) if (y.dir == x.dir && y.from == x.to && y.ino == h->second) moved = true;
                if (!moved) return "the name " + qs(x.to) + " was taken over";
            }
            return "";
        });
    };
    fam_small("one directory, up to 2 entries", 12, "fdlhpL", 1, 2, FLAGS, fn);
    fam_small("one directory, 3 entries", O.thorough ? 11 : 6, "fdlh", 3, 3, {{}, {"-r", "--special"}}, fn);
    if (O.thorough) fam_small("one directory, 3 entries of all types", 8, "fedlhpL", 3, 3, {{"-r", "--special"}}, fn);
    static const V<S> chain = {"%2541", "%41", "A", "%252541", "b+", "b "};
    fam_small("chains of names, uncgi", 6, O.thorough ? "fdlh" : "fdh", 1, 3, {{"-r"}}, fn, "uncgi-only", &chain);
    static const V<S> up = {"A", "a", "B", "b", "A B", "a_b"};
    fam_small("upper case", 6, "fdh", 1, 3, {{}}, fn, "lower", &up);
    fam_args("two arguments", 2, {{}, {"-r", "--special"}}, [&fn](Worker &w, const Scn &s) { auto t = s; fn(w, t); });
    fam_sizes({{}, {"-r", "--special"}}, fn);
    fam_deep("chain of 2 directories", 2, {{"-r"}}, fn);
    if (O.thorough) fam_small("one directory, 4 entries", 6, "fdlh", 4, 4, {{"-r", "--special"}}, fn);
    // the target exists as an entry of another device with the same inode number
    static const V<S> t2 = {"a b", "a_b", "a?b"};
    auto ps = picks_upto(3, 4, 3, 2);
    family("same inode number on another device", ps.size(), [&](Worker &w, uint64_t i) {
        Scn s; s.world = world_of(ps[i], t2, "fedl"); s.flags = {"--special"};
        explore_scn(w, s, [](HookArea &h) {
            strcpy(h.dev_alias[0][0], "a_b"); strcpy(h.dev_alias[0][1], "a b"); h.n_dev_alias = 1; },
            [](Ctx &c) -> S {
                S e = check_nothing_lost(c.a, c.b);
                if (!e.empty()) return e;
                if (is_taken(c, c.T, "a_b")) for (auto &x : c.changes) if (x.to == "a_b") return "a name taken by an entry of another device was taken over";
                return ""; });
    });
    // without RENAME_NOREPLACE
    for (int err : {EINVAL, ENOSYS})
        fam_small(S("no RENAME_NOREPLACE, ") + strerrorname_np(err), 6, "fdh", 1, O.thorough ? 3 : 2, {{"-r"}}, [err](Worker &w, const Scn &s) {
            explore_scn(w, s, [err](HookArea &h) { h.norep_errno = err; }, [](Ctx &c) -> S { return check_nothing_lost(c.a, c.b); });
        });
});

// ---------------------------------------------------------------- F02
static Reg f02("F02", [] {
    fs_rule("trees over names that filter differently when filtered twice, path forms, listings in every order and listings that return renamed entries again; every rename must be of the last component, in place, to exactly the reference result of the sequence");
    auto fn = [](Worker &w, const Scn &s) {
        explore_scn(w, s, [](HookArea &h) { h.again = 1; }, [](Ctx &c) -> S {
            if (c.R->signaled) return "ended by a signal";
            return check_changes_exact(c);
        });
    };
    static const V<S> nm = {"%2541", "%252541", "%2525%41", "a+b", "%2Fx", "..%2Fup", "%2e%2e", "A%20B", "%", "%4", "q%00r", "%C3%A9"};
    for (auto &sq : {"uncgi-only", "uncgi"}) fam_small(S("encoded names, ") + sq, 12, "fd", 1, 2, {{}, {"-r"}}, fn, sq, &nm);
    if (O.thorough) fam_small("encoded names, 3 entries", 12, "fd", 3, 3, {{"-r"}}, fn, "uncgi-only", &nm);
    else fam_small("encoded names, 3 entries", 7, "f", 3, 3, {{"-r"}}, fn, "uncgi-only", &nm);
    static const V<S> mix = {"A b", "\xc3\x84 x", "\xe9t\xe9", "a__b", "--a", "#x", "a.-b", "x\ty", "Z&z", "a_.b", "_", "\xe2\x82\xac", "\xff", "a\nb", "..x", "a..b"};
    for (auto &st : stock()) fam_small(S("mixed names, ") + st.name, 16, "fd", 1, O.thorough ? 2 : 1, {{}, {"-r"}}, fn, st.name, &mix);
    fam_small("mixed names, two entries", 16, "f", 2, 2, {{"-r"}}, fn, "lower", &mix);
    fam_args("two arguments", 2, {{}, {"-r"}}, fn);
    fam_sizes({{"-r", "--special"}}, [](Worker &w, const Scn &s) { explore_scn(w, s, nullptr, [](Ctx &c) -> S { return c.R->signaled ? S("ended by a signal") : check_changes_exact(c); }); });
    fam_args("one argument, all forms", 1, {{}, {"-r"}, {"--special"}, {"-r", "-v", "--special"}}, [&](Worker &w, const Scn &s) { fn(w, s); });
    fam_deep("chain of 2 directories", 2, {{"-r"}}, fn);
    if (O.thorough) fam_deep("chain of 3 directories", 3, {{"-r"}}, fn);
    // the same names as arguments: files, directories and both, by every kind of path
    auto named = [](const S &name, const V<S> &names, const V<S> &seqs_, const ScnFn &fn_) {
        static const V<S> pre = {"", "./", "s s/", "./s s/../s s/", "@T/s s/"};
        family(name, names.size() * 5 * pre.size() * 3 * seqs_.size(), [=](Worker &w, uint64_t i) {
            Scn s; s.seq = seqs_[i % seqs_.size()]; i /= seqs_.size();
            int fl = i % 3; i /= 3; const S &p = pre[i % pre.size()]; i /= pre.size(); char t = "fdlpL"[i % 5]; const S &n = names[i / 5];
            s.flags = V<V<S>>{{"--special"}, {"-r", "--special"}, {"-v", "-v", "--special"}}[fl];
            S at = p.find("s s") == S::npos ? "" : "s s/";
            s.world = {{"s s", 'd', ""}, {at + "other x", 'f', "o"}};
            if (t == 'L') { s.world.push_back({"target", 'd', ""}); s.world.push_back({at + n, 'l', at.empty() ? "target" : "../target"}); }
            else { s.world.push_back({at + n, t, t == 'l' ? "nowhere" : ""}); if (t == 'd') { s.world.push_back({at + n + "/%2541 x", 'f', "in"}); s.world.push_back({at + n + "/%2542", 'd', ""}); } }
            s.args = {p + n}; if (s.args[0][0] == '-') s.args[0] = "./" + s.args[0];
            fn_(w, s);
            if (t == 'd') { s.args[0] += "/"; fn_(w, s); }
        });
    };
    named("encoded names as arguments", nm, {"uncgi-only", "uncgi"}, fn);
    named("mixed names as arguments", mix, [] { V<S> v; for (auto &st : stock()) v.push_back(st.name); return v; }(), fn);
    // sequences with parameters
    static V<RSeq> seqs = {{rf_max(4)}, {rf_max(8), rf_lower()}, {rf_wipe(false)}, {rf_wipe(true), rf_max(5)}, {rf_uncgi(), rf_uncgi()}, {rf_lower(), rf_safe()}, {rf_utf8(), rf_lower(), rf_max(6)}, {rf_iso(), rf_wipe(false)}};
    static const V<S> nm2 = {"%2541.TXT", "A--_b.tar.gz", "Long name here.x", "caf\xe9.__x", "\xc3\x89TE.\xc3\xa9", "%25+25", "a.b.c.d.e", "nodots_at_all_in_here"};
    auto ps = picks_upto(8, 2, 2);
    family("sequences with parameters", seqs.size() * ps.size(), [&](Worker &w, uint64_t i) {
        Scn s; s.world = world_of(ps[i / seqs.size()], nm2, "fd");
        s.rseq = &seqs[i % seqs.size()]; s.conf = conf_seq("q", *s.rseq); s.flags = {"-r"}; s.ignore.clear();
        fn(w, s);
    });
    // listings that always return the renamed entries again
    fam_many("listing repeats renamed entries", O.thorough ? V<int>{1, 2, 3, 5, 16, 17, 33, 64, 65, 200} : V<int>{1, 2, 3, 16, 17, 33}, {{}, {"-r"}}, [](Worker &w, const Scn &s0) {
        for (const char *sq : {"uncgi-only", "default"}) {
            Scn s = s0; s.seq = sq;
            if (S(sq) == "uncgi-only") for (auto &e : s.world) for (size_t p = 0; (p = e.path.find(' ', p)) != S::npos;) { e.path.replace(p, 1, "%252520"); p += 7; }
            for (auto o : {ORDER_SORTED, ORDER_REVERSE})
                explore_scn(w, s, [o](HookArea &h) { h.again = 2; h.order = o; }, [](Ctx &c) -> S { return check_changes_exact(c); });
        }
    });
});

// ---------------------------------------------------------------- F03
static S announced(Ctx &c)
{
    // exactly the candidates whose filtered name is usable and free
    Scope sc = scope_of(c);
    std::map<std::pair<uint64_t, S>, S> want;
    for (auto &x : sc.in) { S t = c.o.clean(x.second); if (t != x.second && Model::usable(t) && !is_taken(c, x.first, t)) want[x] = t; }
    std::set<std::pair<uint64_t, S>> got;
    for (auto &l : arrow_lines(c.R->out, nullptr, c.s->records)) {
        V<S> comps; S base, nb; V<S> nc;
        if (!split_path(l.old_, c.w->tree, comps, base) || !split_path(l.new_, c.w->tree, nc, nb)) return "announced path is outside of the tree: " + qs(l.old_);
        if (l.old_.substr(0, l.old_.size() - base.size()) != l.new_.substr(0, l.new_.size() - nb.size())) return "announced rename to another directory: " + qs(l.old_) + " -> " + qs(l.new_);
        std::set<uint64_t> ds;
        walk_path(c, c.T, comps, 0, ds);
        bool ok = false;
        for (auto d : ds) { auto w = want.find({d, base}); if (w != want.end() && w->second == nb) { got.insert(w->first); ok = true; } }
        if (!ok) return "announced a rename that a real run could not make: " + qs(l.old_) + " -> " + qs(l.new_);
    }
    for (auto &x : want) if (!got.count(x.first)) return "did not announce the rename of " + qs(path_of(c.a, x.first.first) + "/" + x.first.second) + " to " + qs(x.second);
    for (auto &x : sc.in) if (!want.count(x) && c.o.clean(x.second) != x.second && c.R->err.find(x.second) == S::npos) return "neither announced the rename of " + qs(x.second) + " nor reported that it would be refused";
    return "";
}
static Reg f03("F03", [] {
    fs_rule("dry runs over the trees of F01 with the dry-run option in every form and position; the tree must be identical afterwards (names, inodes, contents) with no changing call made, and the announced set must be the set of candidates with a usable free new name");
    auto oracle = [](Ctx &c) -> S {
        if (c.R->signaled) return "ended by a signal";
        if (!(c.a == c.b)) return "the dry run changed the tree\nafter:\n" + c.b.text();
        if (c.R->nmut) return "the dry run made a call that changes the filesystem";
        return announced(c);
    };
    auto fn = [&](Worker &w, const Scn &s) { explore_scn(w, s, nullptr, oracle); };
    static const V<V<S>> fl = {{"-n"}, {"--dry-run"}, {"-n", "-r"}, {"-r", "--dry-run", "--special"}, {"-v", "-n"}, {"-nr"}, {"-rvn"}, {"--special", "-n", "-n"}};
    fam_small("one directory, up to 2 entries", 12, "fdlhp", 1, O.thorough ? 2 : 1, fl, fn);
    fam_small("one directory, 2 entries", 9, "fdl", 2, 2, {{"-n", "-r", "--special"}, {"-n"}}, fn);
    fam_small("one directory, 3 entries", O.thorough ? 9 : 5, "fdl", 3, 3, {{"-n", "-r", "--special"}}, fn);
    fam_deep("chain of 2 directories", 2, {{"-n", "-r"}, {"-n"}}, fn);
    if (O.thorough) fam_deep("chain of 3 directories", 3, {{"-n", "-r"}}, fn);
    fam_args("one argument", 1, fl, fn);
    fam_args("two arguments", 2, {{"-n"}, {"-n", "-r", "--special"}}, fn);
    fam_sizes({{"-n"}, {"-n", "-r", "--special"}}, fn);
    static const V<V<S>> rf = {{"-n", "-r"}, {"-v", "-n"}};
    fam_refused(rf, fn);
    fam_small("on a terminal", 9, "fdl", 1, 2, {{"-n", "-r", "--special"}}, [&](Worker &w, const Scn &s) { explore_scn(w, s, [](HookArea &h) { h.tty = 1; h.order = ORDER_SORTED; }, oracle); });
    // -n anywhere, also after the files
    family("position of -n", 2 * ARGS.size() * 6, [&](Worker &w, uint64_t i) {
        Scn s; s.world = ARGW; S n = i % 2 ? "--dry-run" : "-n"; S a = ARGS[i / 2 % ARGS.size()]; if (!arg_ok(a)) a = "d d";
        switch (i / (2 * ARGS.size())) {
            case 0: s.args = {a, n}; break;
            case 1: s.args = {a, n, "c d"}; break;
            case 2: s.args = {"-r", a, n}; s.flags = {}; break;
            case 3: s.args = {n, "--", a}; break;
            case 4: s.args = {a, "--special", n, "-v"}; break;
            case 5: s.args = {a, "-vnr"}; break;
        }
        // getopt permutes: the options apply wherever they are
        Scn t = s; t.args.clear(); t.flags = {"-n"};
        for (auto &x : s.args) if (x == "--") {} else if (x[0] == '-' && x != "-" && !x.empty()) { if (x == "-r" || x == "-vnr") t.flags.push_back("-r"); if (x == "--special") t.flags.push_back("--special"); } else t.args.push_back(x);
        Run r = run_of(w, s);
        Snap a0; Ctx base; base.w = &w; base.s = &t; base.o = opts_of(t);
        r = with_hooks(r, hooks_sorted);
        explore(w, r, [&] { setup_scn(w, s); a0 = snapshot(w.top); }, [&](const Result &R) -> S {
            Ctx c = base; c.a = a0; c.b = snapshot(w.top); c.R = &R; c.T = tree_ino(a0);
            return oracle(c); }, [&] { return describe_scn(s); });
    });
    static const V<S> upn = {"A", "a", "B", "A B", "a b", "a_b"};
    fam_small("upper case", 6, "fdh", 1, 3, {{"-n"}}, fn, "lower", &upn);
    for (auto &sq : {"utf_8", "lower"}) { static const V<S> mix = {"A b", "a_b", "\xc3\x84 x", "A_x", "a__b", "--a", "a"}; fam_small(S("mixed names, ") + sq, 7, "fd", 1, 2, {{"-n", "-r"}}, fn, sq, &mix); }
    fam_many("many entries", {16, 17, 33, 100}, {{"-n"}, {"-n", "-r"}}, [&](Worker &w, const Scn &s) { explore_scn(w, s, hooks_sorted, oracle); });
});

// ---------------------------------------------------------------- F04
static Reg f04("F04", [] {
    fs_rule("trees of all entry types at two levels, hidden and linked directories and a directory outside, with every argument form and combination of -r and --special, every listing order, with and without entry types in the listing; only candidates may have another name afterwards");
    auto oracle = [](Ctx &c) -> S {
        if (c.R->signaled) return "ended by a signal";
        if (!c.change_error.empty()) return c.change_error;
        return check_scope(c);
    };
    auto fn = [&](Worker &w, const Scn &s) { explore_scn(w, s, nullptr, oracle); };
    auto fnu = [&](Worker &w, const Scn &s) { explore_scn(w, s, [](HookArea &h) { h.dtype_unknown = 1; }, oracle); };
    fam_small("one directory, up to 2 entries", 12, "fdlLph", 1, 2, FLAGS, fn);
    fam_small("listing without types", 12, "fdlLp", 1, O.thorough ? 2 : 1, FLAGS, fnu);
    if (O.thorough) fam_small("one directory, 3 entries", 8, "fdLp", 3, 3, FLAGS, fn);
    // two levels: a directory of each kind of name, holding an entry of each kind
    static const V<S> outer = {"d d", "ok", ".h", ".h h", "{arch}", "..d d", "-"}, inner = {"i i", ".i i", "ok", "{arch}", "..i i", "..."};
    static const char *T2 = "fdlLp";
    family("two levels", outer.size() * inner.size() * 5 * 2 * FLAGS.size() * 3, [&](Worker &w, uint64_t i) {
        Scn s; s.flags = FLAGS[i % 4]; i /= 4;
        int how = i % 3; i /= 3; bool link = i % 2; i /= 2; char t = T2[i % 5]; i /= 5;
        S in = inner[i % inner.size()], out = outer[i / inner.size()];
        if (link) { s.world.push_back({"real", 'd', ""}); add_entry(s.world, "real/" + in, t, 1); s.world.push_back({out, 'l', "real"}); }
        else { s.world.push_back({out, 'd', ""}); add_entry(s.world, out + "/" + in, t, 1); }
        s.world.push_back({"z z", 'f', "z"});
        s.args = how == 0 ? V<S>{"."} : how == 1 ? V<S>{"./" + out} : V<S>{"./" + out, "./" + out};
        if (how == 2) s.args[0] = "z z";
        fn(w, s);
    });
    fam_deep("chain of 2 directories", 2, {{}, {"-r"}}, fn);
    if (O.thorough) fam_deep("chain of 3 directories", 3, {{}, {"-r"}}, fn);
    fam_attr("types and attributes", FLAGS, fn);
    fam_args("one argument, all forms", 1, FLAGS, fn);
    fam_args("two arguments", 2, {{}, {"-r", "--special"}}, fn);
    fam_sizes(FLAGS, fn);
    if (O.thorough) fam_args("three arguments", 3, {{"-r"}}, [&](Worker &w, const Scn &s) { explore_scn(w, s, hooks_sorted, oracle); });
    // one argument of each type with each option: links and special files as arguments
    static const V<S> an = {"a b", "l l", ".h h", "{arch}"};
    family("argument types", an.size() * 6 * FLAGS.size(), [&](Worker &w, uint64_t i) {
        Scn s; s.flags = FLAGS[i % 4]; i /= 4;
        char t = "fdlLpe"[i % 6]; S n = an[i / 6];
        add_entry(s.world, n, t, 0); add_entry(s.world, "y y", 'd', 1); add_entry(s.world, "y y/w w", 'd', 2);
        s.args = {n};
        fn(w, s);
        // and exactly the argument is renamed when it is eligible
    });
});

// ---------------------------------------------------------------- F05
static Reg f05("F05", [] {
    fs_rule("ignore lists of up to 3 entries (40 in the length sweep) in every order over listed and look-alike names, in one or two configuration files, with directories of up to 3 entries in every listing order and two levels; a listed entry keeps its name and its contents, look-alikes are treated normally, and listed arguments are renamed");
    // names that change when filtered, so that not ignoring them shows
    static const V<S> pool = {"i 1", "i 2", "i 3", "i 11", "i", "I 1", "{arch}", "i 1 "};
    V<V<S>> lists;
    lists.push_back({});
    for (auto &a : pool) lists.push_back({a});
    for (auto &a : pool) for (auto &b : pool) if (a != b) lists.push_back({a, b});
    if (O.thorough) for (auto &a : pool) for (auto &b : pool) for (auto &c : pool) if (a != b && b != c && a != c) lists.push_back({a, b, c});
    if (!O.thorough) for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) for (int k = 0; k < 5; k++) if (i != j && j != k && i != k) lists.push_back({pool[i], pool[j], pool[k]});
    auto exact = [](Ctx &c) -> S {
        if (c.R->signaled) return "ended by a signal";
        if (!c.change_error.empty()) return c.change_error;
        Scope sc = scope_of(c);
        for (auto &x : c.changes) if (!sc.in.count({x.dir, x.from})) return "entry " + qs(path_of(c.a, x.dir) + "/" + x.from) + " was renamed although it is ignored, or inside of an ignored directory";
        return check_model(c);
    };
    static V<RSeq> sq = {{rf_safe()}};
    auto ps = picks_upto(8, 2, O.thorough ? 3 : 2, O.thorough ? 1 : 2);
    family("lists and entries", lists.size() * ps.size(), [&](Worker &w, uint64_t i) {
        Scn s; s.world = world_of(ps[i % ps.size()], pool, "fd"); s.ignore = lists[i / ps.size()];
        s.rseq = &sq[0]; s.conf = conf_ignore(s.ignore) + conf_seq("q", sq[0]); s.flags = {"-r"};
        if (i % 9973 == 5) sample_scn(s);
        explore_scn(w, s, nullptr, exact);
    });
    // several files in a row, several directories: what was looked up before must not matter
    family("three entries in every order", lists.size() * 10, [&](Worker &w, uint64_t i) {
        static const V<V<S>> sets = {{"i 1", "i 2", "i 3"}, {"i 1", "x 1", "i 2"}, {"i 3", "i 1", "x 9"}, {"x 1", "x 2", "i 1"}, {"i", "i 1", "i 11"}, {"I 1", "i 1", "i 1 "}, {"{arch}", "i 2", "x y"}, {"i 2", "i 3", "x y"}, {"i 11", "i 2", "i 1"}, {"x 1", "x 2", "x 3"}};
        Scn s; s.ignore = lists[i / 10];
        for (auto &n : sets[i % 10]) add_entry(s.world, n, 'f', 0);
        s.world.push_back({"zz", 'd', ""});
        for (auto &n : sets[(i + 3) % 10]) add_entry(s.world, "zz/" + n, 'f', 0);
        s.rseq = &sq[0]; s.conf = conf_seq("q", sq[0]) + conf_ignore(s.ignore); s.flags = {"-r"};
        explore_scn(w, s, O.thorough ? std::function<void(HookArea &)>() : hooks_reverse, exact);
        if (!O.thorough) explore_scn(w, s, hooks_sorted, exact);
    });
    // long lists: every position found, nothing else
    int maxn = O.thorough ? 140 : 70;
    static const int more[] = {100, 129, 200, 257, 300, 513};
    family("list lengths", maxn + 6, [&, maxn](Worker &w, uint64_t i) {
        int n = (int)i < maxn ? i + 1 : more[i - maxn]; Scn s;
        s.ignore.clear();
        for (int k = 0; k < n; k++) s.ignore.push_back("ig " + std::to_string(k));
        for (int k = 0; k <= n; k++) s.world.push_back({"ig " + std::to_string(k), 'f', std::to_string(k)});
        s.world.push_back({"ig", 'f', "short"});
        s.world.push_back({"sub", 'd', ""});
        for (int k = n; k >= 0; k--) s.world.push_back({"sub/ig " + std::to_string(k), 'f', std::to_string(k)});
        s.rseq = &sq[0]; s.conf = conf_ignore(s.ignore) + conf_seq("q", sq[0]); s.flags = {"-r"};
        for (auto o : {ORDER_SORTED, ORDER_REVERSE, ORDER_ROT}) explore_scn(w, s, [o, n](HookArea &h) { h.order = o; h.rot = n / 2 + 1; }, exact);
        if (i == 2) sample_scn(s);
    });
    // names of every length: found, and look-alikes of the same and other lengths are not taken for them
    family("name lengths", 255 * 3, [&](Worker &w, uint64_t i) {
        size_t L = i / 3 + 1; int at = i % 3; Scn s; S n(L, 'i');
        for (size_t k = 1; k + 1 < L; k += 3) n[k] = ' ';
        S o = n; o[at == 0 ? 0 : at == 1 ? L / 2 : L - 1] = 'X'; if (o.find(' ') == S::npos && L > 2) o[L / 2 > 0 && at != 1 ? L / 2 : 0] = ' ';
        s.ignore = {n};
        s.world = {{n, 'f', "1"}, {"sub", 'd', ""}, {"sub/" + n, 'd', ""}};
        if (L < 200) s.world.push_back({"sub/" + n + "/x x", 'f', "4"});
        if (o != n) s.world.push_back({o, 'f', "2"});
        if (L > 3) s.world.push_back({n.substr(0, L - 1), 'f', "3"});
        if (L < 255) s.world.push_back({n + " ", 'f', "5"});
        s.rseq = &sq[0]; s.conf = conf_ignore(s.ignore) + conf_seq("q", sq[0]); s.flags = {"-r"};
        for (auto o : {ORDER_SORTED, ORDER_REVERSE}) explore_scn(w, s, [o](HookArea &h) { h.order = o; }, exact);
    });
    // names of every content
    family("names of every content", odd_names().size() * 2, [&](Worker &w, uint64_t i) {
        const S &n = odd_names()[i / 2]; if (n.find('"') != S::npos || n.find('\n') != S::npos || n == "." || n == "..") return;      // cannot be listed
        Scn s; s.ignore = {n}; s.world = {{"sub", 'd', ""}, {"sub/x x", 'f', "0"}}; std::set<S> have = {"sub", "sub/x x"};
        for (const S &at : {S(), S("sub/")}) {
            S lo; for (char c : n) lo += c >= 'A' && c <= 'Z' ? c + 32 : c;
            int k = 0;
            for (const S &x : {n, lo, n + "%20x", n.substr(1), n.substr(0, n.size() - 1), " " + n, n + " ", "x" + n}) {
                if (x.empty() || x == "." || x == ".." || x.size() > 250 || !have.insert(at + x).second) continue;
                char t = (k++ + i) % 3 == 0 ? 'd' : 'f';
                s.world.push_back({at + x, t, t == 'd' ? "" : std::to_string(k)}); if (t == 'd') s.world.push_back({at + x + "/i i", 'f', "i"});
            }
        }
        s.rseq = &sq[0]; s.conf = conf_ignore(s.ignore) + conf_seq("q", sq[0]); s.flags = {"-r"}; s.records = true;
        explore_scn(w, s, i % 2 ? hooks_sorted : hooks_reverse, exact);
    });
    // ignored names as arguments, and lists from several blocks
    family("arguments and blocks", pool.size() * pool.size() * 4, [&](Worker &w, uint64_t i) {
        Scn s; int how = i % 4; S a = pool[i / 4 % pool.size()], b = pool[i / 4 / pool.size()];
        s.ignore = {a, b};
        S q = conf_seq("q", sq[0]);
        s.rseq = &sq[0];
        s.conf = how & 1 ? conf_ignore({a}) + q + conf_ignore({b}) : q + conf_ignore({a}) + conf_ignore({b});
        add_entry(s.world, a, 'd', 0);
        add_entry(s.world, a + "/" + b, 'd', 0);
        if (a != b) add_entry(s.world, b, 'f', 0);
        s.flags = {"-r"};
        s.args = how & 2 ? V<S>{a} : V<S>{"."};
        explore_scn(w, s, nullptr, exact);
    });
});

// ---------------------------------------------------------------- F06
static Reg f06("F06", [] {
    fs_rule("trees over free, colliding and unusable names at several levels, argument lists with failing arguments, and every number of entries around the growth steps; the tree afterwards must be one that dealing with every candidate one by one (in any order) gives");
    auto oracle = [](Ctx &c) -> S {
        if (c.R->signaled) return "ended by a signal";
        if (c.R->status) return "exit status " + std::to_string(c.R->status);
        return check_model(c);
    };
    auto fn = [&](Worker &w, const Scn &s) { explore_scn(w, s, nullptr, oracle); };
    fam_small("one directory, up to 2 entries", 12, "fdlhpL", 1, 2, FLAGS, fn);
    fam_small("one directory, 3 entries", O.thorough ? 9 : 5, "fdl", 3, 3, {{"-r"}, {"--special"}}, fn);
    fam_deep("chain of 2 directories", 2, {{}, {"-r"}}, fn);
    if (O.thorough) fam_deep("chain of 3 directories", 3, {{"-r"}}, fn);
    fam_args("two arguments", 2, {{}, {"-r", "--special"}}, fn);
    fam_sizes(FLAGS, fn);
    fam_args("three arguments", 3, {{"-r"}}, [&](Worker &w, const Scn &s) { explore_scn(w, s, nullptr, oracle); });
    fam_attr("types and attributes", FLAGS, fn);
    fam_attr("types and attributes, listing without types", O.thorough ? FLAGS : V<V<S>>{{"-r", "--special"}, {}}, [&](Worker &w, const Scn &s) { explore_scn(w, s, [](HookArea &h) { h.dtype_unknown = 1; }, oracle); });
    // depth
    family("depth", O.thorough ? 60 : 24, [&](Worker &w, uint64_t i) {
        Scn s; S at; s.flags = {"-r"};
        for (uint64_t l = 0; l <= i; l++) { S d = l % 3 == 2 ? "dd" : l % 3 ? "e?e" : "d d"; s.world.push_back({at + d, 'd', ""}); at += d + "/"; s.world.push_back({at + "f f", 'f', "l" + std::to_string(l)}); }
        for (auto o : {ORDER_SORTED, ORDER_REVERSE}) explore_scn(w, s, [o](HookArea &h) { h.order = o; }, oracle);
    });
    // numbers of entries: model is deterministic there
    fam_many("numbers of entries", O.thorough ? [] { auto v = upto(0, 140); for (int x : {255, 256, 257, 500, 1000, 1023, 1024, 1025, 3000}) v.push_back(x); return v; }() : [] { auto v = upto(0, 52); for (int x : {63, 64, 65, 100, 257, 1025}) v.push_back(x); return v; }(),
        {{"-r"}}, [&](Worker &w, const Scn &s) { for (auto o : {ORDER_SORTED, ORDER_REVERSE, ORDER_ROT}) explore_scn(w, s, [o](HookArea &h) { h.order = o; h.rot = 7; }, oracle); });
    // every length of a name, the character to replace at every end of it; results of up to and over the longest name
    family("lengths of names", 255 * 4, [&](Worker &w, uint64_t i) {
        Scn s; int len = i / 4 + 1, how = i % 4; s.flags = {"-r"};
        auto nm = [&](int l, char bad, int at) { S n; for (int k = 0; k < l; k++) n += char('a' + k % 26); n[at < 0 ? l + at : at] = bad; return n; };
        if (how == 0) { s.world.push_back({nm(len, ' ', -1) , 'f', "1"}); s.world.push_back({nm(len, ' ', 0), 'd', ""}); s.world.push_back({nm(len, ' ', 0) + "/" + nm(len, '?', len / 2), 'f', "2"}); }
        if (how == 1) { s.world.push_back({nm(len, ' ', len / 2), 'd', ""}); if (len > 1) s.world.push_back({nm(len - 1, ' ', len / 2 - (len / 2 == len - 1)), 'f', "3"}); s.world.push_back({nm(len, ' ', len / 2) + "/ z", 'f', "4"}); }
        if (how == 2) { s.world.push_back({nm(len, '&', len / 2), 'd', ""}); s.world.push_back({nm(len, '&', len / 2) + "/x y", 'f', "5"}); if (len > 5) s.world.push_back({nm(len, '&', 2).substr(0, len - 1) + "&", 'f', "6"}); }
        if (how == 3) { s.world.push_back({nm(len, ' ', -1), 'f', "7"}); s.world.push_back({"d d", 'd', ""}); s.world.push_back({"d d/" + nm(len, ' ', -1), 'f', "8"}); s.args = {"./" + nm(len, ' ', -1), "d d/" + nm(len, ' ', -1), "d d"}; }
        V<Ent> u; std::set<S> have;
        for (auto &e : s.world) { size_t z = e.path.find('/'); if (z != S::npos && !(have.count(e.path.substr(0, z) + "/"))) continue; if (have.insert(e.path).second) { if (e.t == 'd') have.insert(e.path + "/"); u.push_back(e); } }
        s.world = u;
        for (auto o : {ORDER_SORTED, ORDER_REVERSE}) explore_scn(w, s, [o](HookArea &h) { h.order = o; }, oracle);
        if (i == 41) sample_scn(s);
    });
    // paths of every length that the system can handle
    int step = O.thorough ? 3 : 29;
    family("lengths of paths", 3600 / step, [&](Worker &w, uint64_t i) {
        Scn s; S at; s.flags = {"-r"};
        int want = i * step + 4, lev = 0;
        while ((int)at.size() < want) { int l = std::min(199, want - (int)at.size()); S d(l, 'p'); d[l / 2] = lev++ % 2 ? ' ' : 'q'; s.world.push_back({at + d, 'd', ""}); at += d + "/"; s.world.push_back({at + "f f", 'f', "l" + std::to_string(lev)}); }
        explore_scn(w, s, hooks_sorted, oracle);
        s.args = {"@T/" + at + "f f", "./" + at};
        s.flags = {};
        explore_scn(w, s, hooks_sorted, oracle);
    });
    // far beyond
    family("very many", 10, [&](Worker &w, uint64_t i) {
        Scn s; s.order = ORDER_SORTED; s.flags = {"-r"}; S at;
        auto num = [](int k) { char b[32]; snprintf(b, sizeof b, "%05d", k); return S(b); };
        switch (i) {
            case 0: for (int k = 0; k < 5200; k++) s.world.push_back({"f " + num(k), 'f', num(k)}); break;
            case 1: s.order = ORDER_REVERSE; for (int k = 0; k < 2100; k++) s.world.push_back({"f " + num(k), 'f', num(k)}); break;
            case 2: for (int k = 0; k < 2100; k++) { s.world.push_back({"d " + num(k), 'd', ""}); s.world.push_back({"d " + num(k) + "/f f", 'f', num(k)}); } break;
            case 3: s.args.clear(); for (int k = 0; k < 2100; k++) { s.world.push_back({"f " + num(k), 'f', num(k)}); s.args.push_back("f " + num(k)); } break;
            case 4: s.args.clear(); for (int k = 0; k < 1100; k++) { s.world.push_back({"d " + num(k), 'd', ""}); s.world.push_back({"d " + num(k) + "/f f", 'f', num(k)}); s.args.push_back("d " + num(k)); } break;
            case 5: case 6: case 7: for (int k = 0; k < (i == 5 ? 70 : i == 6 ? 140 : 400); k++) { at += k % 2 ? "d d" : "dd"; s.world.push_back({at, 'd', ""}); at += "/"; if (k % 3 == 0) s.world.push_back({at + "f f", 'f', num(k)}); } s.world.push_back({at + "f f", 'f', "last"}); break;
            case 8: for (int k = 0; k < 40; k++) for (int j = 0; j < 70; j++) { if (!j) s.world.push_back({"d " + num(k), 'd', ""}); s.world.push_back({"d " + num(k) + "/f " + num(j), 'f', num(j)}); } break;
            case 9: for (int k = 0; k < 2100; k++) { s.world.push_back({"f " + num(k), 'f', num(k)}); s.world.push_back({"f_" + num(k), 'f', "taken"}); } break;
        }
        std::set<S> have; V<Ent> u; for (auto &e : s.world) if (have.insert(e.path).second) u.push_back(e); s.world = u;
        explore_scn(w, s, nullptr, oracle);
    });
    // more directories than files can be open
    family("numbers of directories", 6, [&](Worker &w, uint64_t i) {
        Scn s; s.flags = {"-r"}; int n = 60 + i / 2 * 60;
        if (i % 2) s.args.clear();
        for (int k = 0; k < n; k++) { S d = "d " + std::to_string(k); s.world.push_back({d, 'd', ""}); s.world.push_back({d + "/f f", 'f', d}); if (i % 2) s.args.push_back(d); }
        explore_scn(w, s, hooks_sorted, oracle);
    });
    // numbers of arguments, one of them failing at every position
    int maxa = O.thorough ? 70 : 36;
    family("numbers of arguments", maxa * 4, [&](Worker &w, uint64_t i) {
        Scn s; int n = i / 4 + 1, how = i % 4; s.args.clear();
        for (int k = 0; k < n; k++) { S a = "f " + std::to_string(k); s.world.push_back({a, k % 4 == 3 ? 'd' : 'f', ""}); if (k % 4 == 3) s.world.push_back({a + "/x x", 'f', a}); s.args.push_back(a); }
        if (how == 1) s.args.insert(s.args.begin(), "missing");
        if (how == 2) s.args.insert(s.args.begin() + n / 2, "miss ing");
        if (how == 3) { s.args.insert(s.args.begin() + n / 3, ""); s.args.push_back("gone"); }
        explore_scn(w, s, hooks_sorted, oracle);
        if (i == 6) sample_scn(s);
    });
    // directories that cannot be read or entered: the rest is done
    family("unreadable directories", 4 * 3 * 3, [&](Worker &w, uint64_t i) {
        Scn s; static const char *modes[] = {"000", "300", "500", "600"};
        s.flags = {"-r"};
        int m = i % 4, where = i / 4 % 3, k = i / 12;
        static const V<S> dn = {"b b", "m m", "y y"};
        for (int j = 0; j < 3; j++) { s.world.push_back({dn[j], 'd', ""}); s.world.push_back({dn[j] + "/c c", 'f', dn[j]}); s.world.push_back({dn[j] + "/e e", 'd', ""}); s.world.push_back({dn[j] + "/e e/z z", 'f', dn[j]}); }
        s.world.push_back({"k k", 'f', "k"});
        S bad = k == 0 ? dn[where] : dn[where] + "/e e";
        if (k == 2) bad = dn[where] + "/e e";
        s.world.push_back({bad, 'm', modes[m]});
        explore_scn(w, s, nullptr, [&, where, m](Ctx &c) -> S {
            // everything outside of the directory concerned is as the model says
            if (c.R->signaled) return "ended by a signal";
            S e = check_nothing_lost(c.a, c.b); if (!e.empty()) return e;
            e = check_changes_exact(c); if (!e.empty()) return e;
            Scope sc = scope_of(c);
            for (auto &x : sc.in) {
                S p = path_of(c.a, x.first) + "/" + x.second;
                if (p[0] == '/') p.erase(0, 1);
                bool changed = false;
                for (auto &y : c.changes) if (y.dir == x.first && y.from == x.second) changed = true;
                bool inbad = m == 2 ? p.compare(0, p.rfind('/'), "pad1/pad2/T/" + bad) == 0   // can be entered, nothing in it renamed
                                    : p.find("/T/" + dn[where] + "/") != S::npos;
                if (!inbad && !changed && c.o.clean(x.second) != x.second) return "entry " + qs(p) + " was not renamed";
            }
            return "";
        });
    });
});

// ---------------------------------------------------------------- F07
static S check_report(Ctx &c, bool faults)
{
    if (c.R->signaled) return "ended by a signal";
    V<S> others;
    auto lines = arrow_lines(c.R->out, &others, c.s->records);
    if (!c.o.verbose && !c.R->out.empty()) return "printed without being asked to: " + qs(c.R->out);
    if (!c.change_error.empty()) return c.change_error;
    std::multiset<std::pair<std::pair<uint64_t, S>, S>> made;
    for (auto &x : c.changes) made.insert({{x.dir, x.from}, x.to});
    Scope sc = scope_of(c);
    if (c.o.verbose) {
        for (auto &l : lines) {
            V<S> comps, nc; S base, nb;
            if (!split_path(l.old_, c.w->tree, comps, base) || !split_path(l.new_, c.w->tree, nc, nb)) return "printed path is outside of the tree: " + qs(l.old_);
            if (l.old_.substr(0, l.old_.size() - base.size()) != l.new_.substr(0, l.new_.size() - nb.size())) return "printed a rename to another directory: " + qs(l.old_ + " -> " + l.new_);
            std::set<uint64_t> ds; walk_path(c, c.T, comps, 0, ds);
            bool ok = false;
            for (auto d : ds) { auto it = made.find({{d, base}, nb}); if (it != made.end()) { made.erase(it); ok = true; break; } }
            if (!ok && faults) for (auto d : ds) if (sc.in.count({d, base}) && c.o.clean(base) == nb && c.R->err.find(base) != S::npos) ok = true;
            if (!ok) return "printed a rename that was not made: " + qs(l.old_ + " -> " + l.new_);
        }
        if (!made.empty()) return "a rename was not printed: " + qs(made.begin()->first.second + " -> " + made.begin()->second);
    }
    // refusals; what is in a directory that was renamed before its argument came up is not reached, and the argument reported
    Scn reached = *c.s; reached.args.clear();
    for (auto &a : c.s->args) if (a.empty() || c.R->err.find((a.compare(0, 3, "@T/") ? a : a.substr(3)) + ": No such file") == S::npos) reached.args.push_back(a);
    const Scn *all = c.s; c.s = &reached; Scope rc = scope_of(c); c.s = all;
    for (auto &x : rc.in) {
        S t = c.o.clean(x.second);
        if (t == x.second) continue;
        bool changed = false;
        for (auto &y : c.changes) if (y.dir == x.first && y.from == x.second) changed = true;
        if (changed) continue;
        if (faults && c.R->used_faults) {
            // what could not be examined or listed is reported instead of the entries that were not dealt with because of it
            const Fault &f = c.R->faults[0];
            if (f.op.compare(0, 6, "rename")) {
                if (f.op != "readdir" && f.op != "opendir" && f.err == ENOENT) continue;    // it has gone
                if (f.op == "fopen" || f.op == "open" || f.op == "openat") { if (f.path.compare(0, 2, "./") && f.path != ".") continue; }   // configurations
                size_t k = f.path.rfind('/');
                S b = k == S::npos ? f.path : f.path.substr(k + 1);
                if (c.R->err.find(b) != S::npos) continue;
                if (c.R->err.find(x.second) != S::npos) continue;
                return f.op + " of " + qs(f.path) + " failed (" + strerrorname_np(f.err) + "), entry " + qs(x.second) + " was not renamed to " + qs(t) + ", and nothing was reported";
            }
            S pat = "FAIL rename";
            size_t p = c.R->trace.find(pat), e = c.R->trace.find('\n', p);
            if (p == S::npos) continue;
            S line = c.R->trace.substr(p, e - p);
            if (line.find(qs(x.second).substr(1)) == S::npos) continue;
            // it may have been done another way: then it is changed and we are not here
        }
        if (c.R->err.find(x.second) == S::npos) return "entry " + qs(x.second) + " was not renamed to " + qs(t) + ", and nothing was reported";
    }
    if (!faults) {
        // nothing is reported when all went well
        bool any = false;
        Model m{&c.a, &c.o};
        for (auto &arg : plain_args(*c.s)) {
            uint64_t p, ino; S n;
            bool there = !arg.empty() && (m.resolve(c.a.dirs, c.T, arg, p, n, ino, "") );
            if (!there) {
                any = true;
                if (c.s->args.size() == 1 && c.R->err.find(arg) == S::npos) return "missing argument " + qs(arg) + " was not reported";
                if (c.R->err.empty()) return "missing argument " + qs(arg) + " was not reported";
            }
        }
        if (!any) {
            bool refused = false;
            for (auto &x : sc.in) { S t = c.o.clean(x.second); if (t == x.second) continue; bool ch = false; for (auto &y : c.changes) if (y.dir == x.first && y.from == x.second) ch = true; if (!ch) refused = true; }
            if (!refused && !c.R->err.empty() && c.s->args.size() == 1) return "reported something although all went well: " + qs(c.R->err);
        }
    }
    return "";
}
static Reg f07("F07", [] {
    fs_rule("the trees of F01 and F06 with and without -v in every listing order, missing arguments, and every single failing call; the printed pairs must be exactly the renames found by comparing the tree before and after, every refusal, and everything that could not be examined or listed, must be on standard error");
    auto fn = [](Worker &w, const Scn &s) { explore_scn(w, s, nullptr, [](Ctx &c) -> S { return check_report(c, false); }); };
    static const V<V<S>> fl = {{"-v"}, {"-v", "-r"}, {"-r"}, {"-v", "-r", "--special"}, {"-vv"}, {"-v", "-vv", "-r"}};
    fam_small("one directory, up to 2 entries", 12, "fdlh", 1, 2, fl, fn);
    fam_small("one directory, 3 entries", O.thorough ? 9 : 5, "fdl", 3, 3, {{"-v", "-r", "--special"}}, fn);
    fam_deep("chain of 2 directories", 2, {{"-v", "-r"}, {}, {"-v", "-v"}}, fn);
    fam_args("one argument", 1, fl, fn);
    fam_args("two arguments", 2, {{"-v", "-r"}, {"-v", "-v"}}, fn);
    fam_sizes({{"-v"}, {"-v", "-r", "--special"}}, fn);
    static const V<V<S>> rf = {{"-v", "-r"}, {"-r"}, {}};
    fam_refused(rf, fn);
    // paths longer than the system can handle: what cannot be reached is named, itself or the directory that it is in
    int pst = O.thorough ? 1 : 5;
    family("paths that are too long", 640 / pst * 4, [pst](Worker &w, uint64_t i) {
        static const V<V<S>> fl4 = {{"-v", "-r"}, {"-r"}, {"-n", "-r"}, {"-v"}};
        Scn s; s.order = ORDER_SORTED; int how = i % 4; s.flags = fl4[i / 4 % 4]; int want = 3560 + i / 4 * pst, lev = 0; S at;
        while ((int)at.size() < want) { int l = std::min(99, want - (int)at.size()); if (l < 5) l = 5; S x(l, 'p'); x.replace(0, 4, std::to_string(1000 + lev)); if (lev++ % 2) x[l - 1] = ' '; s.world.push_back({at + x, 'd', ""}); at += x + "/"; if (lev % 5 == 0) s.world.push_back({at + "f " + std::to_string(1000 + lev), 'f', ""}); }
        one_of_each(s.world, at, "last", "");
        one_of_each(s.world, at, S(200, 'y'), "");
        s.world.push_back({"z z", 'f', ""});
        if (how == 1) s.args = {"@T/", "z z"};
        if (how == 2) s.args = {"./" + at.substr(0, at.size() - 1), "z z"};
        if (how == 3) s.args = {at + "last f", at + "last d/i i", at + S(200, 'y') + " f", "z z"};
        explore_scn(w, s, nullptr, [](Ctx &c) -> S {
            if (c.R->signaled) return "ended by a signal";
            if (!c.change_error.empty()) return c.change_error;
            if (c.o.dry && !c.changes.empty()) return "a dry run renamed";
            for (auto &x : scope_of(c).in) {
                S t = c.o.clean(x.second);
                if (t == x.second) continue;
                bool ok = false;
                for (auto &y : c.changes) if (y.dir == x.first && y.from == x.second) { if (y.to != t) return "entry " + qs(x.second) + " was renamed to " + qs(y.to); ok = true; }
                if (!ok && c.o.dry && c.R->out.find(x.second + " -> ") != S::npos) ok = true;
                // it or a directory above it is named
                if (!ok && c.R->err.find(x.second) != S::npos) ok = true;
                S p = path_of(c.a, x.first); size_t z = p.rfind('/');
                while (!ok && z != S::npos) { S n = p.substr(z + 1); if (n.size() > 4 && (c.R->err.find("/" + n + ": ") != S::npos || c.R->err.find("/" + c.o.clean(n) + ": ") != S::npos)) ok = true; p.erase(z); z = p.rfind('/'); }
                if (!ok) return "entry " + qs(x.second) + " was not renamed to " + qs(t) + ", and nothing was reported";
            }
            return "";
        });
    });
    auto tty = [](Worker &w, const Scn &s) { explore_scn(w, s, [](HookArea &h) { h.tty = 1; h.order = ORDER_SORTED; }, [](Ctx &c) -> S { return check_report(c, false); }); };
    fam_small("on a terminal", 9, "fdl", 1, 2, {{"-v", "-r", "--special"}, {}}, tty);
    fam_args("on a terminal, one argument", 1, {{"-v"}, {"-v", "-r"}}, tty);
    fam_many("numbers of entries", O.thorough ? upto(0, 40) : upto(14, 18), {{"-v", "-r"}}, [](Worker &w, const Scn &s) { explore_scn(w, s, hooks_sorted, [](Ctx &c) -> S { return check_report(c, false); }); });
    // one failing call
    fam_small("one failing call", 7, "fd", 1, O.thorough ? 3 : 2, {{"-v", "-r"}, {"-r"}}, [](Worker &w, const Scn &s) {
        explore_scn(w, s, [](HookArea &h) { h.faults = 1; h.more_errnos = 1; h.order = ORDER_SORTED; }, [](Ctx &c) -> S { return check_report(c, true); });
    });
    static const V<S> upn = {"A", "a", "B", "A B", "a b", "a_b"};
    fam_small("upper case", 6, "fdh", 1, 3, {{"-v"}}, fn, "lower", &upn);
    // other sequences
    static const V<S> mixn = {"A b", "\xc3\x84 x", "a__b", "--a", "%2541", "%41", "a_b", "A"};
    for (auto &sq : {"utf_8", "lower", "uncgi-only"}) fam_small(S("mixed names, ") + sq, 8, "fd", 1, 2, {{"-v", "-r"}}, fn, sq, &mixn);
});

// ---------------------------------------------------------------- F08
static Reg f08("F08", [] {
    fs_rule("trees over names that need several steps of cleaning, run twice with the stock sequences default, utf_8 and lower in every listing order of the first run and both orders of the second; the second run must leave every name alone");
    auto run2 = [](Worker &w, const Scn &s) {
        Run again = run_of(w, s);
        explore_scn(w, s, nullptr, [&](Ctx &c) -> S {
            if (c.R->signaled) return "ended by a signal";
            // arguments under their new names
            Run r2 = again;
            r2.argv.clear();
            r2.argv = {"detox"};
            if (!s.seq.empty()) { r2.argv.push_back("-s"); r2.argv.push_back(s.seq); }
            for (auto &f : s.flags) r2.argv.push_back(f);
            Model m{&c.a, &c.o};
            for (auto &arg : plain_args(s)) {
                uint64_t p, ino; S n;
                if (arg.empty() || !m.resolve(c.a.dirs, c.T, arg, p, n, ino, "")) continue;
                S np = path_of(c.b, ino);
                if (np.compare(0, 12, "pad1/pad2/T/") == 0) np = np.substr(12);
                else np = ".";
                r2.argv.push_back("./" + np + (n.empty() && np != "." ? "/" : ""));
            }
            if (r2.argv.back()[0] != '.') return "";
            for (auto o : {ORDER_SORTED, ORDER_REVERSE}) {
                Result R2 = w.run(with_hooks(r2, [o](HookArea &h) { h.order = o; }));
                Snap b2 = snapshot(w.top);
                if (!(b2 == c.b)) return "the second run changed the tree\nafter the first:\n" + c.b.text() + "after the second:\n" + b2.text() + "calls of the second:\n" + R2.trace;
            }
            return "";
        });
    };
    static const V<S> nm = {"a _b", "a_b", "- a", "a b", "_.a", "A..b", "\xc3\xa4 \xc3\xb6", "a- -_.x", "\xe2\x80\x94 a", "x&&y", "\xff\xfe", "__", "#_a", "\xc0\xaf", "a.", " .a"};
    for (auto &sq : {"default", "utf_8", "lower"}) {
        fam_small(S("one directory, 1 or 2 entries, ") + sq, 16, "fd", 1, 2, {{"-r"}}, run2, sq, &nm);
        if (O.thorough) fam_small(S("one directory, 3 entries, ") + sq, 16, "f", 3, 3, {{"-r"}}, run2, sq, &nm);
    }
    if (!O.thorough) fam_small("one directory, 3 entries", 9, "f", 3, 3, {{"-r"}}, run2, "utf_8", &nm);
    fam_deep("chain of 2 directories", 2, {{"-r"}}, run2);
    fam_args("one argument", 1, {{"-r"}, {"--special"}}, run2);
    fam_sizes({{"-r"}, {"--special"}}, run2);
});
