// Options and arguments; the inline mode.
#include "inline.hpp"
#include "oddnames.hpp"
#include <dirent.h>
#include <limits.h>

// ---------------------------------------------------------------- O01
// a command line: what it asks for
struct Asked { bool r = false, n = false, v = false, special = false, conf = false; S seq; };
static const V<Ent> &owld() { static V<Ent> v = {{"a b", 'f', "1"}, {"C d", 'd', ""}, {"C d/e F", 'f', "2"}, {"C d/g h", 'd', ""}, {"C d/g h/i J", 'f', "3"}, {"C d/l l", 'l', "x"}, {"L k", 'l', "a b"}, {"p p", 'p', ""}, {"-r", 'f', ""}, {"--special", 'f', ""}, {"-n x", 'f', ""}}; return v; }
static const char *OCONF = "sequence default { max_length { length 2; }; };\nsequence \"lower\" { lower; safe; };\nsequence other { uncgi; };\nignore { filename \"zz\"; };\n";
static const RSeq &oseq(const Asked &a)
{
    static std::map<S, RSeq> m = [] {
        std::map<S, RSeq> x;
        Conf c; conf_read(c, OCONF, "");
        for (auto &q : c.seqs) { RSeq r; conf_filters(q, r); x["c" + q.name] = r; }
        return x;
    }();
    S n = a.seq.empty() ? "default" : a.seq;
    return a.conf ? m.at("c" + n) : stock_seq(n);
}
// what is printed, from the tree before the run, for arguments in the working directory
static S oprint(Ctx &c, const Asked &a, const V<S> &args)
{
    Dirs d = c.a.dirs; S out;
    auto one = [&](uint64_t dir, const S &path, const S &name) -> S {      // the name it has afterwards
        S t = c.o.clean(name);
        if (t == name || !Model::usable(t)) return name;
        if (d[dir].count(t)) return name;
        if (a.v || a.n) out += path + name + " -> " + path + t + "\n";
        if (a.n) return name;
        d[dir][t] = d[dir][name]; d[dir].erase(name);
        return t;
    };
    std::function<void(uint64_t, S)> dir = [&](uint64_t ino, S path) {
        auto list = d[ino];
        for (auto &e : list) {
            if (e.first[0] == '.' || has(c.o.ignore, e.first)) continue;
            char t = c.type(e.second);
            if (t == 'd') { S n = one(ino, path + "/", e.first); if (a.r) dir(e.second, path + "/" + n); }
            else if (t == 'f' || a.special) one(ino, path + "/", e.first);
        }
    };
    for (auto &x : args) {
        if (a.v) out += "Scanning: " + x + "\n";
        auto e = d[c.T].find(x);
        if (e == d[c.T].end()) continue;
        uint64_t ino = e->second; char t = c.type(ino);
        if (t == 'd') { S n = one(c.T, "", x); dir(ino, n); }
        else if (t == 'f' || a.special) one(c.T, "", x);
    }
    return out;
}
static void ocheck(Worker &w, const V<S> &argv, const Asked &a, const V<S> &args)
{
    Scn s; s.world = owld(); s.order = ORDER_SORTED; s.raw = argv; s.args = args;
    write_file(w.dir + "/conf", OCONF);
    if (a.r) s.flags.push_back("-r");
    if (a.n) s.flags.push_back("-n");
    if (a.special) s.flags.push_back("--special");
    s.ignore = a.conf ? V<S>{"zz"} : V<S>{"{arch}"};
    s.rseq = &oseq(a);
    explore_scn(w, s, nullptr, [&](Ctx &c) -> S {
        if (c.R->signaled) return "ended by a signal";
        S e = check_changes_exact(c);
        if (e.empty() && a.n && !c.changes.empty()) e = "a dry run renamed something";
        if (e.empty() && !a.n) { c.o.dry = false; e = check_model(c); }
        if (!e.empty()) return e;
        S want = oprint(c, a, args);
        if (c.R->out != want) return "printed\n" + c.R->out + "expected\n" + want;
        return "";
    });
}
// options: letter, forms
struct OOpt { char c; V<V<S>> forms; };
static V<OOpt> oopts(const Worker &w)
{
    S f = w.dir + "/conf";
    return {{'r', {{"-r"}, {"--recursive"}}}, {'n', {{"-n"}, {"--dry-run"}}}, {'v', {{"-v"}, {"--verbose"}}}, {'S', {{"--special"}}},
            {'f', {{"-f", f}, {"-f" + f}}}, {'s', {{"-s", "lower"}, {"-slower"}}}};
}
static void oset(Asked &a, char c)
{
    if (c == 'r') a.r = true;
    if (c == 'n') a.n = true;
    if (c == 'v') a.v = true;
    if (c == 'S') a.special = true;
    if (c == 'f') a.conf = true;
    if (c == 's') a.seq = "lower";
}
static uint64_t fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }
static V<int> perm(int n, uint64_t k) { V<int> r, l; for (int i = 0; i < n; i++) l.push_back(i); for (int i = n; i > 0; i--) { r.push_back(l[k % i]); l.erase(l.begin() + k % i); k /= i; } return r; }
static Reg o01("O01", [] {
    RULE = "every subset of up to 4 of 6 options (thorough: 6) in every spelling and in every order, with the files at every place between them; every bundle of letters; -- at every place; -h, -V, -?, -L and unknown options at every place of command lines; every number of arguments up to 320; the tree and everything printed must be what a model gives";
    EXHAUSTIVE = true;
    // subsets, spellings, orders; two files in that order between the options
    V<int> subs; for (int m = 0; m < 64; m++) if (__builtin_popcount(m) <= (O.thorough ? 6 : 4)) subs.push_back(m);
    for (int m : subs) {
        int k = __builtin_popcount(m), forms = 1 << k;
        uint64_t orders = fact(k), places = (k + 1) * (k + 2) / 2;     // first file after i options, second after j >= i
        bool all_places = k <= (O.thorough ? 4 : 3), all_forms = k <= 4;
        family("options " + std::to_string(m), orders * (all_places ? places : 4) * (all_forms ? forms : 2), [=](Worker &w, uint64_t i) {
            auto opts = oopts(w); V<OOpt> use; for (int b = 0; b < 6; b++) if (m >> b & 1) use.push_back(opts[b]);
            uint64_t np = all_places ? places : 4;
            V<int> p = perm(k, i % orders); uint64_t pl = i / orders % np; int fm = i / orders / np;
            int i1 = 0, i2 = 0;
            if (all_places) { for (int a = 0, x = 0; a <= k; a++) for (int b = a; b <= k; b++, x++) if (x == (int)pl) i1 = a, i2 = b; }
            else { static const int q[4][2] = {{9, 9}, {0, 9}, {0, 0}, {1, 2}}; i1 = std::min(k, q[pl][0]); i2 = std::min(k, q[pl][1]); }
            if (!all_forms) fm = fm ? 255 : 0;
            Asked a; V<S> argv = {"detox"};
            for (int j = 0; j <= k; j++) {
                if (i1 == j) argv.push_back("a b");
                if (i2 == j) argv.push_back("C d");
                if (j == k) break;
                auto &o = use[p[j]]; oset(a, o.c);
                for (auto &x : o.forms[o.forms.size() == 1 ? 0 : fm >> j & 1]) argv.push_back(x);
            }
            argv.push_back("L k");
            if (i % 997 == 3) sample(joinargs(argv));
            ocheck(w, argv, a, {"a b", "C d", "L k"});
        });
    }
    // bundles: words over r, n, v; then nothing, f or s with the value in the same or the next argument
    family("bundles", (3 + 9 + 27 + 81) * 7 * 3, [](Worker &w, uint64_t i) {
        int tail = i % 7, pl = i / 7 % 3; uint64_t x = i / 21; int len = 1; uint64_t c = 3;
        while (x >= c) { x -= c; c *= 3; len++; }
        S b = "-"; Asked a;
        for (int j = 0; j < len; j++) { char l = "rnv"[x % 3]; x /= 3; b += l; oset(a, l); }
        V<S> o = {b}; S f = w.dir + "/conf";
        switch (tail) {
            case 1: o = {b + "f", f}; a.conf = true; break;
            case 2: o = {b + "f" + f}; a.conf = true; break;
            case 3: o = {b + "s", "lower"}; a.seq = "lower"; break;
            case 4: o = {b + "slower"}; a.seq = "lower"; break;
            case 5: o = {b + "s", "utf_8", "-vf" + f, "-slower"}; a.seq = "lower"; a.conf = a.v = true; break;
            case 6: o = {b, "-s", "other", "-f", "/nonexistent", "-s", "lower", "-f", f}; a.seq = "lower"; a.conf = true; break;
        }
        V<S> argv = {"detox"};
        if (pl == 2) argv.push_back("C d");
        for (auto &y : o) argv.push_back(y);
        if (pl != 2) argv.push_back("C d");
        argv.push_back("p p");
        if (pl == 1) argv.push_back("-v"), a.v = true;
        ocheck(w, argv, a, {"C d", "p p"});
    });
    // --: what follows is a file
    static const V<S> fl = {"a b", "-r", "--special", "-n x", "C d", "--"};
    family("-- at every place", 6 * 6 * 6 * 5, [](Worker &w, uint64_t i) {
        V<S> f = {fl[i % 6], fl[i / 6 % 6], fl[i / 36 % 6]}; int form = i / 216;
        Asked a; V<S> argv = {"detox"}, args;
        if (form == 1) { argv.push_back("-r"); a.r = true; }
        if (form == 2) { argv.push_back("-vn"); a.v = a.n = true; }
        if (form == 3) { argv.push_back("C d"); argv.push_back("-slower"); a.seq = "lower"; args.push_back("C d"); }
        if (form == 4) { argv.push_back("--special"); argv.push_back("a b"); argv.push_back("-v"); a.special = a.v = true; args.push_back("a b"); }
        argv.push_back("--");
        for (auto &x : f) { argv.push_back(x); args.push_back(x); }
        ocheck(w, argv, a, args);
    });
    // files with names like options
    static const V<S> odd = {"-", "-n", "-x y", "--", "---", "--dry-run", "--no such", "-s", "-f", "-V", "-h", "--help", "-L", "-r", "-nv", "-slower", "--inline", "-?", "--special", "-1", "+x", "+", "=x", "=", "@x", "x=y", "-.", "--=", "x-", "-\n"};
    family("files with names like options", odd.size() * odd.size() * 4, [](Worker &w, uint64_t i) {
        const S &a = odd[i % odd.size()], &b = odd[i / odd.size() % odd.size()]; int form = i / odd.size() / odd.size();
        if (a == b) return;
        bool ends = form < 2;           // after --
        if (!ends) for (auto &x : {a, b}) if (x[0] == '-' && x.size() > 1) return;
        static const RTable t = {{{'-', "m"}, {' ', "_"}, {'+', "p"}, {'=', "q"}, {'?', "w"}, {'@', "at"}, {'\n', "nl"}}, std::nullopt};
        S tf = w.dir + "/odd.tbl"; write_file(tf, table_text(t));
        RSeq q = {{R_SAFE, &t, 0, tf, true}};
        if (ref_seq(q, a) == ref_seq(q, b)) return;
        Scn s; s.order = ORDER_SORTED; s.conf = conf_seq("default", q); s.rseq = &q; s.ignore.clear();
        s.world = {{a, 'f', "1"}, {b, form % 2 ? 'd' : 'f', form % 2 ? "" : "2"}, {"o ther", 'f', "3"}};
        s.args.clear(); if (ends) s.args.push_back("--"); s.args.push_back(a); s.args.push_back(b);
        if (form == 1 || form == 2) s.args.insert(s.args.begin(), "-r");
        explore_scn(w, s, nullptr, [&](Ctx &c) -> S {
            if (c.R->signaled) return "ended by a signal";
            auto is = [&](const S &n) { auto d = c.b.dirs.find(c.T); return d != c.b.dirs.end() && d->second.count(n); };
            for (auto &x : {a, b}) { S to = ref_seq(q, x); if (is(to) && !is(x)) continue; return qs(x) + " was named and is not " + qs(to) + " now" + how(*c.R); }
            return is("o ther") ? "" : "a file that was not named was renamed";
        });
    });
    // what ends the program early
    static const V<V<S>> cl = {{"a b"}, {"-r", "a b", "C d"}, {"a b", "-v", "C d", "--special", "L k"}, {"-rv", "--", "a b"}, {"-s", "lower", "a b"}, {"-slower", "C d", "-r"}, {"--recursive", "--special", "-s", "lower", "C d"}, {}, {"-r"}, {"-s", "lower", "--verbose"}, {"--"}};
    static const V<S> ends = {"-h", "--help", "-V", "-?", "-L", "--nosuch", "-x", "-Lv", "-vL", "-Lr", "-hr", "-rh", "-nV", "-W", "--inlin", "--dry-runs"};
    family("-h, -V, -?, -L and unknown options at every place", cl.size() * ends.size() * 8 * 2, [](Worker &w, uint64_t i) {
        const V<S> &c = cl[i % cl.size()]; const S &e = ends[i / cl.size() % ends.size()]; size_t at = i / cl.size() / ends.size() % 8; bool inl = i / cl.size() / ends.size() / 8;
        if (at > c.size() || e == "--inlin") return;
        V<S> argv = {inl ? "inline-detox" : "detox"}; bool lit = false, verbose = e.find('v') != S::npos && e[1] != '-'; std::optional<S> seq;
        for (size_t j = 0; j <= c.size(); j++) {
            if (j == at) argv.push_back(e);
            if (j == c.size()) break;
            if (j < at && c[j] == "--") lit = true;       // then it is a file
            if (j < at && c[j] == "-s" && j + 1 == at) lit = true;      // or a value
            if (c[j] == "-v" || c[j] == "--verbose" || c[j] == "-rv") verbose = true;
            if (c[j] == "-s" && j + 1 < c.size()) seq = c[j + 1];
            if (c[j] == "-slower") seq = "lower";
            argv.push_back(c[j]);
        }
        if (lit) return;
        Scn s; s.world = owld(); s.order = ORDER_SORTED; s.raw = argv;
        explore_scn(w, s, nullptr, [&](Ctx &x) -> S {
            if (x.R->signaled) return "ended by a signal";
            if (!x.changes.empty() || !(x.a == x.b)) return "something was renamed";
            if (x.R->nmut) return "tried to change something";
            if (e.find('L') != S::npos) {
                Conf r; if (conf_read(r, read_file(O.golden + "/detoxrc"), "built-in config file")) exit(3);
                S l = conf_list(r, conf_choose(r, seq), verbose);
                if (x.R->out != l || x.R->status) return "listed\n" + x.R->out + "expected\n" + l;
            } else if (e.find('V') != S::npos) { if (!starts(x.R->out, "detox ") || x.R->status) return "did not show the version"; }
            else if (e.find('h') != S::npos && e != "--nosuch") { if (!starts(x.R->out, "usage: ") || x.R->out.find("-f configfile") == S::npos || x.R->status) return "did not show the help"; }
            else if (!starts(x.R->out, "usage: ") && x.R->err.empty()) return "showed nothing";
            return "";
        });
    });
    // no file
    static const V<V<S>> nofile = {{}, {"-r"}, {"-n"}, {"-v"}, {"--special"}, {"-s", "lower"}, {"-s", "missing"}, {"-rv", "--special"}, {"--"}, {"-r", "--"}, {"-f", "@"}, {"--recursive", "-n", "--verbose"}};
    family("no file at all", nofile.size(), [](Worker &w, uint64_t i) {
        Scn s; s.world = owld(); s.raw = {"detox"}; s.order = ORDER_SORTED;
        write_file(w.dir + "/conf", OCONF);
        for (auto &x : nofile[i]) s.raw.push_back(x == "@" ? w.dir + "/conf" : x);
        explore_scn(w, s, nullptr, [](Ctx &x) -> S {
            if (!x.changes.empty() || !(x.a == x.b) || x.R->nmut) return "something was renamed";
            if (x.R->status == 0 || x.R->signaled || !starts(x.R->out, "usage: ")) return "did not end with the usage and an error";
            return "";
        });
    });
    // missing values
    family("options without their value", 6, [](Worker &w, uint64_t i) {
        static const V<V<S>> c = {{"a b", "-s"}, {"a b", "-f"}, {"-r", "C d", "-rs"}, {"-r", "C d", "-vf"}, {"-s"}, {"-f"}};
        Scn s; s.world = owld(); s.raw = {"detox"}; s.order = ORDER_SORTED; for (auto &x : c[i]) s.raw.push_back(x);
        explore_scn(w, s, nullptr, [](Ctx &x) -> S {
            if (!x.changes.empty() || x.R->nmut || x.R->signaled) return "something was renamed";
            return x.R->out.empty() && x.R->err.empty() ? "said nothing" : "";
        });
    });
    // many arguments: each once, in order
    family("every number of arguments", 320 * 3, [](Worker &w, uint64_t i) {
        int n = i / 3 + 1, kind = i % 3; Ev e(w, "number of arguments"); e.n++;
        wipe(w.tree); V<S> argv = {"detox"}; S want, werr;
        if (kind == 2) argv = {"inline-detox"}; else argv.push_back("-v");
        for (int j = 0; j < n; j++) {
            S f = "f " + std::to_string(j) + "x", t = f; t[1] = '_';
            bool missing = kind != 2 && j % 7 == 3;
            if (!missing) write_file(w.tree + "/" + f, kind == 2 ? "l " + std::to_string(j) + "\nm\n" : "c");
            if (kind == 2) want += "l_" + std::to_string(j) + "\nm\n";
            else { want += "Scanning: " + f + "\n"; if (missing) werr += f + ": No such file or directory\n"; else want += f + " -> " + t + "\n"; }
            argv.push_back(f);
            if (kind == 1 && j % 50 == 20) argv.push_back("-r");
        }
        Result R = w.run(plain_run(w, argv));
        S d = std::to_string(n) + " arguments";
        if (R.status || R.out != want || R.err != werr) e.fail(d, "gives" + how(R) + "\nexpected stdout " + qs(want.substr(0, 1500)) + "\nstderr " + qs(werr)); else e.same(d, R.out, want);
        wipe(w.tree);
    });
    family("every number of entries in a directory", 320, [](Worker &w, uint64_t i) {
        int n = i + 1; Ev e(w, "number of entries"); e.n++;
        wipe(w.tree); mkdirs(w.tree + "/d"); std::map<S, S> all; S want;
        for (int j = 0; j < n; j++) { S f = "f " + std::to_string(j) + "x", t = f; t[1] = '_'; write_file(w.tree + "/d/" + f, "c"); all[f] = t; }
        for (auto &x : all) want += "d/" + x.first + " -> d/" + x.second + "\n";
        Result R = w.run(plain_run(w, {"detox", "-v", "d"}));
        S d = std::to_string(n) + " entries";
        if (R.status || R.out != "Scanning: d\n" + want) e.fail(d, "gives" + how(R) + "\nexpected " + qs(want.substr(0, 1500))); else e.same(d, R.out, "Scanning: d\n" + want);
        wipe(w.tree);
    });
    // the same argument again, missing ones, empty ones
    static const V<S> as = {"a b", "C d", "missing x", "", "L k", "./C d", "C d/", "C d/g h", "a b/x", "."};
    for (int n = 1; n <= (O.thorough ? 4 : 3); n++)
        family("every list of " + std::to_string(n) + " arguments", nwords(as.size(), n), [n](Worker &w, uint64_t i) {
            Scn s; s.world = owld(); s.order = ORDER_SORTED; s.args = {};
            for (int j = 0; j < n; j++) { s.args.push_back(as[i % as.size()]); i /= as.size(); }
            s.flags = {"-v"};
            explore_scn(w, s, nullptr, [&](Ctx &c) -> S {
                S e = check_changes_exact(c);
                if (e.empty()) e = check_model(c);
                if (!e.empty()) return e;
                V<S> others, scan; arrow_lines(c.R->out, &others);
                for (auto &a : s.args) scan.push_back("Scanning: " + a);
                if (others != scan) return "did not go through the arguments in order:\n" + c.R->out;
                if (c.R->status) return "ended with status " + std::to_string(c.R->status);
                return "";
            });
        });
});

// ---------------------------------------------------------------- I01
struct ISrc { int how; };   // 0 inline-detox, stdin; 1 detox --inline, stdin; 2 file; 3 two files; 4 --inline between options
static S stream_check(Worker &w, Ev &e, const S &seq, const RSeq &q, const S &in, int src, bool tty = false)
{
    S want; auto put = [&](const S &part) { auto l = lines_of(part); for (size_t i = 0; i < l.size(); i++) want += ref_line(q, l[i]) + (i + 1 < l.size() || part.back() == '\n' ? "\n" : ""); };
    Run r; V<S> a;
    switch (src) {
        case 0: a = {"inline-detox", "-s", seq}; break;
        case 1: a = {"detox", "--inline", "-s", seq}; break;
        case 2: a = {"inline-detox", "-s", seq, "in 1"}; break;
        case 3: case 6: a = {src == 3 ? "/x/y z/inline-detox" : "inline-detox", "in 1", "-s" + seq, "in 2"}; break;
        case 4: a = {"./detox", "-vr", "-s", seq, "--inline", "--special"}; break;
        case 5: a = {"detox", "in 1", "--inline", "-s", seq}; break;
    }
    bool file = src == 2 || src == 3 || src == 5 || src == 6;
    if (file) { write_file(w.tree + "/in 1", src == 6 ? S("first a\nlast b") : in); put(src == 6 ? S("first a\nlast b") : in); }
    if (src == 3 || src == 6) { S two = src == 6 ? in : S("\xc3\xa9\n..\nsecond  file"); write_file(w.tree + "/in 2", two); put(two); }
    if (!file) put(in);
    r = plain_run(w, a, file ? S("not to be read\n") : in);
    if (tty) r = with_hooks(r, [](HookArea &h) { h.tty = 1; });
    Result R = w.run(r);
    if (R.status || R.signaled || R.out != want) { e.fail(in, joinargs(a) + "\ngave " + qs(R.out) + "\nexpected " + qs(want) + how(R)); return ""; }
    e.same(in, R.out, want);
    return R.out;
}
static Reg i01("I01", [] {
    RULE = "every stream of up to 4 lines (thorough: 5) out of 13, with and without a newline at the end, from standard input, from one and two files, with 5 ways to ask for the inline mode and 5 sequences; every number of lines up to 300, and every length of a line around the buffer size, next to every kind of line";
    EXHAUSTIVE = true;
    static const V<S> L = {"", ".", "..", "a b", "x", "\xc3\xa9\xe2\x82\xac", "-_", "...", "#a  b#", "a/b&c", "%41%20+", "\xe9\xff", "\t\r"};
    static const V<S> seqs = {"default", "utf_8", "lower", "uncgi", "iso8859_1-legacy"};
    uint64_t k = L.size();
    for (int n = 0; n <= (O.thorough ? 5 : 4); n++)
        for (int tail = 0; tail < 2; tail++)
            family("every stream of " + std::to_string(n) + " lines" + (tail ? ", no newline at the end" : ""), nwords(k, n), [=](Worker &w, uint64_t i) {
                Ev e(w, "stream"); S in; uint64_t x = i;
                for (int j = 0; j < n; j++) { in += L[x % k] + (tail && j + 1 == n ? "" : "\n"); x /= k; }
                if (i % 5003 == 13) sample(qs(in));
                if (n <= 2) { for (auto &s : seqs) for (int src = 0; src < 7; src++) stream_check(w, e, s, stock_seq(s), in, src); }
                else if (n == 3) for (int t = 0; t < 2; t++) { uint64_t h = i * 2 + t; stream_check(w, e, seqs[h % 5], stock_seq(seqs[h % 5]), in, h / 5 % 7); }
                else { uint64_t h = i * 11; stream_check(w, e, seqs[h % 5], stock_seq(seqs[h % 5]), in, h % 7); }
            });
    static const V<S> odd = [] { V<S> v; for (auto &x : odd_names()) if (x.find('\n') == S::npos) v.push_back(x); for (S x : {"/", "//", "a/b", "/a b", "a b/", "./a b", "../a  b", "a//b c", "/etc/x y", "x/.", "x/..", "/.", "/..", "./", "../"}) v.push_back(x); return v; }();
    family("lines: every byte, words", odd.size() * 5, [](Worker &w, uint64_t i) {
        Ev e(w, "lines: every byte, words"); const S &x = odd[i / 5]; const S &s = seqs[i % 5]; int src = i % 3; uint64_t h = i / 5 + i % 5;
        if (O.thorough || h % 3 == 0) stream_check(w, e, s, stock_seq(s), x, src);
        if (O.thorough || h % 3 == 1) stream_check(w, e, s, stock_seq(s), "p q\n" + x + "\n" + x + "\nr  s", src);
        if (O.thorough || h % 3 == 2) stream_check(w, e, s, stock_seq(s), x + "\n" + odd[(i / 5 + 1) % odd.size()] + "\n\n" + x + "\n", src);
    });
    family("on a terminal", nwords(k, 2) * 7, [=](Worker &w, uint64_t i) {
        Ev e(w, "on a terminal"); uint64_t x = i / 7;
        stream_check(w, e, seqs[x % 5], stock_seq(seqs[x % 5]), L[x % k] + "\n" + L[x / k] + (x % 3 ? "\n" : ""), i % 7, true);
    });
    family("every number of lines", 300 * 4, [](Worker &w, uint64_t i) {
        Ev e(w, "number of lines"); S in; int n = i / 4 + 1;
        for (int j = 0; j < n; j++) in += (j % 5 == 4 ? S() : "line " + std::to_string(j)) + "\n";
        if (i % 4 == 1) in.pop_back();
        stream_check(w, e, "default", stock_seq("default"), in, i % 4);
    });
    // more files than can be open, some of them missing
    family("every number of files", 200 * 3, [](Worker &w, uint64_t i) {
        Ev e(w, "number of files"); int n = i / 3 + 1, how_ = i % 3; V<S> a = {how_ == 2 ? "detox" : "inline-detox"}; S want; if (how_ == 2) a.push_back("--inline");
        wipe(w.tree);
        for (int j = 0; j < n; j++) {
            S f = "in " + std::to_string(j); a.push_back(f);
            if (how_ == 1 && j % 3 == 1) continue;
            write_file(w.tree + "/" + f, "from " + std::to_string(j) + (j % 4 ? "\n" : "\nand an other\n")); want += "from_" + std::to_string(j) + (j % 4 ? "\n" : "\nand_an_other\n");
        }
        Result R = w.run(plain_run(w, a));
        S d = std::to_string(n) + " files";
        if (R.signaled || R.out != want || (how_ != 1 && R.status)) e.fail(d, "gave " + qs(R.out) + "\nexpected " + qs(want) + how(R)); else e.same(d, R.out, want);
        wipe(w.tree);
    });
    // lengths: the newline is kept whatever the line ends on; short enough to be one piece or free of things that join
    family("every length of a line", 1100 * 13 * 2 / (O.thorough ? 1 : 2), [](Worker &w, uint64_t i) {
        if (!O.thorough) i = i < 600 * 13 ? i + 500 * 26 : i % (500 * 26);
        int n = i / 26; bool tail = i % 2; const S &next = L[i / 2 % 13];
        Ev e(w, "length of a line"); S in = S(n, 'x');
        if (n > 3) { in[1] = 'A'; in[n / 2] = ' '; }
        in += "\n" + next + (tail ? "" : "\n");
        stream_check(w, e, "default", stock_seq("default"), in, i / 26 % 3);
        if (n > 0 && n < 1000) stream_check(w, e, "utf_8", stock_seq("utf_8"), next + "\n" + S(n, 'y') + next + (tail ? "" : "\n"), i / 26 % 3);
    });
    family("large streams", 8, [](Worker &w, uint64_t i) {
        Ev e(w, "large streams"); S in;
        for (int j = 0; j < (O.thorough ? 200000 : 20000); j++) in += L[(j * 7 + j / 13 + i) % 13] + (j % 100 == 99 ? S(j % 900, 'z') : S()) + "\n";
        stream_check(w, e, seqs[i % 5], stock_seq(seqs[i % 5]), in, i % 3);
    });
    // argv[0]
    static const V<std::pair<S, bool>> bins = {{"inline-detox", true}, {"./inline-detox", true}, {"/usr/bin/inline-detox", true}, {"inline-detox/", true}, {"a/b/inline-detox", true}};
    family("names of the program", bins.size() * L.size(), [=](Worker &w, uint64_t i) {
        Ev e(w, "name of the program"); const S &l = L[i / bins.size()];
        wipe(w.tree); write_file(w.tree + "/a b", l + "\n");
        Result R = w.run(plain_run(w, {bins[i % bins.size()].first, "a b"}));
        S want = ref_line(stock_seq("default"), l) + "\n";
        if (R.out != want || R.status || R.nmut) e.fail(l, "gave " + qs(R.out) + "\nexpected " + qs(want) + how(R)); else e.same(l, R.out, want);
    });
    // a stream that comes in pieces
    static const V<S> SP = {"a b\nc  d\n\n..\n\xc3\xa9\xe2\x82\xac \xf0\x9f\x98\x80\nno newline", "x\r\ny z\r\n\xe9\xff\n%41%20+\n", S(1015, 'l') + " \xe2\x82\xac (m)\nn  o\n", "\n\n.\n \n", S(1030, '\xbf') + " z\n\xe2\x82"};
    static const V<V<V<S>>> CUTS = [] { V<V<V<S>>> v; for (auto &s : SP) v.push_back(cuts(s)); return v; }();
    static const V<V<S>> by = {{"inline-detox"}, {"detox", "--inline"}, {"inline-detox", "-s", "utf_8"}, {"inline-detox", "/dev/stdin"}};
    for (size_t t = 0; t < SP.size(); t++)
        family("a stream that comes in pieces: " + qs(SP[t].substr(0, 12)), CUTS[t].size() * by.size(), [=](Worker &w, uint64_t i) {
            Ev e(w, "stream in pieces"); wipe(w.tree);
            Run r = plain_run(w, by[i % by.size()], SP[t]); Result U = w.run(r);
            r.pieces = CUTS[t][i / by.size()]; Result R = w.run(r);
            if (R.signaled || R.status != U.status || R.out != U.out || R.nmut) e.fail(qs(SP[t]) + " through a pipe, " + cut_text(r.pieces), "gave " + qs(R.out) + "\nand not what it gives from a file, " + qs(U.out) + how(R));
            else e.same(SP[t], R.out, U.out);
        });
    family("detox by another name renames", 6, [](Worker &w, uint64_t i) {
        static const V<S> b = {"detox", "/x/detox", "inline-detox-2", "inline", "inline-detox/detox", "my-inline-detox"};
        Scn s; s.world = {{"a b", 'f', "x y\n"}}; s.raw = {b[i], "a b"}; s.args = {"a b"};
        explore_scn(w, s, nullptr, [](Ctx &c) -> S { S e = check_changes_exact(c); if (e.empty()) e = check_model(c); return e.empty() && !c.R->out.empty() ? "printed something" : e; });
    });
});

// ---------------------------------------------------------------- I02
static Reg i02("I02", [] {
    RULE = "lines with every small piece out of valid, overlong, truncated and malformed characters at every position around every end of a piece that is read (990..1040, and the next two), for a sequence of each filter that works on single characters and a chain of them; the output must be that of the whole line";
    EXHAUSTIVE = true;
    static const V<S> atoms = {"a", " ", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xf8\x88\x80\x80\x80", "\xfc\x84\x80\x80\x80\x80", "\x80", "\xe9", "\xf0\x9f", "\xe2\x82", "\xff", "\xc0\x80", "\xfe"};
    static V<std::pair<S, RSeq>> qs_; qs_.clear();
    {
        static RTable &u = const_cast<RTable &>(user_tables()[4].t);
        RFilter utf8 = {R_UTF8, &golden().unicode}, safe = {R_SAFE, &golden().safe}, iso = {R_ISO, &golden().iso}, low = {R_LOWER};
        qs_.push_back({"utf_8", {utf8}}); qs_.push_back({"safe", {safe}}); qs_.push_back({"iso8859_1", {iso}}); qs_.push_back({"lower", {low}}); qs_.push_back({"utf_8 safe lower", {utf8, safe, low}});
        (void)u;
    }
    static S conf; conf = "sequence \"utf_8\" { utf_8 { builtin unicode; }; };\nsequence \"safe\" { safe { builtin \"safe\"; }; };\nsequence \"iso8859_1\" { iso8859_1 { builtin \"iso8859_1\"; }; };\nsequence \"lower\" { lower; };\nsequence \"utf_8 safe lower\" { utf_8; safe; lower; };\n";
    static const V<S> fill = {"x", "\x80", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xfc"};
    uint64_t k = atoms.size();
    int len = 2;
    auto words = nwords(k, len);
    auto one = [=](Worker &w, size_t q, const S &f, int from, int to, uint64_t a) {
        V<S> ls;
        for (int p = from; p < to; p++) {
            S l; while ((int)(l.size() + f.size()) <= p) l += f;
            l += S(p - l.size(), 'y');
            l += word_at(atoms, len, a) + "tail";
            ls.push_back(l);
        }
        Inline I; I.conf = conf; I.seq = qs_[q].first;
        check_lines(w, "sequence " + qs_[q].first, I, qs_[q].second, ls);
    };
    family("pieces at every position around the first end", words * qs_.size() * fill.size(), [=](Worker &w, uint64_t i) { one(w, i % qs_.size(), fill[i / qs_.size() % fill.size()], 994, 1026, i / qs_.size() / fill.size()); });
    family("pieces at every position around the second and third end", k * qs_.size() * fill.size() * (O.thorough ? k : 1), [=](Worker &w, uint64_t i) {
        uint64_t a = i / qs_.size() / fill.size(); if (!O.thorough) a = a + a * k;
        for (int b : {2014, 2048, 3021, 3072}) one(w, i % qs_.size(), fill[i / qs_.size() % fill.size()], b - 14, b + 10, a);
    });
    // the line ends right there
    family("lines that end around an end", words * qs_.size(), [=](Worker &w, uint64_t i) {
        size_t q = i % qs_.size(); uint64_t a = i / qs_.size(); V<S> ls;
        for (int b : {1007, 1024, 2014, 2048}) for (int p = b - 14; p < b + 4; p++) ls.push_back(S(p, 'x') + word_at(atoms, len, a));
        Inline I; I.conf = conf; I.seq = qs_[q].first;
        check_lines(w, "sequence " + qs_[q].first, I, qs_[q].second, ls);
        // and the stream with it
        for (int p = 1000; p < 1009; p++) {
            Ev e(w, "end of the stream"); S in = S(p, 'x') + word_at(atoms, len, a), want = ref_seq(qs_[q].second, in);
            if (p % 4 != (int)(a % 4) && !O.thorough) continue;
            Result R = w.run(inline_run(w, I, in));
            if (R.status || R.out != want) { e.fail(in, "gave " + qs(R.out) + "\nexpected " + qs(want) + how(R)); return; }
            e.same(in, R.out, want);
        }
    });
    if (O.thorough) {
        family("3 pieces around the first end", nwords(k, 3) * 2, [=](Worker &w, uint64_t i) {
            size_t q = i % 2 ? 4 : 0; V<S> ls;
            for (int p = 994; p < 1010; p++) ls.push_back(S(p, 'x') + word_at(atoms, 3, i / 2) + "t");
            Inline I; I.conf = conf; I.seq = qs_[q].first;
            check_lines(w, "sequence " + qs_[q].first, I, qs_[q].second, ls);
        });
    }
    family("every length up to 5000", 5000 / 8 * 5 * 2, [=](Worker &w, uint64_t i) {
        size_t q = i % 5; int b = i / 10 * 8; V<S> ls;
        for (int n = b; n < b + 8; n++) { S l; for (int j = 0; (int)l.size() < n; j++) l += i / 5 % 2 ? S(1, (char)(j % 94 + 33)) : atoms[(j * 5 + j / 14) % k]; ls.push_back(l); }
        Inline I; I.conf = conf; I.seq = qs_[q].first;
        check_lines(w, "sequence " + qs_[q].first, I, qs_[q].second, ls);
    });
    family("very long lines", 5 * 4, [=](Worker &w, uint64_t i) {
        size_t q = i % 5; S l; int n = (1 << 16 << (i / 5)) + 77;
        for (int j = 0; (int)l.size() < n; j++) l += atoms[(j * 3 + j / 14 + j / 1009) % k];
        Inline I; I.conf = conf; I.seq = qs_[q].first;
        check_lines(w, "sequence " + qs_[q].first, I, qs_[q].second, {"a b", l, "\xc3\xa9"});
    });
});

// ---------------------------------------------------------------- I03
static Reg i03("I03", [] {
    RULE = "all words over alphabets that tell the sequences apart as names of files, each in a directory of its own, named as an argument and found in its directory, through every stock sequence and configured ones; the new name must be the line that inline-detox gives with the same options";
    EXHAUSTIVE = true;
    static const V<S> al = {"a", "B", " ", "_", "-", ".", "%41", "%", "+", "#", "\xc3\xa9", "\xe9", "\xe2\x80\xa6", "&"};
    static V<S> names; names.clear();
    { Words W(al, O.thorough ? 4 : 3); for (uint64_t i = 1; i < W.count(); i++) names.push_back(W.at(i)); }
    for (int c = 1; c < 256; c++) if (c != '/' && c != '\n') { names.push_back(S(1, (char)c) + "q"); names.push_back("q" + S(1, (char)c)); names.push_back("q " + S(1, (char)c) + "_r"); }
    for (unsigned c = 0x80; c < 0x3000; c += O.thorough ? 1 : 3) names.push_back("u" + enc(c, enc_min(c)));
    for (int n = 1; n <= 255; n++) { names.push_back(S(n, 'L')); if (n > 12) { names.push_back("a b" + S(n - 12, 'm') + ".tar.gz %2"); names.push_back(S(n - 2, '-') + "x "); } }
    { V<S> v; for (auto &n : names) if (n != "." && n != ".." && n.size() <= 255) v.push_back(n); names.swap(v); }
    static const V<std::pair<S, S>> confs = {{"", ""}, {"sequence q { uncgi; utf_8; safe; wipeup { remove_trailing; }; max_length { length 20; }; };\n", "q"}, {"sequence q { max_length { length 9; }; lower; };\n", "q"}, {"sequence q { safe { filename \"@\"; }; wipeup; };\n", "q"}};
    static V<std::pair<size_t, S>> ways; ways.clear();
    for (auto &s : stock()) ways.push_back({0, s.name});
    for (size_t c = 1; c < confs.size(); c++) ways.push_back({c, "q"});
    uint64_t per = 150, parts = (names.size() + per - 1) / per;
    family("names", ways.size() * parts * 2, [=](Worker &w, uint64_t i) {
        auto &way = ways[i / 2 % ways.size()]; uint64_t p = i / 2 / ways.size(); bool dir = i % 2;
        V<S> ns(names.begin() + p * per, names.begin() + std::min<size_t>(names.size(), (p + 1) * per));
        if (i < 6) sample(way.second + ": " + qs(ns[3]));
        Ev e(w, "sequence " + way.second + (dir ? ", in a directory" : ", named"));
        wipe(w.tree); S f = w.dir + "/conf", c = confs[way.first].first;
        size_t at = c.find('@'); if (at != S::npos) { c.replace(at, 1, w.dir + "/u.tbl"); write_file(w.dir + "/u.tbl", table_text(user_tables()[4].t)); }
        V<S> opt = {"-s", way.second}; if (way.first) { write_file(f, c); opt.push_back("-f"); opt.push_back(f); }
        V<S> a = {"detox"}, b = {"inline-detox"}; for (auto &x : opt) a.push_back(x), b.push_back(x);
        S in; V<S> use; struct Fds : V<int> { ~Fds() { for (int f : *this) close(f); } } fds;
        for (auto &n : ns) {
            if (dir && (n[0] == '.' || n == "{arch}")) continue;
            S d = "d" + std::to_string(use.size());
            mkdir((w.tree + "/" + d).c_str(), 0755);
            write_file(w.tree + "/" + d + "/" + n, "");
            fds.push_back(open((w.tree + "/" + d).c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC));
            use.push_back(n); in += n + "\n";
            a.push_back(dir ? d : d + "/" + n);
        }
        Result R = w.run(plain_run(w, a)), Q = w.run(plain_run(w, b, in));
        V<S> out = lines_of(Q.out);
        if (R.status || Q.status || out.size() != use.size()) { e.fail(in.substr(0, 500), "failed, or lines are missing" + how(R) + how(Q)); return; }
        for (size_t j = 0; j < use.size(); j++) {
            S want = Model::usable(out[j]) && out[j].size() <= NAME_MAX ? out[j] : use[j]; struct stat st;
            if (fstatat(fds[j], want.c_str(), &st, AT_SYMLINK_NOFOLLOW) || (want != use[j] && !fstatat(fds[j], use[j].c_str(), &st, AT_SYMLINK_NOFOLLOW))) {
                S is; if (DIR *h = fdopendir(dup(fds[j]))) { while (auto *x = readdir(h)) if (strcmp(x->d_name, ".") && strcmp(x->d_name, "..")) is += " " + qs(x->d_name); closedir(h); }
                e.fail(use[j], "inline-detox gives " + qs(out[j]) + ", the file is now" + is + "\nconfiguration: " + c); return;
            }
            e.same(use[j], want, want);
        }
    });
});

// ---------------------------------------------------------------- I04
static Reg i04("I04", [] {
    RULE = "every list of up to 3 arguments (thorough: 4) out of 11 kinds, with 10 sets of options, as inline-detox and as detox --inline; nothing may be changed or tried to be, the output is that of the files in order, and each argument that cannot be read is reported; files by names and paths of every length and byte, links and chains of links";
    EXHAUSTIVE = true;
    struct A { S name; int kind; S data; };     // 0 file, 1 missing, 2 directory, 3 link to a file, 4 dangling link, 5 unreadable
    static const V<A> as = {{"a b", 0, "x y\nz  w\n"}, {"e e", 0, ""}, {"n n", 0, "no newline"}, {"miss ing", 1, ""}, {"C d", 2, ""}, {"l l", 3, "x y\nz  w\n"}, {"g g", 4, ""}, {"C d/f f", 0, "in dir\n..\n"}, {"C d/no/x", 1, ""}, {"u u", 5, ""}, {"m m", 4, ""}};
    static const V<V<S>> opts = {{}, {"-v"}, {"-r"}, {"-n"}, {"--special"}, {"-rv", "--special"}, {"--dry-run", "--recursive"}, {"-s", "lower"}, {"--verbose"}, {"-vv"}};
    for (int n = 0; n <= (O.thorough ? 4 : 3); n++)
        family("every list of " + std::to_string(n) + " arguments", nwords(as.size(), n) * opts.size() * 2, [n](Worker &w, uint64_t i) {
            const V<S> &o = opts[i / 2 % opts.size()]; bool inl = i % 2; uint64_t x = i / 2 / opts.size();
            Scn s; s.order = ORDER_SORTED; s.raw = inl ? V<S>{"inline-detox"} : V<S>{"detox", "--inline"};
            for (auto &y : o) s.raw.push_back(y);
            S in; V<S> bad; const RSeq &q = stock_seq(!o.empty() && o[0] == "-s" ? "lower" : "default");
            for (int j = 0; j < n; j++) { auto &a = as[x % as.size()]; x /= as.size(); s.raw.push_back(a.name); if (a.kind == 0 || a.kind == 3) in += a.data.empty() ? "" : a.data; else bad.push_back(a.name); if (!a.data.empty() && a.data.back() != '\n') in += "\x01"; }
            s.in = "std in\nb  b"; if (!n) in = s.in;
            // \x01 marks where a file ends without a newline
            S want; size_t p = 0;
            while (p < in.size()) { size_t z = in.find_first_of("\n\x01", p); S l = in.substr(p, z == S::npos ? S::npos : z - p); want += ref_line(q, l); if (z == S::npos) break; if (in[z] == '\n') want += "\n"; p = z + 1; }
            s.world = {{"a b", 'f', as[0].data}, {"e e", 'f', ""}, {"n n", 'f', "no newline"}, {"C d", 'd', ""}, {"C d/f f", 'f', as[7].data}, {"C d/sub dir", 'd', ""}, {"l l", 'l', "a b"}, {"g g", 'l', "nowhere x"}, {"u u", 'f', "secret x\n"}, {"u u", 'm', "0"}, {"m m", 'l', "C d"}, {"no t", 'f', "other"}};
            explore_scn(w, s, nullptr, [&](Ctx &c) -> S {
                if (c.R->signaled) return "ended by a signal";
                if (!c.changes.empty() || !(c.a == c.b)) return "something was changed";
                if (c.R->nmut) return "tried to change something:\n" + c.R->trace;
                if (c.R->out != want) return "gave " + qs(c.R->out) + "\nexpected " + qs(want);
                V<S> e = lines_of(c.R->err); size_t k = 0;
                for (auto &b : bad) { while (k < e.size() && !starts(e[k], b + ": ")) k++; if (k++ == e.size()) return qs(b) + " is not reported:\n" + c.R->err; }
                if (bad.empty() && !e.empty()) return "reported without reason:\n" + c.R->err;
                return "";
            });
        });
    // what is not a regular file, and "-", which is a file like any other
    family("devices and standard input by name", nwords(6, 3) * 2 * 2, [](Worker &w, uint64_t i) {
        static const V<std::pair<S, S>> in = {{"", ""}, {"a b", "x y\nz  w\n"}, {"/dev/null", ""}, {"/dev/stdin", "from  in\n..\n"}, {"/dev/fd/0", "from  in\n..\n"}, {"-", "da sh\n"}};
        bool dash = i % 2; i /= 2; Scn s; s.order = ORDER_SORTED; s.raw = i % 2 ? V<S>{"inline-detox"} : V<S>{"detox", "--inline"}; i /= 2; s.in = "from  in\n..\n";
        s.world = {{"a b", 'f', "x y\nz  w\n"}}; if (dash) s.world.push_back({"-", 'f', "da sh\n"});
        S want; int miss = 0, n = 0;
        for (int j = 0; j < 3; j++) { auto &x = in[i % 6]; i /= 6; if (x.first.empty()) continue; s.raw.push_back(x.first); n++; if (x.first == "-" && !dash) { miss++; continue; } for (auto &l : lines_of(x.second)) want += ref_line(stock_seq("default"), l) + "\n"; }
        if (!n) return;
        explore_scn(w, s, nullptr, [&](Ctx &c) -> S {
            if (c.R->signaled) return "ended by a signal";
            if (!(c.a == c.b) || c.R->nmut) return "something was changed";
            if (c.R->out != want) return "gave " + qs(c.R->out) + "\nexpected " + qs(want);
            return (int)lines_of(c.R->err).size() == miss ? "" : "reported " + qs(c.R->err) + " where " + std::to_string(miss) + " arguments are missing";
        });
    });
    // files by every kind of name and path
    family("input files by every kind of name", 255 * 6, [](Worker &w, uint64_t i) {
        int kind = i / 255, n = i % 255 + 1; S pad; while ((int)pad.size() < n) pad += char('a' + pad.size() % 26);
        Scn s; s.order = ORDER_SORTED; s.raw = n % 2 ? V<S>{"inline-detox"} : V<S>{"detox", "--inline"}; s.raw.push_back("--");
        S text = "first " + std::to_string(n) + "\nin  put", want;
        auto is = [&](const S &arg) { s.raw.push_back(arg); want += "first_" + std::to_string(n) + "\nin_put"; };
        switch (kind) {
            case 0: s.world.push_back({pad, 'f', text}); is(pad); is("./" + pad); break;
            case 1: s.world.push_back({pad, 'f', text}); s.world.push_back({"l", 'l', pad}); s.world.push_back({"m", 'l', "./././" + pad}); is("l"); is("m"); is("@T/l"); break;
            case 2: { S at; int len = n * 14; while ((int)at.size() < len) { S x((size_t)std::min(190, std::max(1, len - (int)at.size())), 'p'); s.world.push_back({at + x, 'd', ""}); at += x + "/"; } s.world.push_back({at + "f f", 'f', text}); is(at + "f f"); if (at.size() < 3000) { s.world.push_back({"l", 'l', at + "f f"}); is("l"); } break; }
            case 3: { if (n > 38) return; s.world.push_back({"l0", 'f', text}); for (int k = 1; k <= n; k++) s.world.push_back({"l" + std::to_string(k), 'l', "l" + std::to_string(k - 1)}); is("l" + std::to_string(n)); break; }
            case 4: { if (n == '/') return; S b(1, (char)n); for (const S &x : std::set<S>{b, b + "x", "x" + b, "x" + b + "y", b + b + b}) if (x != "." && x != "..") { s.world.push_back({x, 'f', text}); is(x); } break; }
            case 5: { S big; for (int k = 0; k < n * 40; k++) big += "line  " + std::to_string(k) + "\n"; s.world.push_back({"f", 'f', big}); s.raw.push_back("f"); for (int k = 0; k < n * 40; k++) want += "line_" + std::to_string(k) + "\n"; break; }
        }
        for (auto &a : s.raw) if (starts(a, "@T/")) a = w.tree + a.substr(2);
        explore_scn(w, s, nullptr, [&](Ctx &c) -> S {
            if (c.R->signaled) return "ended by a signal";
            if (!(c.a == c.b) || c.R->nmut) return "something was changed";
            if (c.R->out != want) return "gave " + qs(c.R->out) + "\nexpected " + qs(want);
            return c.R->err.empty() ? "" : "reported without reason:\n" + c.R->err;
        });
    });
    // names in the input that exist
    family("lines that are names of files", 2 * 10 * 6, [](Worker &w, uint64_t i) {
        static const V<S> ls = {"a b\n", "C d\nC d/f f\n", "./a b\n./C d", "/etc/passwd\n../a b\n", "a b\na_b\n", "C d/\n\n"};
        const V<S> &o = opts[i / 2 % opts.size()]; const S &l = ls[i / 20];
        Scn s; s.order = ORDER_SORTED; s.raw = i % 2 ? V<S>{"inline-detox"} : V<S>{"detox", "--inline"}; for (auto &y : o) s.raw.push_back(y);
        s.in = l; s.world = {{"a b", 'f', "1"}, {"C d", 'd', ""}, {"C d/f f", 'f', "2"}};
        explore_scn(w, s, nullptr, [&](Ctx &c) -> S {
            if (!c.changes.empty() || !(c.a == c.b) || c.R->nmut) return "something was changed";
            S want; for (auto &x : lines_of(l)) want += ref_line(stock_seq(!o.empty() && o[0] == "-s" ? "lower" : "default"), x) + "\n";
            if (l.back() != '\n') want.pop_back();
            return c.R->out == want ? "" : "gave " + qs(c.R->out) + "\nexpected " + qs(want);
        });
    });
});
