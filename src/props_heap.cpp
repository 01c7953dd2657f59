// Memory and descriptors: what is in use must not depend on how much was done.
#include "inline.hpp"
#include "fsfam.hpp"

static S hn(int j) { char b[16]; snprintf(b, sizeof b, "%03d", j); return b; }
static Run account(Run r) { return with_hooks(r, [](HookArea &h) { h.heap = 1; }); }
static S use(const Result &R) { return std::to_string(R.live_blocks) + " blocks (" + std::to_string(R.live_bytes) + " bytes), " + std::to_string(R.open_fds) + " descriptors in use at the end, at most " + std::to_string(R.peak_bytes) + " bytes; blocks by function: " + R.heap_text; }
static S bad_end(const Result &R)
{
    if (R.timed_out) return "does not end";
    if (R.signaled) return "ended by a signal";
    return "";
}
static bool grew(const long *a, const long *b, int n) { for (int i = 0; i < n; i++) if (b[i] > a[i]) return true; return false; }
static const int N1 = 4, N2 = 8;

// ---------------------------------------------------------------- streams
static const V<S> &hl()
{
    static V<S> v = {"a", "a b", ".", "..", "", "-", "__", "\xc3\xa4 x", "\xff\xfe", "%41+b", "&&&&", "A_-_B.TAR.GZ", S(1023, 'q'), S(1500, ' '), S(1022, 'p') + "\xe2\x82\xac\xe2\x82\xac", S(3000, '-'), "\xe2\x82", "#", "{arch}", "longname.and_an_extension_that_is_longer_than_the_limit_of_40", S(60, 'n') + ".", S(60, 'n') + ".tar.gz", S(60, 'n') + ".gz"};
    return v;
}
static const char *HCONF = "sequence default { uncgi; utf_8; safe; wipeup { remove_trailing; }; lower; max_length { length 40; }; };\nsequence one { iso8859_1 { builtin cp1252; }; utf_8; };\n";

// ---------------------------------------------------------------- entries and arguments
// a kind of entry: what is made of it under number j
struct Kind { const char *name; std::function<void(V<Ent> &, const S &, int)> make; std::function<S(int)> arg; };
static const V<Kind> &kinds()
{
    auto f = [](const char *n, const S &base, const char *t, const S &suffix = "") {
        S types = t;
        return Kind{n, [=](V<Ent> &w, const S &at, int j) {
            S nm = at + base + hn(j) + suffix;
            for (char c : types) switch (c) {
                case 'f': w.push_back({nm, 'f', "x"}); break;
                case 'd': w.push_back({nm, 'd', ""}); break;
                case 'l': w.push_back({nm, 'l', "nowhere"}); break;
                case 'L': w.push_back({nm, 'l', "."}); break;
                case 'p': w.push_back({nm, 'p', ""}); break;
                case 'c': w.push_back({nm + "/c c", 'f', "y"}); break;
                case 'e': w.push_back({nm + "/e e", 'd', ""}); w.push_back({nm + "/e e/ g", 'f', "z"}); break;
                case 'm': w.push_back({nm, 'm', "000"}); break;
                case 'r': w.push_back({nm, 'm', "500"}); break;
            }
        }, [=](int j) { return base + hn(j) + suffix; }};
    };
    static V<Kind> v = {
        f("good file", "ok", "f"), f("file", "a b ", "f"), f("good directory", "dir", "d"), f("directory", "d d ", "dce"), f("directory that cannot be read", "u u ", "dcm"),
        f("good directory that cannot be read", "uu", "dcm"), f("directory that cannot be written", "w w ", "dcer"), f("hidden file", ".h h ", "f"), f("hidden directory", ".d d ", "dc"),
        f("link", "l l ", "l"), f("link to a directory", "L L ", "L"), f("fifo", "p p ", "p"), f("encoded slash", "%2f x", "f"), f("nothing is left", "___", "f", "___"), f("long", "x" + S(248, ' '), "f", "yy"),
        {"taken name", [](V<Ent> &w, const S &at, int j) { w.push_back({at + "t t" + hn(j), 'f', "1"}); w.push_back({at + "t_t" + hn(j), 'f', "2"}); }, [](int j) { return "t t" + hn(j); }},
        {"missing", [](V<Ent> &, const S &, int) {}, [](int j) { return "mis sing" + hn(j); }},
        {"the directory itself", [](V<Ent> &, const S &, int) {}, [](int) { return S("."); }},
        {"empty argument", [](V<Ent> &, const S &, int) {}, [](int) { return S(""); }},
        {"a directory with a slash", [](V<Ent> &w, const S &at, int j) { w.push_back({at + "s s" + hn(j), 'd', ""}); w.push_back({at + "s s" + hn(j) + "/i i", 'f', "1"}); }, [](int j) { return "s s" + hn(j) + "/"; }},
    };
    return v;
}
static const V<V<S>> HFLAGS = {{}, {"-r"}, {"-r", "--special", "-v"}, {"-n", "-r", "--special"}};

static Reg m01("M01", [] {
    RULE = "streams, lists of arguments, directories, chains of directories and lists of files for inline mode, made of every one or two kinds of lines, arguments or entries, four times and eight times over: the memory (blocks and bytes that detox got and did not give back) and the descriptors in use at the end must be the same, for streams also the most that is in use at any time; and no failing call may leave more in use than a run without it";
    EXHAUSTIVE = true;
    // lines
    uint64_t k = hl().size();
    static const V<V<S>> progs = {{"inline-detox"}, {"inline-detox", "-s", "utf_8"}, {"inline-detox", "-f", "@C", "-s", "default"}, {"detox", "--inline", "-f", "@C", "-s", "one"}, {"inline-detox", "-s", "uncgi-only"}, {"inline-detox", "-s", "lower"}};
    int maxl = O.thorough ? 3 : 2;
    for (int n = 1; n <= maxl; n++)
        family("streams of " + std::to_string(n) + " kinds of lines", nwords(k, n) * progs.size() * 2, [=](Worker &w, uint64_t i) {
            bool file = i % 2; i /= 2;
            V<S> argv; for (auto &a : progs[i % progs.size()]) argv.push_back(a == "@C" ? w.dir + "/conf" : a); i /= progs.size();
            S unit; for (int j = 0; j < n; j++) { unit += hl()[i % k] + "\n"; i /= k; }
            write_file(w.dir + "/conf", HCONF);
            Result R[2]; S in;
            for (int t = 0; t < 2; t++) {
                in.clear(); for (int j = 0; j < (t ? N2 : N1); j++) in += unit;
                V<S> a = argv; if (file) { write_file(w.dir + "/in", in); a.push_back(w.dir + "/in"); }
                R[t] = w.run(account(plain_run(w, a, file ? S() : in)));
                S b = bad_end(R[t]); if (!b.empty()) { violation(w, b + "\ninput: " + qs(in) + how(R[t])); return; }
            }
            G->outcomes++;
            if (R[0].live_blocks < R[1].live_blocks || R[0].live_bytes < R[1].live_bytes || R[0].peak_bytes < R[1].peak_bytes || R[0].open_fds < R[1].open_fds)
                violation(w, "more is in use after more lines\ncommand: " + joinargs(argv) + "\nlines: " + qs(unit) + "\n" + std::to_string(N1) + " times: " + use(R[0]) + "\n" + std::to_string(N2) + " times: " + use(R[1]));
        });
    // files of inline mode: apart from the list itself
    static const V<S> fk = {"file", "em pty", "missing", "d d", "li nk", "dang ling", "unread able", "link d", "no newline", ""};
    family("files of inline mode", (nwords(fk.size(), 1) + nwords(fk.size(), 2) + (O.thorough ? nwords(fk.size(), 3) : 0)) * 2, [=](Worker &w, uint64_t i) {
        bool det = i % 2; i /= 2;
        V<S> unit; int n = 1; for (uint64_t c = fk.size(); i >= c; c *= fk.size()) { i -= c; n++; }
        for (int j = 0; j < n; j++) { unit.push_back(fk[i % fk.size()]); i /= fk.size(); }
        wipe(w.top); mkdirs(w.tree);
        build_world(w.tree, {{"file", 'f', "a b\n.\nc d\n"}, {"em pty", 'f', ""}, {"d d", 'd', ""}, {"li nk", 'l', "file"}, {"dang ling", 'l', "nowhere"}, {"unread able", 'f', "x y\n"}, {"unread able", 'm', "000"}, {"link d", 'l', "d d"}, {"no newline", 'f', "a\nb b"}});
        long d[2][4]; S t[2];
        for (int x = 0; x < 2; x++) {
            V<S> argv = det ? V<S>{"detox", "--inline"} : V<S>{"inline-detox"};
            V<S> list = argv;
            for (int j = 0; j < (x ? N2 : N1); j++) for (auto &u : unit) { argv.push_back(u); list.push_back(S(u.size(), 'Z')); }
            Result A = w.run(account(plain_run(w, argv))), B = w.run(account(plain_run(w, list)));
            S b = bad_end(A); if (!b.empty()) { violation(w, b + "\ncommand: " + joinargs(argv) + how(A)); return; }
            d[x][0] = A.live_blocks - B.live_blocks; d[x][1] = A.live_bytes - B.live_bytes; d[x][2] = A.open_fds; d[x][3] = A.peak_bytes - B.live_bytes;
            t[x] = use(A) + "\n   names of the same lengths, none of which exists: " + use(B);
        }
        G->outcomes++;
        if (grew(d[0], d[1], sizeof d[0] / sizeof d[0][0])) violation(w, "more is in use after more files\nfiles: " + joinargs(unit) + "\n" + std::to_string(N1) + " times: " + t[0] + "\n" + std::to_string(N2) + " times: " + t[1]);
    });
    // entries of a directory, and arguments
    uint64_t nk = kinds().size();
    for (int how_ = 0; how_ < 3; how_++)
        for (int n = 1; n <= 2; n++)
            family(S(how_ == 0 ? "entries of a directory, " : how_ == 1 ? "entries of two directories, " : "arguments, ") + std::to_string(n) + " kinds", nwords(nk, n) * HFLAGS.size(), [=](Worker &w, uint64_t i) {
                auto fl = HFLAGS[i % HFLAGS.size()]; i /= HFLAGS.size();
                V<const Kind *> unit; for (int j = 0; j < n; j++) { unit.push_back(&kinds()[i % nk]); i /= nk; }
                if (n == 2 && unit[0] >= unit[1] && (how_ != 2 || unit[0] == unit[1])) return;
                long d[2][4]; S t[2], names; Scn s;
                for (auto u : unit) names += S(names.empty() ? "" : ", ") + u->name;
                for (int x = 0; x < 2; x++) {
                    s = Scn(); s.flags = fl; s.order = ORDER_SORTED; s.outside = false;
                    if (how_ == 2) s.args.clear();
                    if (how_ == 1) { s.world.push_back({"o n", 'd', ""}); s.world.push_back({"p n", 'd', ""}); if (!has(fl, "-r")) s.args = {"o n", "./p n"}; }
                    for (int j = 0; j < (x ? N2 : N1); j++)
                        for (auto u : unit) {
                            if (how_ == 2) { u->make(s.world, "", j); s.args.push_back(u->arg(j)); }
                            else if (how_ == 1) { u->make(s.world, "o n/", j); u->make(s.world, "p n/", j); }
                            else u->make(s.world, "", j);
                        }
                    // permissions last
                    std::stable_sort(s.world.begin(), s.world.end(), [](const Ent &a, const Ent &b) { return (a.t == 'm') < (b.t == 'm'); });
                    setup_scn(w, s);
                    Result A = w.run(account(run_of(w, s)));
                    S b = bad_end(A); if (!b.empty()) { violation(w, b + "\n" + describe_scn(s) + how(A)); return; }
                    Result B;
                    if (how_ == 2) { Scn l = s; for (auto &a : l.args) a = S(a.size(), 'Z'); B = w.run(account(run_of(w, l))); }
                    d[x][0] = A.live_blocks - B.live_blocks; d[x][1] = A.live_bytes - B.live_bytes; d[x][2] = A.open_fds; d[x][3] = how_ == 2 && !has(s.args, ".") ? A.peak_bytes - B.live_bytes : 0;      // with "." the directory grows, too
                    t[x] = use(A) + (how_ == 2 ? "\n   names of the same lengths, none of which exists: " + use(B) : "");
                }
                G->outcomes++;
                if (grew(d[0], d[1], sizeof d[0] / sizeof d[0][0])) violation(w, S("more is in use after more ") + (how_ == 2 ? "arguments" : "entries") + "\nkinds: " + names + "\noptions: " + joinargs(fl) + "\n" + std::to_string(N1) + " times: " + t[0] + "\n" + std::to_string(N2) + " times: " + t[1] + "\n" + describe_scn(s));
            });
    // chains of directories
    family("chains of directories", nwords(nk, 1) * 4 * 2, [=](Worker &w, uint64_t i) {
        const Kind &u = kinds()[i % nk]; i /= nk; int dn = i % 4; bool dry = i / 4;
        static const V<S> names = {"dir", "d d", "w w", "_d_"};
        long d[2][3]; S t[2]; Scn s;
        for (int x = 0; x < 2; x++) {
            s = Scn(); s.flags = {"-r", "--special"}; if (dry) s.flags.push_back("-n"); s.order = ORDER_SORTED; s.outside = false;
            S at;
            for (int l = 0; l < (x ? N2 : N1); l++) { s.world.push_back({at + names[dn], 'd', ""}); at += names[dn] + "/"; u.make(s.world, at, l); }
            std::stable_sort(s.world.begin(), s.world.end(), [](const Ent &a, const Ent &b) { return (a.t == 'm') < (b.t == 'm'); });
            setup_scn(w, s);
            Result A = w.run(account(run_of(w, s)));
            S b = bad_end(A); if (!b.empty()) { violation(w, b + "\n" + describe_scn(s) + how(A)); return; }
            d[x][0] = A.live_blocks; d[x][1] = A.live_bytes; d[x][2] = A.open_fds; t[x] = use(A);
        }
        G->outcomes++;
        if (grew(d[0], d[1], sizeof d[0] / sizeof d[0][0])) violation(w, "more is in use after more directories\nkind of entries: " + S(u.name) + "\n" + std::to_string(N1) + " levels: " + t[0] + "\n" + std::to_string(N2) + " levels: " + t[1] + "\n" + describe_scn(s));
    });
    // one failing call
    family("one failing call", nk * nk * 2, [=](Worker &w, uint64_t i) {
        Scn s; s.flags = i % 2 ? V<S>{"-r", "--special"} : V<S>{"-n", "-r"}; i /= 2; s.order = ORDER_SORTED; s.outside = false;
        const Kind &a = kinds()[i % nk], &b = kinds()[i / nk];
        if (&a > &b) return;
        a.make(s.world, "", 0); if (&a != &b) b.make(s.world, "", 1);
        std::stable_sort(s.world.begin(), s.world.end(), [](const Ent &a, const Ent &b) { return (a.t == 'm') < (b.t == 'm'); });
        setup_scn(w, s);
        Result N = w.run(account(run_of(w, s)));
        Run r = with_hooks(run_of(w, s), [](HookArea &h) { h.heap = 1; h.faults = 1; h.more_errnos = 1; });
        explore(w, r, [&] { setup_scn(w, s); }, [&](const Result &R) -> S {
            S e = bad_end(R); if (!e.empty()) return e;
            if (R.status) return "";        // ended early
            if (R.live_blocks > N.live_blocks || R.open_fds > N.open_fds) return "a call that failed left more in use\nwithout failure: " + use(N) + "\nwith it: " + use(R);
            return ""; }, [&] { return describe_scn(s); });
    });
});
