// Output that cannot be written, input that cannot be read.
#include "inline.hpp"
#include <algorithm>

static const V<Ent> &io_world()
{
    static V<Ent> v = [] {
        V<Ent> x = {{"a b", 'f', "x y\nz  w\n"}, {"n n", 'f', "no  newline"}, {"e e", 'f', ""}, {"D d", 'd', ""}, {"D d/f f", 'f', "in  dir\n"}, {"D d/g g", 'd', ""}, {"D d/g g/h?h", 'f', "1"}, {"D d/a b", 'f', "2"}, {"D d/a_b", 'f', "3"}, {"l l", 'l', "a b"}};
        S big; for (int i = 0; i < 400; i++) big += "line " + std::to_string(i) + (i % 3 ? " x\n" : "  (y)\n");
        x.push_back({"big one", 'f', big});
        x.push_back({"long one", 'f', S(5000, 'q') + " r\nlast  one\n"});
        x.push_back({"B", 'd', ""});
        for (int i = 0; i < 60; i++) x.push_back({"B/en try  " + std::to_string(i), 'f', std::to_string(i)});
        return x;
    }();
    return v;
}

// ---------------------------------------------------------------- O02
struct OutRun { V<S> argv; S in; };
static const V<OutRun> &out_runs()
{
    static V<OutRun> v = [] {
        V<OutRun> x;
        S many; for (int i = 0; i < 300; i++) many += "na me " + std::to_string(i * 37) + "\n";
        for (auto &in : V<S>{"", "a\n", "a b", "x y\n\nz (w)\n", S(1500, 'a') + " b\n", S(4094, 'c') + "\n" + S(300, ' ') + "d\n", many}) x.push_back({{"inline-detox"}, in});
        x.push_back({{"detox", "--inline"}, "a b\nc  d\n"});
        x.push_back({{"inline-detox", "-s", "lower"}, "A B\n" + S(1100, 'Q') + "\n"});
        x.push_back({{"inline-detox", "-v"}, "a b\n"});
        for (auto &a : V<V<S>>{{"a b"}, {"n n"}, {"e e"}, {"a b", "n n", "a b"}, {"a b", "missing", "D d/f f"}, {"big one"}, {"long one", "a b"}}) { V<S> y = {"inline-detox"}; y.insert(y.end(), a.begin(), a.end()); x.push_back({y, ""}); }
        for (auto &o : V<V<S>>{{"-v"}, {"-n"}, {"-v", "-r"}, {"-n", "-r"}, {"-nv", "-r", "--special"}, {"-r"}, {"-v", "-r", "-s", "lower"}})
            for (auto &a : V<V<S>>{{"a b"}, {"D d"}, {"."}, {"a b", "missing", "D d", "n n"}}) { V<S> y = {"detox"}; y.insert(y.end(), o.begin(), o.end()); y.insert(y.end(), a.begin(), a.end()); x.push_back({y, ""}); }
        for (auto &a : V<V<S>>{{"detox", "-L"}, {"detox", "-L", "-v"}, {"inline-detox", "-L"}, {"inline-detox", "-Lv"}, {"detox", "-h"}, {"inline-detox", "-h"}, {"detox", "-V"}, {"inline-detox", "-V"}, {"detox"}, {"detox", "-r"}, {"detox", "-?"}}) x.push_back({a, ""});
        return x;
    }();
    return v;
}
static Scn out_scn(const OutRun &o)
{
    Scn s;
    for (auto &e : io_world()) if (has(o.argv, ".") || has(o.argv, "big one") || has(o.argv, "long one") || (e.path[0] != 'B' && e.path.find(" one") == S::npos)) s.world.push_back(e); s.raw = o.argv; s.in = o.in; s.order = ORDER_SORTED; s.args.clear();
    for (size_t i = 1; i < o.argv.size(); i++) {
        if (o.argv[i] == "-s") { s.seq = o.argv[++i]; continue; }
        if (o.argv[i][0] == '-') s.flags.push_back(o.argv[i]); else s.args.push_back(o.argv[i]);
    }
    return s;
}
static Reg o02("O02", [] {
    RULE = "56 command lines (inline mode from standard input and files, renaming with -v, dry runs, listings, help) with standard output that takes k bytes, for every k up to the length of the whole output (quick: beyond 512 around the ends of blocks, and every fourth), and closed; the run must end with an error and say so on standard error if and only if something is missing, what was written is the beginning of the output, and files are only given the names they would be given otherwise";
    EXHAUSTIVE = true;
    family("every command line and amount of room", out_runs().size() * 64, [](Worker &w, uint64_t i) {
        const OutRun &o = out_runs()[i / 64];
        Scn s = out_scn(o);
        bool ren = o.argv[0] == "detox" && !s.args.empty() && !has(s.flags, "--inline");
        setup_scn(w, s);
        Ctx c; c.w = &w; c.s = &s; c.o = opts_of(s); c.a = snapshot(w.top); c.T = tree_ino(c.a);
        Snap before = c.a;
        Run r = run_of(w, s);
        Result U = w.run(r);    // with room
        const S all = U.out;
        bool dirty = true;
        auto one = [&](long k) {
            if (dirty) { setup_scn(w, s); c.a = snapshot(w.top); c.T = tree_ino(c.a); c.changes.clear(); c.change_error.clear(); }
            r.out_limit = k;
            Result R = w.run(r);
            c.R = &R; c.b = snapshot(w.top);
            dirty = !(c.a == c.b);
            S e;
            bool fits = k >= (long)all.size() || all.empty();
            if (R.signaled) e = "ended by a signal";
            else if (k >= 0 && R.out != all.substr(0, R.out.size())) e = "what was written is not the beginning of the output";
            else if (fits && k >= 0 && R.out != all) e = "not everything was written although there was room";
            else if (fits && R.status != U.status) e = "the status is not the usual one (" + std::to_string(U.status) + ") although everything was written";
            else if (!fits && !R.status) e = "output is missing and the status is 0";
            else if (!fits && (R.err.empty() || (R.err == U.err))) e = "output is missing and nothing was reported";
            else {
                find_changes(c);
                e = check_changes_exact(c);
                if (e.empty()) e = check_scope(c);
                if (e.empty() && (!ren || c.o.dry) && dirty) e = "something was changed";
            }
            G->evals++; if (!fits) G->nontrivial++;
            if (!e.empty()) violation(w, e + "\ncommand: " + joinargs(r.argv) + "\nroom for " + (k == -2 ? "nothing (closed)" : std::to_string(k) + " bytes") + ", the whole output is " + std::to_string(all.size()) + " bytes\n" + describe_scn(s) + how(R));
        };
        if (i % 64 == 0) one(-2);
        if (i % 128 == 5) sample(joinargs(r.argv) + " with room for " + std::to_string(i % 64) + ", " + std::to_string(i % 64 + 64) + "... of " + std::to_string(all.size()) + " bytes");
        // every amount up to 512; beyond (quick) every amount around the ends of blocks and a quarter of the others
        for (long k = i % 64; k <= (long)all.size() + 1 && !stopping(); k += 64)
            if (O.thorough || k <= 512 || (k + 4) % 512 < 8 || k + 4 > (long)all.size() || k % 4 == 1) one(k);
    });
    // what is not needed is closed, or takes nothing
    family("standard error and input that are closed or full", out_runs().size() * 5, [](Worker &w, uint64_t i) {
        const OutRun &o = out_runs()[i / 5]; int closed = (const int[]){4, 8, 1, 5, 9}[i % 5];
        Scn s = out_scn(o);
        if ((closed & 1) && (o.argv[0] != "detox" || has(o.argv, "--inline")) && s.args.empty()) return;      // reads standard input
        setup_scn(w, s);
        Run r = run_of(w, s); Result U = w.run(r); uint64_t want = snapshot(w.top).hash_names();
        setup_scn(w, s);
        r.closed = closed; Result R = w.run(r); uint64_t got = snapshot(w.top).hash_names();
        S e;
        if (R.signaled) e = "ended by a signal";
        else if (R.status != U.status) e = "ended with status " + std::to_string(R.status) + " and not " + std::to_string(U.status);
        else if (R.out != U.out) e = "wrote " + qs(R.out) + " and not " + qs(U.out);
        else if (want != got) e = "the tree is another one than usual";
        G->evals++; G->nontrivial++;
        if (!e.empty()) violation(w, e + "\ncommand: " + joinargs(r.argv) + "\nclosed: " + (closed & 1 ? "standard input " : "") + (closed & 4 ? "standard error" : closed & 8 ? "standard error takes nothing" : "") + "\n" + describe_scn(s) + how(R));
    });
});

// ---------------------------------------------------------------- O03
static S io_table(const S &t)
{
    S x = "# " + t + "\ndefault d" + t + "\nstart\n";
    for (int c : {0x20, 0x26, 0x28, 0x41, 0x61, 0xe9, 0x4e}) x += std::to_string(c) + " " + t + std::to_string(c) + "\n";
    return x + "end\n# the end\n";
}
static Reg o03("O03", [] {
    RULE = "runs with configurations (named, in the system directories, in the home directory), tables (named, in the data directories), file arguments and standard input, with every single reading call failing, and directories in place of files; a configuration or table that cannot be read whole ends the run with an error before anything is renamed or printed, or another place is used; what cannot be read of the input of inline mode is reported by name, what was read before and the other arguments come out as they should";
    EXHAUSTIVE = true;
    // configurations
    static const V<S> confs = {
        "sequence default { safe; wipeup; };\nsequence q { lower; };\n",
        "# one\nsequence q {\n  uncgi;\n  lower;\n};\nignore { filename \"zz\"; };\n# " + S(9000, 'x') + "\nsequence default { lower; };\n",
        "sequence default { lower; };\n" + S(20000, ' ') + "\nsequence q { safe; };\nsequence default { wipeup; };\n"};
    static const V<V<S>> how_run = {{"detox", "-r", "D d", "a b"}, {"inline-detox"}, {"inline-detox", "a b"}, {"detox", "-L"}, {"detox", "-n", "-r", "."}, {"detox", "-s", "q", "-r", "."}};
    family("reading a configuration fails", confs.size() * 4 * how_run.size(), [](Worker &w, uint64_t i) {
        const V<S> &h = how_run[i % how_run.size()]; int place = i / how_run.size() % 4; const S &conf = confs[i / how_run.size() / 4];
        Scn s; s.order = ORDER_SORTED; s.raw = h; s.in = "A  b\nc\n";
        static const RSeq none; s.rseq = &none;
        s.world = {{"a b", 'f', "X  y\n"}, {"D d", 'd', ""}, {"D d/E  f", 'f', "1"}};
        rm_rf(w.root); mkdirs(w.root + "/etc"); mkdirs(w.root + "/usr/local/etc"); mkdirs(w.root + "/opt/dtx/etc"); mkdirs(w.dir + "/home");
        unlink((w.dir + "/home/.detoxrc").c_str());
        s.env = {{"HOME", w.dir + "/home"}};
        if (place == 0) { write_file(w.dir + "/conf", conf); s.raw.insert(s.raw.begin() + 1, {"-f", w.dir + "/conf"}); }
        if (place == 1) write_file(w.root + "/etc/detoxrc", conf);
        if (place == 2) { write_file(w.dir + "/home/.detoxrc", conf); write_file(w.root + "/etc/detoxrc", confs[0]); }
        if (place == 3) { write_file(w.root + "/opt/dtx/etc/detoxrc", conf); write_file(w.root + "/usr/local/etc/detoxrc", confs[0]); }
        if (i % 13 == 3) sample(joinargs(s.raw) + ", configuration " + qs(conf.substr(0, 60)) + " at place " + std::to_string(place));
        explore_scn(w, s, [](HookArea &h) { h.read_faults = 1; }, [&](Ctx &c) -> S {
            if (c.R->signaled) return "ended by a signal";
            if (!c.R->used_faults) return c.R->status ? "failed without reason: " + c.R->err : S();
            if (c.R->faults[0].path.find("detoxrc") == S::npos && c.R->faults[0].path.find("/conf") == S::npos) return "";   // input
            G->nontrivial++;
            if (!(c.a == c.b)) return "the tree was changed although a configuration could not be read whole";
            if (!c.R->status) return "ended with status 0 although a configuration could not be read whole";
            if (!c.R->out.empty()) return "something was written although a configuration could not be read whole: " + qs(c.R->out.substr(0, 300));
            if (c.R->err.empty()) return "nothing was reported although a configuration could not be read whole";
            return "";
        });
    });
    // tables
    static const V<S> kinds = {"safe", "iso8859_1", "utf_8"}, files = {"safe.tbl", "iso8859_1.tbl", "unicode.tbl"};
    static const V<S> places = {"/usr/share/detox", "/usr/local/share/detox"};
    family("reading a table fails", 3 * 5 * 4 * 2, [](Worker &w, uint64_t i) {
        int k = i % 3, have = i / 3 % 5, mode = i / 15 % 4; bool faults = i / 60;
        rm_rf(w.root); for (auto &p : places) mkdirs(w.root + p);
        mkdirs(w.dir + "/data");
        for (int t = 0; t < 3; t++) unlink((w.dir + "/data/" + files[t]).c_str());
        bool named = have == 0;
        S line = kinds[k];
        if (named) { write_file(w.dir + "/my.tbl", io_table("u")); line += " { filename \"" + w.dir + "/my.tbl\"; }"; }
        if (have & 1) write_file(w.root + places[0] + "/" + files[k], io_table("p"));
        if (have & 2) write_file(w.root + places[1] + "/" + files[k], io_table("r"));
        if (have == 4) { write_file(w.root + places[0] + "/" + files[k], io_table("p")); write_file(w.root + places[1] + "/" + files[k], io_table("p")); }
        S names = S("A a&a \xc3\xa9 N(\n");
        Scn s; s.order = ORDER_SORTED; static const RSeq none; s.rseq = &none;
        s.conf = "sequence default { " + line + "; };\n";
        s.world = {{"A b&", 'f', "A N\n"}, {"D A", 'd', ""}, {"D A/N (a", 'f', "1"}};
        V<S> a[4] = {{"detox", "-r", "-f", w.dir + "/conf", "D A", "A b&"}, {"inline-detox", "-f", w.dir + "/conf"}, {"detox", "--inline", "-f", w.dir + "/conf", "A b&"}, {"detox", "-n", "-r", "-f", w.dir + "/conf", "."}};
        s.raw = a[mode]; s.in = names;
        // the outcomes that whole tables give: with each set of places
        struct Out { S out; std::map<uint64_t, std::map<S, uint64_t>> d; };
        std::set<std::pair<S, S>> whole;
        auto shape = [](const Snap &b) { S t; for (auto &d : b.dirs) for (auto &e : d.second) t += e.first + "|"; return t; };
        if (!named) for (int sub = 0; sub < 4; sub++) {
            Run r; setup_scn(w, s);
            V<S> hide; for (int p = 0; p < 2; p++) if (sub >> p & 1) { S f = w.root + places[p] + "/" + files[k]; if (!rename(f.c_str(), (f + ".off").c_str())) hide.push_back(f); }
            Result R = w.run(run_of(w, s));
            whole.insert({R.out, shape(snapshot(w.top))});
            for (auto &f : hide) rename((f + ".off").c_str(), f.c_str());
        }
        if (i % 7 == 3) sample(s.conf + joinargs(s.raw) + ", tables in places " + std::to_string(have));
        explore_scn(w, s, [faults](HookArea &h) { if (faults) h.faults = 1; else h.read_faults = 1; }, [&](Ctx &c) -> S {
            if (c.R->signaled) return "ended by a signal";
            if (!c.R->used_faults) return c.R->status ? "failed without reason: " + c.R->err : S();
            if (c.R->faults[0].path.find(".tbl") == S::npos) return "";
            if (c.R->faults[0].op == "lstat") return "";
            G->nontrivial++;
            if (c.R->status) {
                if (!(c.a == c.b)) return "the tree was changed although a table could not be read whole";
                if (!c.R->out.empty()) return "something was written although a table could not be read whole: " + qs(c.R->out.substr(0, 300));
                if (c.R->err.empty()) return "nothing was reported although a table could not be read whole";
                return "";
            }
            if (named) return "ended with status 0 although its table could not be read whole";
            if (!whole.count({c.R->out, shape(c.b)})) return "a table was used in part";
            return "";
        });
    });
    // input
    static const V<S> pieces = {"x y\n", "\n", "no newline", "", "A  b\nc\nd&d\n"};
    auto lines_out = [](const S &in) { S t; for (size_t p = 0; p < in.size();) { size_t z = in.find('\n', p); t += ref_line(stock_seq("default"), in.substr(p, z == S::npos ? S::npos : z - p)); if (z == S::npos) break; t += "\n"; p = z + 1; } return t; };
    family("reading input fails", (1 + 5 + 25 + 125) * 5, [=](Worker &w, uint64_t i) {
        // which files; the input itself is the last
        int n = i % 156; const S &in = pieces[i / 156];
        V<int> fs; int x = n, cnt = 0; for (int base = 1; cnt < 4; cnt++, base *= 5) { if (x < base) break; x -= base; }
        for (int j = 0; j < cnt; j++) { fs.push_back(x % 5); x /= 5; }
        Scn s; s.order = ORDER_SORTED; s.raw = {i % 2 ? "inline-detox" : "detox"}; if (i % 2 == 0) s.raw.push_back("--inline");
        for (int j = 0; j < cnt; j++) { S f = "file " + std::to_string(j); s.world.push_back({f, 'f', pieces[fs[j]]}); s.raw.push_back(f); }
        s.in = in;
        if (i % 97 == 3) sample(joinargs(s.raw) + ", standard input " + qs(in));
        explore_scn(w, s, [](HookArea &h) { h.read_faults = 1; }, [&](Ctx &c) -> S {
            if (c.R->signaled) return "ended by a signal";
            if (c.R->nmut || !(c.a == c.b)) return "something was changed";
            int bad = -1;
            if (c.R->used_faults) {
                const S &p = c.R->faults[0].path; size_t k = p.rfind("/file ");
                bad = k == S::npos ? cnt : p[k + 6] - '0';
                G->nontrivial++;
            }
            V<S> want;      // what the arguments give
            for (int j = 0; j < cnt; j++) want.push_back(lines_out(pieces[fs[j]]));
            if (!cnt) want.push_back(lines_out(in));
            if (!cnt && bad >= 0) bad = 0;
            S pre, post, all; for (int j = 0; j < (int)want.size(); j++) { if (j < bad) pre += want[j]; if (j > bad) post += want[j]; all += want[j]; }
            if (bad < 0) return c.R->out != all ? "gave " + qs(c.R->out) + "\nexpected " + qs(all) : c.R->err.empty() ? "" : "reported without reason: " + c.R->err;
            if (c.R->out == all && c.R->err.empty()) {
                // as long as it was not tried again
                size_t z = c.R->trace.find("FAIL "); z = z == S::npos ? z : c.R->trace.find('\n', z);
                if (z == S::npos || c.R->trace.find(qs(c.R->faults[0].path), z) == S::npos) return "the end could not be read, and nothing was reported";
            }
            // whole lines of the one that failed
            bool ok = false;
            for (size_t z = 0; !ok; ) {
                if (c.R->out == pre + want[bad].substr(0, z) + post) ok = true;
                if (z >= want[bad].size()) break;
                size_t nl = want[bad].find('\n', z); z = nl == S::npos ? want[bad].size() : nl + 1;
            }
            if (!ok) return "gave " + qs(c.R->out) + "\nexpected " + qs(all) + "\nwithout the end of argument " + std::to_string(bad);
            S name = cnt ? "file " + std::to_string(bad) : "stdin";
            if (c.R->out != all && c.R->err.empty()) return "what could not be read was not reported";
            if (!c.R->err.empty() && cnt && c.R->err.find(name) == S::npos) return "what could not be read was not reported by name: " + c.R->err;
            return "";
        });
    });
    // directories and odd files on standard input
    family("directories and files as standard input", 6 * 12, [=](Worker &w, uint64_t i) {
        static const V<S> on = {"D d", ".", "a b", "e e", "/dev/null", "D d/g g"};
        static const V<V<S>> o = {{}, {"-v"}, {"-r"}, {"-n"}, {"-s", "lower"}, {"--special"}};
        const S &p = on[i % 6]; const V<S> &op = o[i / 12];
        Scn s; s.order = ORDER_SORTED; s.raw = i / 6 % 2 ? V<S>{"inline-detox"} : V<S>{"detox", "--inline"}; for (auto &x : op) s.raw.push_back(x);
        s.world = {{"a b", 'f', "x  y\nz"}, {"e e", 'f', ""}, {"D d", 'd', ""}, {"D d/f f", 'f', "1"}, {"D d/g g", 'd', ""}};
        setup_scn(w, s);
        Snap a = snapshot(w.top);
        Run r = run_of(w, s); r.stdin_path = p[0] == '/' ? p : w.tree + "/" + p;
        Result R = w.run(r);
        Snap b = snapshot(w.top);
        S e; bool dir = p == "." || p[0] == 'D';
        S want = p == "a b" ? ref_line(stock_seq(!op.empty() && op[0] == "-s" ? "lower" : "default"), "x  y") + "\nz" : "";
        if (R.signaled) e = "ended by a signal";
        else if (!(a == b) || R.nmut) e = "something was changed";
        else if (R.out != want) e = "expected " + qs(want);
        else if (dir && R.err.empty()) e = "nothing was reported although standard input cannot be read";
        else if (!dir && !R.err.empty()) e = "reported without reason";
        G->evals++;
        if (!e.empty()) violation(w, e + "\ncommand: " + joinargs(r.argv) + " < " + qs(p) + how(R));
    });
});
