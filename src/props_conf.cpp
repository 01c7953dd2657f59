// Configuration files through the real program.
#include "oddnames.hpp"
#include "conf.hpp"
#include "fscommon.hpp"

static void clear_root(Worker &w) { wipe(w.root); }
static Run conf_run(Worker &w, const V<S> &argv, const V<std::pair<S, S>> &env = {}, const S &in = "")
{
    Run r; r.argv = argv; r.env = env; r.stdin_data = in;
    S root = w.root;
    r.hooks = [root](HookArea &h) { snprintf(h.root, sizeof h.root, "%s", root.c_str()); h.order = ORDER_SORTED; };
    return r;
}
static S how(const Result &R) { return "\nstatus " + std::to_string(R.status) + (R.signaled ? " (signal)" : "") + "\nstdout: " + qs(R.out.substr(0, 1500)) + "\nstderr: " + qs(R.err.substr(0, 1500)); }

// one configuration file, listed
static bool listed(Worker &w, Ev &e, const S &text, const std::optional<S> &seq = std::nullopt)
{
    S f = w.dir + "/conf";
    Conf c; int bad = conf_read(c, text, f);
    if (bad) { e.fail(text, "harness: a configuration that is not in the grammar, line " + std::to_string(bad)); return false; }
    write_file(f, text);
    V<S> argv = {"detox", "-L", "-v", "-f", f};
    if (seq) { argv.push_back("-s"); argv.push_back(*seq); }
    Result R = w.run(conf_run(w, argv));
    S want = conf_list(c, conf_choose(c, seq), true);
    if (R.status || R.out != want) return e.fail(text, "is listed as\n" + R.out + "\nexpected\n" + want + how(R));
    return e.same(text, R.out, want);
}
// ... and used
static bool used(Worker &w, Ev &e, const S &text, const S &seq, const V<S> &lines, std::map<S, RTable> *files = nullptr)
{
    Conf c; conf_read(c, text, "");
    int k = conf_choose(c, seq); RSeq q;
    if (k < 0 || !conf_filters(c.seqs[k], q, files)) { e.fail(text, "harness: no such sequence"); return false; }
    Inline I; I.conf = text; I.seq = seq;
    check_lines(w, "configuration " + qs(text), I, q, lines);
    return !stopping();
}
static const V<S> LINES = {"a b", "A%41%20b", "\xc3\xa9\xe9", "x__-_y.-_.z", "-_#lead", "\x80\xe2\x82\xac", "abcdefghijklmnop.tar.gz", "C+C&D", "~", "\xe2\x80\x80|"};

// every filter with every way to write it; @ stands for a file with a table
static const V<S> &methods()
{
    static V<S> v = [] {
        V<S> m = {"uncgi;", "lower;", "wipeup;", "wipeup { };", "wipeup { remove_trailing; };", "max_length;", "max_length { };", "max_length { length 5; };", "max_length { length 012; };"};
        for (S k : {"safe", "iso8859_1", "utf_8"}) {
            m.push_back(k + ";"); m.push_back(k + " { };"); m.push_back(k + " { builtin \"safe\"; };");
            m.push_back(k + " { filename \"@/t1.tbl\"; };");
        }
        m.push_back("utf_8 { builtin unicode; };"); m.push_back("iso8859_1 { builtin cp1252; };"); m.push_back("iso8859_1 { builtin \"iso8859_1\"; };"); m.push_back("utf_8 { filename t2; };");
        return m;
    }();
    return v;
}
static S at_dir(S s, const S &dir) { for (size_t p; (p = s.find('@')) != S::npos;) s.replace(p, 1, dir); return s; }
static std::map<S, RTable> &user_files(Worker &w)
{
    static thread_local std::map<S, RTable> m;
    if (m.empty()) { m[w.dir + "/t1.tbl"] = user_tables()[4].t; m["t2"] = user_tables()[3].t; }
    for (auto &x : m) write_file(x.first[0] == '/' ? x.first : w.tree + "/" + x.first, table_text(x.second));
    return m;
}
static const V<S> BASES = {
    "sequence default { safe ; } ;",
    "sequence \"a b\" { uncgi ; iso8859_1 { builtin cp1252 ; } ; wipeup { remove_trailing ; } ; max_length { length 32 ; } ; } ;",
    "ignore { filename x ; filename \"y z\" ; } ; sequence q_1 { utf_8 { filename \"/t\" ; } ; lower ; safe { } ; max_length ; } ; ignore { filename \"{arch}\" ; } ;",
    "sequence a { lower ; } ; sequence b { uncgi ; } ; sequence a { wipeup ; } ;",
};
static const V<S> &SEPS() { static V<S> v = {" ", "", "\t", "\n", "\r\n", "# c\n", " \n\n# x { ; } sequence \"\n\t", "#\n", "\t \t", "#\"\n", " # 1 # 2\n\n"}; return v; }
static S lay(const V<Tok> &t, const std::function<const S &(size_t)> &sep, const S &tail)
{
    S r;
    for (size_t i = 0; i + 1 < t.size(); i++) {
        r += tok_text(t[i]);
        if (i + 2 < t.size()) { const S &s = sep(i); r += s.empty() && tok_word(t[i]) && tok_word(t[i + 1]) ? S(" ") : s; }
    }
    return r + tail;
}
static S recase(const S &s, int how) { S r = s; for (size_t i = 0; i < r.size(); i++) if (r[i] >= 'a' && r[i] <= 'z' && (how == 1 || (how == 2 && i == 0) || (how == 3 && i % 2))) r[i] -= 32; return r; }

static Reg c01("C01", [] {
    RULE = "every sequence of up to 3 filters written in 25 ways, every layout of 4 configurations (every separator at every place, and every two places), every spelling of keywords and names, every arrangement of up to 4 definitions, all sizes around the lexer's buffers; the listing -L -v must be what a reader written from the manual gives, and the sequences must work as the listing says";
    EXHAUSTIVE = true;
    uint64_t nm = methods().size();
    for (int n = 1; n <= 3; n++)
        family("every sequence of " + std::to_string(n) + " filters", nwords(nm, n), [=](Worker &w, uint64_t i) {
            Ev e(w, "configuration");
            S t = "sequence q {"; uint64_t k = i;
            for (int j = 0; j < n; j++) { t += " " + methods()[k % nm]; k /= nm; }
            t = at_dir(t + " };\n", w.dir);
            if (i % 997 == 1) sample(t);
            if (!listed(w, e, t)) return;
            if (n < 3 || O.thorough) used(w, e, t, "q", LINES, &user_files(w));
        });
    // layouts
    static V<V<Tok>> toks; for (auto &b : BASES) toks.push_back(conf_tokens(b));
    uint64_t ns = SEPS().size();
    for (size_t b = 0; b < BASES.size(); b++) {
        uint64_t nt = toks[b].size() - 2;
        family("layout " + std::to_string(b) + ": every separator at every place", nt * ns * 3, [=](Worker &w, uint64_t i) {
            Ev e(w, "layout");
            size_t at = i / 3 / ns; const S &s = SEPS()[i / 3 % ns];
            static const S base[] = {" ", "", "\n"};
            listed(w, e, lay(toks[b], [&](size_t j) -> const S & { return j == at ? s : base[i % 3]; }, i % 2 ? "\n" : ""));
        });
        if (b < 2 || O.thorough) family("layout " + std::to_string(b) + ": every two separators at every two places", nt * (nt - 1) / 2 * (O.thorough ? ns * ns : 16), [=](Worker &w, uint64_t i) {
            Ev e(w, "layout");
            uint64_t m = O.thorough ? ns : 4, k = i / (m * m); size_t a = 0;
            while (k >= nt - 1 - a) { k -= nt - 1 - a; a++; }
            size_t c = a + 1 + k;
            static const int few[] = {1, 3, 6, 9};
            const S &s1 = SEPS()[O.thorough ? i % m : few[i % m]], &s2 = SEPS()[O.thorough ? i / m % m : few[i / m % m]]; static const S sp = " ";
            listed(w, e, lay(toks[b], [&](size_t j) -> const S & { return j == a ? s1 : j == c ? s2 : sp; }, "\n"));
        });
    }
    family("layouts: before the first and after the last token", BASES.size() * ns * ns, [=](Worker &w, uint64_t i) {
        Ev e(w, "layout");
        static const S sp = " ";
        S head = SEPS()[i / ns % ns], tail = SEPS()[i % ns];
        S t = lay(toks[i / ns / ns], [&](size_t) -> const S & { return sp; }, "");
        if (!listed(w, e, head + t + tail)) return;
        if (!tail.empty() && tail.back() == '\n') listed(w, e, head + t + tail.substr(0, tail.size() - 1));
        if (i < ns * ns) listed(w, e, head + tail);
    });
    family("keywords in upper and mixed case", BASES.size() * 4 * 40, [=](Worker &w, uint64_t i) {
        Ev e(w, "case of keywords");
        auto t = toks[i / 160]; int h = i % 4; size_t at = i / 4 % 40;
        if (at >= t.size()) return;
        static const S sp = " ";
        bool any = false;
        for (size_t j = 0; j < t.size(); j++) if (t[j].t == 'k' && (at == 39 || j == at)) { t[j].text = recase(t[j].text, h); any = true; }
        if (any) listed(w, e, lay(t, [&](size_t) -> const S & { return sp; }, "\n"));
    });
    // definitions
    static const V<S> rules = {"sequence a { safe; };", "sequence a { lower; uncgi; };", "sequence default { wipeup; };", "sequence \"b c\" { max_length { length 9; }; };", "sequence A { utf_8; };", "ignore { filename i1; };", "ignore { filename \"i 2\"; filename i1; };", "sequence \"default\" { uncgi; lower; };"};
    for (int n = 0; n <= (O.thorough ? 5 : 4); n++)
        family("every arrangement of " + std::to_string(n) + " definitions", nwords(rules.size(), n), [=](Worker &w, uint64_t i) {
            Ev e(w, "definitions");
            S t; uint64_t k = i;
            for (int j = 0; j < n; j++) { t += rules[k % rules.size()] + "\n"; k /= rules.size(); }
            listed(w, e, t, i % 3 == 0 ? std::optional<S>() : i % 3 == 1 ? std::optional<S>("a") : std::optional<S>("b c"));
        });
    // names
    V<S> q; for (int c = 1; c < 256; c++) if (c != '"' && c != '\n') q.push_back(S(1, (char)c));
    static V<S> names; names = {"", "default", "sequence", "safe", "SAFE", "{", "};", "# x", "a b", "a\tb", "'", "\\", "\\n", "%s%n", S(255, 'n'), S(256, 'n'), S(1000, 'm'), S(9000, 'x'), S(17000, 'y')};
    for (auto &c : q) names.push_back(c);
    for (int l = 2; l <= 600; l++) { S n; for (int j = 0; j < l; j++) n += char('a' + (j * 7 + l) % 26); names.push_back(n); }
    for (S a : {"a", " ", "#", ";", "{", "\\", "\xc3", "'", "1", "\r"}) for (S b : {"b", " ", "#", ";", "}", "\\", "\xa9", "'", "0", "\r"}) names.push_back(a + b);
    family("every name in quotes", names.size(), [=](Worker &w, uint64_t i) {
        Ev e(w, "names in quotes");
        const S &n = names[i];
        S t = "sequence \"" + n + "\" { safe { builtin \"" + (i % 2 ? n : S("safe")) + "\"; }; utf_8 { filename \"" + n + "\"; }; };\nignore { filename \"" + n + "\"; };\nsequence other { safe; };";
        if (listed(w, e, t, n)) listed(w, e, t, n + "x");
    });
    static V<S> bare;
    for (S a : {"a", "Z", "q"}) { bare.push_back(a); for (S b : {"a", "Z", "0", "9", "_"}) { bare.push_back(a + b); for (S c : {"b", "Y", "1", "_"}) bare.push_back(a + b + c); } }
    for (auto &k : keywords()) { for (S x : {"x", "_", "1", "s"}) bare.push_back(k + x); bare.push_back("x" + k); bare.push_back(k.substr(0, k.size() - 1)); if (k.size() > 3) bare.push_back(k.substr(1, k.size() - 2)); bare.push_back(recase(k, 2) + "2"); }
    bare.push_back(S(300, 'b')); bare.push_back(S(20000, 'c')); bare.push_back("default"); bare.push_back("Default");
    family("every bare name", bare.size(), [=](Worker &w, uint64_t i) {
        Ev e(w, "bare names");
        const S &n = bare[i];
        S l = recase(n, 0); for (auto &c : l) c = tolower(c);
        if (std::find(keywords().begin(), keywords().end(), l) != keywords().end() || !isalpha((unsigned char)n[0])) return;
        listed(w, e, "sequence " + n + "{safe{builtin " + n + ";};utf_8{filename " + n + ";};};ignore{filename " + n + ";filename " + n + "2;};sequence other{lower;};", n);
    });
    family("numbers", 700, [=](Worker &w, uint64_t i) {
        Ev e(w, "numbers");
        S n = i < 600 ? std::to_string(i) : i < 650 ? std::to_string((1u << (i % 31)) - 1) : i < 690 ? S(i - 648, '0') + std::to_string(i) : std::to_string(2147483647 - (i - 690));
        S t = "sequence q { max_length { length " + n + "; }; max_length{length " + n + ";}; };\n";
        if (listed(w, e, t) && i < 100) used(w, e, t, "q", {S(97, 'a'), "0123456789.ab", S(300, 'x')});
    });
    // sizes
    family("numbers of definitions, filters and ignored names", 130 * 3, [=](Worker &w, uint64_t i) {
        Ev e(w, "numbers of things");
        int n = i / 3 + 1; S t;
        if (i % 3 == 0) for (int j = 0; j < n; j++) t += "sequence s" + std::to_string(j) + " { " + methods()[j % 5] + " };\n";
        if (i % 3 == 1) { t = "sequence s {"; for (int j = 0; j < n; j++) t += j % 3 ? " lower;" : " max_length { length " + std::to_string(j + 1) + "; };"; t += "};"; }
        if (i % 3 == 2) { t = "ignore {"; for (int j = 0; j < n; j++) t += " filename \"ig " + std::to_string(j) + "\";"; t += "};\nsequence x { lower; };"; }
        listed(w, e, t, "s" + std::to_string(n - 1));
    });
    // through a pipe, in pieces
    for (size_t b = 0; b < BASES.size(); b++) {
        S t = "# " + BASES[b] + "\n" + BASES[b] + "\n"; size_t n = t.size() + 1;
        family("a configuration that comes through a pipe in pieces: base " + std::to_string(b), n, [=](Worker &w, uint64_t i) {
            Ev e(w, "configuration in pieces"); wipe(w.tree);
            Conf c; if (conf_read(c, t, "/dev/stdin")) { e.fail(t, "harness: a configuration that is not in the grammar"); return; }
            S want = conf_list(c, conf_choose(c, std::nullopt), true);
            Run r = conf_run(w, {"detox", "-L", "-v", "-f", "/dev/stdin"});
            if (!i) r.pieces = {t}; else if (i + 1 < n) r.pieces = {t.substr(0, i), t.substr(i)}; else for (char x : t) r.pieces.push_back(S(1, x));
            Result R = w.run(r);
            if (R.status || R.out != want) e.fail(t, "through a pipe, written in " + std::to_string(r.pieces.size()) + " pieces, the first of " + std::to_string(r.pieces[0].size()) + " bytes, is listed as\n" + R.out + "\nexpected\n" + want + how(R));
            else e.same(t, R.out, want);
        });
    }
    family("tokens around the ends of the lexer's buffers", (O.thorough ? 9 : 4) * 150 * 3, [=](Worker &w, uint64_t i) {
        Ev e(w, "long files");
        static const int at[] = {8192, 16384, 4096, 32768, 1024, 2048, 24576, 65536, 131072};
        int n = at[i / 450] - 130 + i / 3 % 150; S pad;
        if (i % 3 == 0) pad = "#" + S(n - 2, 'c') + "\n";
        else if (i % 3 == 1) { while ((int)pad.size() < n) pad += "# line\n"; pad.resize(n - 1); pad += "\n"; if (pad[pad.size() - 2] != 'x' && pad.rfind("\n", pad.size() - 2) == pad.size() - 2) {} }
        else pad = S(n, ' ');
        listed(w, e, pad + "sequence \"the name\" { max_length { length 1234567; }; safe { filename \"some file name\"; }; };\nignore { filename \"an ignored name\"; };");
    });
});

// ---------------------------------------------------------------- C02
static const V<S> PATHS = {"/opt/dtx/etc/detoxrc", "/etc/detoxrc", "/usr/local/etc/detoxrc"};
// what file number p may define
static S layer(int p, int kind)
{
    S n = std::to_string(p);
    switch (kind) {
        case 1: return "sequence common { max_length { length " + std::to_string(p + 3) + "; }; };\nsequence own" + n + " { lower; };\nignore { filename ig" + n + "; };\n";
        case 2: return "sequence own" + n + " { uncgi; };\nsequence default { max_length { length " + std::to_string(p + 3) + "; }; };\n";
        case 3: return "ignore { filename only" + n + "; };\n";
        case 4: return "sequence own0 { max_length { length " + std::to_string(20 + p) + "; }; };\nsequence common { wipeup; };\nsequence own0 { max_length { length " + std::to_string(30 + p) + "; }; };\n";
        case 5: return "# nothing\n";
    }
    return "";
}
static Conf &spoofed() { static Conf c = [] { Conf x; if (conf_read(x, read_file(O.golden + "/detoxrc"), "built-in config file")) exit(3); return x; }(); return c; }
struct Places { V<std::pair<S, S>> env; S home, xdg; };
static void put_file(const S &path, const S &text) { mkdirs(dirname_of_path(path)); write_file(path, text); }
static Reg c02("C02", [] {
    RULE = "every subset of the five places with every assignment of 5 kinds of definitions, HOME and XDG_CONFIG_HOME set, unset, empty, relative, at and beyond the length that fits, -f with every kind of file; the listing must be what the layers give one after the other, and the chosen sequence and the ignore list must work";
    EXHAUSTIVE = true;
    auto run_layers = [](Worker &w, const V<S> &texts, const V<S> &paths, const V<bool> &system, const V<std::pair<S, S>> &env, const V<S> &flags, const V<S> &shown) {
        // texts[i] == "" : not there
        Ev e(w, "layers");
        Conf c; bool any = false, sys = false; S desc;
        for (size_t i = 0; i < texts.size(); i++) {
            if (texts[i].empty()) continue;
            put_file(paths[i], texts[i]);
            desc += "file " + shown[i] + ":\n" + texts[i];
            if (system[i] && sys) continue;
            if (system[i]) sys = true;
            any = true;
            conf_read(c, texts[i], shown[i]);
        }
        if (!any) c = spoofed();
        for (auto &x : env) desc += x.first + "=" + x.second + "\n";
        for (std::optional<S> seq : {std::optional<S>(), std::optional<S>("common")}) {
            V<S> argv = {"detox", "-L", "-v"}; for (auto &f : flags) argv.push_back(f);
            if (seq) { argv.push_back("-s"); argv.push_back(*seq); }
            Result R = w.run(conf_run(w, argv, env));
            S want = conf_list(c, conf_choose(c, seq), true);
            if (R.status || R.out != want) { e.fail(desc, "is listed as\n" + R.out + "\nexpected\n" + want + how(R)); return; }
            e.same(desc, R.out, want);
            if (!seq) continue;
        }
        // and what the program then does
        int k = conf_choose(c, std::nullopt); RSeq q;
        if (k < 0) {
            V<S> argv = {"inline-detox"}; for (auto &f : flags) argv.push_back(f);
            Result R = w.run(conf_run(w, argv, env, "abc\n"));
            if (R.status == 0 || !R.out.empty() || R.err.empty()) e.fail(desc, "there is no sequence, but" + how(R));
            return;
        }
        conf_filters(c.seqs[k], q);
        S in, out; for (auto &l : V<S>{"ABCDEFGHIJKLMNOPQRSTUVWXYZ%41ABCDEFGHIJKLMN", "a__b c", "%42"}) { in += l + "\n"; out += ref_line(q, l) + "\n"; }
        V<S> argv = {"inline-detox"}; for (auto &f : flags) argv.push_back(f);
        Result R = w.run(conf_run(w, argv, env, in));
        if (R.status || R.out != out) { e.fail(desc, "the sequence " + c.seqs[k].name + " gives " + qs(R.out) + "\nexpected " + qs(out) + how(R)); return; }
        e.same(desc, R.out, out);
    };
    uint64_t kinds = 6;
    family("every assignment of definitions to the five places", nwords(kinds, 5), [=](Worker &w, uint64_t i) {
        if (!O.thorough && i % 2) { uint64_t k = i; int absent = 0; for (int j = 0; j < 5; j++) { if (k % kinds == 0) absent++; k /= kinds; } if (!absent) return; }
        clear_root(w);
        S h = w.root + "/home", x = w.root + "/xdg";
        wipe(h); wipe(x);
        V<S> t, p, s; V<bool> sys; uint64_t k = i;
        for (int j = 0; j < 5; j++) { t.push_back(layer(j, k % kinds)); k /= kinds; sys.push_back(j < 3); }
        for (auto &a : PATHS) { p.push_back(w.root + a); s.push_back(a); }
        p.push_back(h + "/.detoxrc"); s.push_back(p.back());
        p.push_back(x + "/detox/detoxrc"); s.push_back(p.back());
        if (i % 499 == 7) sample(t[0] + "|" + t[1] + "|" + t[2] + "|" + t[3] + "|" + t[4]);
        run_layers(w, t, p, sys, {{"HOME", h}, {"XDG_CONFIG_HOME", x}}, {}, s);
    });
    // the variables
    family("HOME and XDG_CONFIG_HOME", 8 * 8 * 8, [=](Worker &w, uint64_t i) {
        clear_root(w);
        int hk = i % 8, xk = i / 8 % 8, m = i / 64;
        V<std::pair<S, S>> env; V<S> t, p, s; V<bool> sys;
        auto add = [&](const S &path, const S &shown, int n, bool is) { t.push_back(layer(n, 1 + (n + m) % 2)); p.push_back(path); s.push_back(shown); sys.push_back(is); };
        if (m & 1) add(w.root + PATHS[1], PATHS[1], 1, true);
        auto var = [&](const char *name, const char *tail, int kind, int n) {
            S base = w.root + "/" + name;
            size_t room = 256 - 1 - strlen(tail);          // the longest that fits
            auto pad = [&](size_t len) { S d = base; while (d.size() + 2 <= len) { size_t c = std::min<size_t>(len - d.size() - 1, 200); d += "/" + S(c, 'p'); } return d; };
            switch (kind) {
                case 0: put_file(w.tree + "/(null)" + tail, layer(9, 1)); put_file(w.tree + tail, layer(9, 2)); break;       // not set: not read
                case 1: env.push_back({name, base}); add(base + tail, base + tail, n, false); break;
                case 2: env.push_back({name, base}); break;                  // set, without file
                case 3: { S d = pad(room); if (d.size() != room) return; env.push_back({name, d}); add(d + tail, d + tail, n, false); break; }
                case 4: { S d = pad(room + 1); if (d.size() != room + 1) return; env.push_back({name, d}); put_file(d + tail, layer(n, 1)); put_file((d + tail).substr(0, 255), layer(9, 1)); break; }    // does not fit: not read
                case 5: { S d = pad(room + 60); env.push_back({name, d}); put_file(d + tail, layer(n, 2)); break; }
                case 6: env.push_back({name, name}); mkdirs(w.tree + "/" + name); add(w.tree + "/" + name + tail, S(name) + tail, n, false); break;     // relative
                case 7: env.push_back({name, base + "/"}); add(base + "/" + tail, base + "/" + tail, n, false); break;
            }
        };
        wipe(w.tree);
        var("HOME", "/.detoxrc", hk, 3); var("XDG_CONFIG_HOME", "/detox/detoxrc", xk, 4);
        if (m & 2) { env.push_back({"XDG_CONFIG_DIRS", w.root + "/other"}); put_file(w.root + "/other/detox/detoxrc", layer(7, 1)); put_file(w.root + "/HOME/detoxrc", layer(7, 1)); put_file(w.root + "/HOME/.config/detox/detoxrc", layer(8, 1)); }
        if (m & 4) { put_file(w.tree + "/.detoxrc", layer(6, 1)); put_file(w.tree + "/detoxrc", layer(6, 1)); }
        run_layers(w, t, p, sys, env, {}, s);
        wipe(w.tree);
    });
    family("-f", 6 * 64, [=](Worker &w, uint64_t i) {
        clear_root(w);
        S h = w.root + "/home", x = w.root + "/xdg"; int kind = i / 64, m = i % 64;
        for (int j = 0; j < 3; j++) if (m >> j & 1) put_file(w.root + PATHS[j], layer(j, 1 + j % 2));
        if (m & 8) put_file(h + "/.detoxrc", layer(3, 1));
        if (m & 16) put_file(x + "/detox/detoxrc", layer(4, 2));
        S f = w.dir + "/conf";
        V<std::pair<S, S>> env = {{"HOME", h}, {"XDG_CONFIG_HOME", x}};
        if (kind == 0) {
            Ev e(w, "-f with a missing file"); e.n++;
            unlink(f.c_str());
            S g = m & 32 ? f : w.dir + "/no/" + S(m & 1 ? 300 : 5, 'x');
            wipe(w.tree); write_file(w.tree + "/a b", "");
            for (auto &argv : V<V<S>>{{"detox", "-f", g, "a b"}, {"detox", "-L", "-f", g}, {"inline-detox", "-f", g}}) {
                Result R = w.run(conf_run(w, argv, env, "a b\n"));
                if (R.status == 0 || R.signaled || R.err.find(g) == S::npos || R.nmut || !R.out.empty()) { e.fail(joinargs(argv), "did not end with an error that names the file" + how(R)); return; }
            }
            return;
        }
        run_layers(w, {layer(5, kind)}, {f}, {false}, env, {"-f", f}, {f});
        if (m & 32) {    // the last -f counts
            write_file(w.dir + "/conf2", layer(8, 1));
            Conf c; conf_read(c, layer(5, kind), f);
            Ev e(w, "several -f");
            Result R = w.run(conf_run(w, {"detox", "-f", w.dir + "/conf2", "-Lv", "-f", f}, env));
            e.same(layer(5, kind), R.out, conf_list(c, conf_choose(c, std::nullopt), true));
        }
    });
    // paths of every length
    family("paths of every length", (O.thorough ? 1000 : 500) * 3, [=](Worker &w, uint64_t i) {
        int kind = i % 3; size_t L = i / 3; static const char *tails[] = {"", "/.detoxrc", "/detox/detoxrc"};
        clear_root(w); wipe(w.tree);
        S d = w.root + "/l";
        while (L > d.size()) { size_t c = std::min<size_t>(L - d.size() - 1, 200); if (!c) return; d += "/" + S(c, 'p'); }
        if (L != d.size()) return;
        S f = d + (kind ? tails[kind] : "");
        if (kind && f.size() >= 256) return;
        // next to it is one that must not be taken for it
        put_file(f, layer(3, 1)); if (!kind) put_file(f + "q", layer(8, 1));
        if (kind == 0) run_layers(w, {layer(3, 1)}, {f}, {false}, {}, {"-f", f}, {f});
        else run_layers(w, {layer(3, 1)}, {f}, {false}, {{kind == 1 ? "HOME" : "XDG_CONFIG_HOME", d}}, {}, {f});
        wipe(w.root + "/l");
    });
    // paths of every content
    const auto &odd = odd_names();
    family("paths of every content", odd.size() * 4, [=, &odd](Worker &w, uint64_t i) {
        int kind = i % 4; const S &x = odd[i / 4]; static const char *tails[] = {"", "/.detoxrc", "/detox/detoxrc", ""};
        if (!O.thorough && (i / 4 + kind) % 4 && x.size() > 5) return;
        if (x == "." || x == "..") return;
        clear_root(w); wipe(w.tree);
        S d = (kind == 3 ? S() : w.root + "/l/") + x, f = d + tails[kind], at = (kind == 3 ? w.tree + "/" : S()) + f;
        if (kind % 3 && f.size() >= 256) return;
        put_file(at, layer(3, 1)); if (at.size() < 200) put_file(at + "q", layer(8, 1));
        if (kind % 3 == 0) run_layers(w, {layer(3, 1)}, {at}, {false}, {}, i % 8 < 4 ? V<S>{"-f", f} : V<S>{"-f" + f}, {f});
        else run_layers(w, {layer(3, 1)}, {f}, {false}, {{kind == 1 ? "HOME" : "XDG_CONFIG_HOME", d}}, {}, {f});
        wipe(w.root + "/l"); wipe(w.tree);
    });
    // the ignore lists of all layers are in effect
    family("ignored names from every layer", 32 * 2, [=](Worker &w, uint64_t i) {
        clear_root(w);
        S h = w.root + "/home", x = w.root + "/xdg"; int m = i % 32;
        Scn s; s.ignore = {}; bool sys = false; s.order = ORDER_SORTED; s.flags = {"-r"};
        V<S> p; for (auto &a : PATHS) p.push_back(w.root + a); p.push_back(h + "/.detoxrc"); p.push_back(x + "/detox/detoxrc");
        for (int j = 0; j < 5; j++) {
            S n = "ig" + std::to_string(j) + " x";
            s.world.push_back({n, i & 32 ? 'd' : 'f', ""}); if (i & 32) s.world.push_back({n + "/in side", 'f', ""});
            if (!(m >> j & 1)) continue;
            put_file(p[j], "ignore { filename \"" + n + "\"; };\nsequence default { safe; wipeup { remove_trailing; }; };\n");
            if (j < 3 && sys) continue;
            if (j < 3) sys = true;
            s.ignore.push_back(n);
        }
        s.world.push_back({"{arch}", 'f', ""}); if (!m) s.ignore = {"{arch}"};
        s.env = {{"HOME", h}, {"XDG_CONFIG_HOME", x}};
        explore_scn(w, s, nullptr, [](Ctx &c) { S e = check_changes_exact(c); return e.empty() ? check_model(c) : e; });
    });
});

// ---------------------------------------------------------------- C03
static Reg c03("C03", [] {
    RULE = "every ordered choice of up to 3 of 6 sequence names (thorough: 4), every option list of up to two -s, every value of DETOX_SEQUENCE, in every position; the marked sequence, the sequence that filters and the one that renames must be the one that the manual names, or there must be an error and no rename";
    EXHAUSTIVE = true;
    static const V<S> names = {"default", "a", "b", "A", "aa", "de fault"};
    static const V<S> asks = {"default", "a", "b", "A", "aa", "de fault", "missing", "", "defaul", "a "};
    static V<V<int>> defs;
    std::function<void(V<int>)> rec = [&](V<int> v) { defs.push_back(v); if (v.size() == (O.thorough ? 4u : 3u)) return; for (int i = 0; i < (int)names.size(); i++) if (std::find(v.begin(), v.end(), i) == v.end()) { auto x = v; x.push_back(i); rec(x); } };
    defs.clear(); rec({});
    // ask: 0 none, 1..n one of asks, then two of them
    uint64_t na = asks.size(), opts = 1 + na + na * na, envs = 1 + na;
    family("every list of sequences, -s and DETOX_SEQUENCE", defs.size() * opts * envs / (O.thorough ? 1 : 3), [=](Worker &w, uint64_t i0) {
        uint64_t i = O.thorough ? i0 : i0 * 3 + i0 % 3;
        auto &d = defs[i % defs.size()]; i /= defs.size();
        uint64_t ev = i % envs; i /= envs; uint64_t op = i % opts;
        Ev e(w, "selection"); S t; Conf c; S f = w.dir + "/conf";
        for (int k : d) t += "sequence \"" + names[k] + "\" { max_length { length " + std::to_string(k + 1) + "; }; };\n";
        conf_read(c, t, f); write_file(f, t);
        std::optional<S> want; V<S> s; V<std::pair<S, S>> env;
        if (ev) { want = asks[ev - 1]; env.push_back({"DETOX_SEQUENCE", asks[ev - 1]}); }
        if (op) { if (op <= na) s = {asks[op - 1]}; else s = {asks[(op - 1 - na) % na], asks[(op - 1 - na) / na]}; want = s.back(); }
        int k = conf_choose(c, want);
        V<S> o; bool joined = i0 % 2; for (auto &x : s) { if (joined && !x.empty()) o.push_back("-s" + x); else { o.push_back("-s"); o.push_back(x); } }
        S desc = t + "options " + joinargs(o) + (ev ? " DETOX_SEQUENCE=" + qs(asks[ev - 1]) : S(""));
        if (i0 % 9973 == 11) sample(desc);
        auto argv = [&](V<S> head, V<S> tail = {}) { for (auto &x : o) head.push_back(x); for (auto &x : tail) head.push_back(x); return head; };
        int what = i0 % 3;
        if (what == 0) {
            Result R = w.run(conf_run(w, i0 % 4 < 2 ? argv({"detox", "-L", "-f", f}) : argv({"detox"}, {"-f", f, "-L"}), env));
            S l = conf_list(c, k, false);
            if (R.status || R.out != l) e.fail(desc, "is listed as\n" + R.out + "\nexpected\n" + l + how(R)); else e.same(desc, R.out, l);
        } else if (what == 1) {
            Result R = w.run(conf_run(w, argv({"inline-detox", "-f", f}), env, "zzzzzzzzz\n"));
            S l = k < 0 ? S("") : S(d[k] + 1, 'z') + "\n";
            if (R.out != l || (R.status == 0) != (k >= 0) || R.signaled || (k < 0 && R.err.empty())) e.fail(desc, "gives " + qs(R.out) + "\nexpected " + (k < 0 ? "an error" : qs(l)) + how(R)); else e.same(desc, R.out, l);
        } else {
            wipe(w.tree); write_file(w.tree + "/zzzzzzzzz", "");
            Result R = w.run(conf_run(w, argv({"detox", "-f", f}, {"zzzzzzzzz"}), env));
            S l = k < 0 ? S("zzzzzzzzz") : S(d[k] + 1, 'z');
            struct stat st;
            if (lstat((w.tree + "/" + l).c_str(), &st) || (R.status == 0) != (k >= 0) || R.signaled || (k < 0 && (R.err.empty() || R.nmut))) e.fail(desc, S("zzzzzzzzz should be ") + (k < 0 ? "left alone, with an error" : l) + how(R)); else e.same(desc, l, l);
        }
    });
    // lengths of names and of the list
    family("names of every length", (O.thorough ? 2000 : 600) * 4 * 2, [=](Worker &w, uint64_t i) {
        int env = i % 2, kind = i / 2 % 4; size_t L = i / 8 + 1;
        S base; for (size_t j = 0; j < L; j++) base += "abcdefghijklmnopqrstuvwxyz0123456789_"[j % 37];
        S o = base;
        switch (kind) { case 0: o[L - 1] = '-'; break; case 1: o[0] = '-'; break; case 2: o[L / 2] = '-'; break; case 3: o += "x"; break; }
        Ev e(w, "names of length " + std::to_string(L));
        write_file(w.dir + "/conf", "sequence \"" + o + "\" { max_length { length 1; }; };\nsequence \"" + base + "\" { max_length { length 2; }; };\nsequence \"" + o + "2\" { max_length { length 3; }; };\n");
        for (int k = 0; k < 3; k++) {
            S ask = k == 0 ? base : k == 1 ? o : o + "3"; V<std::pair<S, S>> ev; V<S> argv = {"inline-detox", "-f", w.dir + "/conf"};
            if (env) ev = {{"DETOX_SEQUENCE", ask}}; else { argv.push_back("-s"); argv.push_back(ask); }
            Result R = w.run(conf_run(w, argv, ev, "zzzzzzzzz\n"));
            S want = k == 0 ? "zz\n" : k == 1 ? "z\n" : "";
            if (R.out != want || (R.status == 0) != (k < 2) || R.signaled) { e.fail("-s " + qs(ask) + " of " + qs(o) + ", " + qs(base), "gives " + qs(R.out) + how(R)); return; }
            e.n++;
        }
    });
    family("names of every content", odd_names().size() * 2, [=](Worker &w, uint64_t i) {
        const S &n = odd_names()[i / 2]; bool env = i % 2; if (n.find('"') != S::npos || n.find('\n') != S::npos) return;
        Ev e(w, "names of every content"); S lo = n; for (char &c : lo) if (c >= 'A' && c <= 'Z') c += 32; else if (c >= 'a' && c <= 'z') c -= 32;
        V<S> all; for (const S &x : {n + "x", S("default"), n.substr(1), lo, n, n.substr(0, n.size() - 1), " " + n, n + " "}) if (!x.empty() && std::find(all.begin(), all.end(), x) == all.end()) all.push_back(x);
        S t; for (size_t k = 0; k < all.size(); k++) t += "sequence \"" + all[k] + "\" { max_length { length " + std::to_string(k + 1) + "; }; };\n";
        write_file(w.dir + "/conf", t);
        for (const S &ask : {n, n + " ", n + "yy"}) {
            int k = std::find(all.begin(), all.end(), ask) - all.begin(); bool there = k < (int)all.size();
            V<std::pair<S, S>> ev; V<S> argv = {"inline-detox", "-f", w.dir + "/conf"};
            if (env) ev = {{"DETOX_SEQUENCE", ask}}; else { argv.push_back("-s"); argv.push_back(ask); }
            Result R = w.run(conf_run(w, argv, ev, "zzzzzzzzz\n"));
            S want = there ? S(k + 1, 'z') + "\n" : S();
            if (R.out != want || (R.status == 0) != there || R.signaled || (!there && R.err.empty())) { e.fail("-s " + qs(ask) + " of\n" + t, "gives " + qs(R.out) + how(R)); return; }
            e.n++;
        }
    });
    family("every number of sequences", O.thorough ? 400 : 200, [=](Worker &w, uint64_t i) {
        int n = i + 1; S t; Ev e(w, std::to_string(n) + " sequences");
        for (int k = 0; k < n; k++) t += "sequence s" + std::to_string(k) + " { max_length { length " + std::to_string(k + 1) + "; }; };\n";
        write_file(w.dir + "/conf", t);
        for (int k : {-1, 0, n / 2, n - 2, n - 1, n}) {
            if (k < -1) continue;
            V<S> argv = {"inline-detox", "-f", w.dir + "/conf"}; if (k >= 0) { argv.push_back("-s"); argv.push_back("s" + std::to_string(k)); }
            Result R = w.run(conf_run(w, argv, {}, S(600, 'z') + "\n"));
            S want = k == n ? S() : S((k < 0 ? 0 : k) + 1, 'z') + "\n";
            if (R.out != want || (R.status == 0) != (k < n) || R.signaled) { e.fail(joinargs(argv) + " with sequences s0 to s" + std::to_string(n - 1), "gives " + qs(R.out) + how(R)); return; }
            e.n++;
        }
    });
    family("the stock sequences", (stock().size() + 2) * 2 * 2, [=](Worker &w, uint64_t i) {
        clear_root(w);
        size_t n = i / 4; bool env = i % 2, inl = i / 2 % 2;
        S name = n < stock().size() ? stock()[n].name : n == stock().size() ? "default" : "no-such";
        Ev e(w, "stock sequence " + name);
        V<S> argv = {inl ? "inline-detox" : "detox"}; V<std::pair<S, S>> ev;
        if (env) ev = {{"DETOX_SEQUENCE", name}}; else { argv.push_back("-s"); argv.push_back(name); }
        S in = "A%41 \xe9\x80-_.b\xc2\x81";
        if (!inl) { wipe(w.tree); write_file(w.tree + "/" + in, ""); argv.push_back(in); }
        Result R = w.run(conf_run(w, argv, ev, inl ? in + "\n" : S("")));
        if (n > stock().size()) { if (R.status == 0 || R.nmut || !R.out.empty()) e.fail(name, "is no sequence, but there was no error" + how(R)); e.n++; return; }
        S want = ref_seq(n < stock().size() ? stock()[n].seq : stock()[0].seq, in); struct stat st;
        if (inl) e.same(in, R.out, want + "\n"); else { e.n++; if (lstat((w.tree + "/" + want).c_str(), &st)) e.fail(in, "should become " + qs(want) + how(R)); }
    });
});

// ---------------------------------------------------------------- C04
static Reg c04("C04", [] {
    RULE = "the listing with and without the shipped file, every sequence of both over all words of a distinguishing alphabet and all single bytes and code points of two bytes, and the ignore list, all against the released configuration";
    EXHAUSTIVE = true;
    static S shipped; shipped = read_file(O.repo + "/etc/detoxrc");
    static S released; released = read_file(O.golden + "/detoxrc");
    static Conf rel; conf_read(rel, released, "F");
    auto strip = [](S s) { S r; for (size_t p = 0; p < s.size();) { size_t z = s.find('\n', p); if (z == S::npos) z = s.size(); S l = s.substr(p, z - p); if (l.find("\tsource file: ") != 0) r += l + "\n"; p = z + 1; } return r; };
    family("listings", 3 * 13, [=](Worker &w, uint64_t i) {
        clear_root(w);
        Ev e(w, "listing");
        int from = i % 3; size_t k = i / 3;
        V<S> argv = {"detox", "-L", "-v"};
        std::optional<S> seq; if (k < stock().size()) seq = stock()[k].name; else if (k == stock().size()) seq = "missing";
        if (seq) { argv.push_back("-s"); argv.push_back(*seq); }
        if (from == 1) { write_file(w.dir + "/conf", shipped); argv.push_back("-f"); argv.push_back(w.dir + "/conf"); }
        if (from == 2) put_file(w.root + "/etc/detoxrc", shipped);
        Result R = w.run(conf_run(w, argv));
        e.same(from ? "shipped" : "built-in", strip(R.out), strip(conf_list(rel, conf_choose(rel, seq), true)));
        if (R.status) e.fail("", "failed" + how(R));
    });
    static V<S> lines;
    { Words W({"a", "Z", " ", "%41", "+", "_", "-", ".", "#", "\xe9", "\x80", "\xc3\xa9", "\xe2\x80\x8b", "&"}, O.thorough ? 4 : 3);
      for (uint64_t i = 0; i < W.count(); i++) lines.push_back(W.at(i));
      for (int c = 1; c < 256; c++) if (c != '\n') { lines.push_back(S(1, (char)c)); lines.push_back("x" + S(1, (char)c) + "y"); }
      for (unsigned c = 0x80; c < 0x2100; c++) lines.push_back(enc(c, enc_min(c)) + "k");
      for (unsigned c = 0x10000; c < 0x110000; c += 0x3ff) lines.push_back(enc(c, 4)); }
    uint64_t parts = (lines.size() + 3999) / 4000;
    family("every sequence", stock().size() * 2 * parts, [=](Worker &w, uint64_t i) {
        clear_root(w);
        const Stock &st = stock()[i / 2 % stock().size()]; uint64_t p = i / 2 / stock().size();
        Inline I; I.seq = st.name; if (i % 2) I.conf = shipped;
        RSeq q;
        int k = conf_choose(rel, S(st.name));
        if (k < 0 || !conf_filters(rel.seqs[k], q)) exit(3);
        V<S> ls(lines.begin() + p * 4000, lines.begin() + std::min<size_t>(lines.size(), (p + 1) * 4000));
        check_lines(w, S(i % 2 ? "shipped" : "built-in") + " sequence " + st.name, I, q, ls);
    });
    family("ignored names", 2 * 2, [=](Worker &w, uint64_t i) {
        clear_root(w);
        Scn s; s.order = ORDER_SORTED; s.flags = {"-r"}; s.ignore = rel.ignore;
        if (i % 2) s.conf = shipped;
        for (auto *n : {"{arch}", "{arch} ", "{ARCH}", "arch", "CVS x", "{arch", ".svn x", "a b"}) { s.world.push_back({n, i / 2 ? 'd' : 'f', ""}); if (i / 2) s.world.push_back({S(n) + "/in side", 'f', ""}); }
        explore_scn(w, s, nullptr, [](Ctx &c) { S e = check_changes_exact(c); return e.empty() ? check_model(c) : e; });
    });
});

// ---------------------------------------------------------------- C05
static bool rejected_or_accepted(Worker &w, Ev &e, const S &text, int mode)
{
    // mode 0: one file with -f; 1: second file after a good one
    S f = w.dir + "/conf";
    Conf c; int bad = conf_read(c, text, f);
    V<S> argv; V<std::pair<S, S>> env; S named = f;
    if (mode == 0) { write_file(f, text); argv = {"detox", "-f", f, "a b"}; }
    else {
        put_file(w.root + "/etc/detoxrc", "# first\n\nsequence default { lower; };\n\n\n");
        S h = w.root + "/h"; put_file(h + "/.detoxrc", mode == 1 ? text : S("\n\nignore { filename x; };\n")); named = h + "/.detoxrc";
        env = {{"HOME", h}};
        if (mode == 2) { put_file(h + "/x/detox/detoxrc", text); named = h + "/x/detox/detoxrc"; env.push_back({"XDG_CONFIG_HOME", h + "/x"}); }
        argv = {"detox", "a b"};
    }
    struct stat st;
    if (lstat("a b", &st)) { wipe(w.tree); write_file(w.tree + "/a b", ""); }
    Result R = w.run(conf_run(w, argv, env));
    e.n++;
    if (R.signaled) return e.fail(text, "ended by a signal" + how(R));
    if (seen_new(mix(e.h, hstr(text)))) e.fresh++;
    if (text.find('\0') != S::npos) { if (R.nmut) wipe(w.tree); return true; }      // only that it ends
    if (bad) {
        S line = "line " + std::to_string(bad);
        size_t p = R.err.find(line);
        bool names_line = p != S::npos && (p + line.size() >= R.err.size() || !isdigit((unsigned char)R.err[p + line.size()]));
        if (R.status == 0) return e.fail(text, "is not in the grammar (line " + std::to_string(bad) + "), but was accepted" + how(R));
        if (R.nmut) return e.fail(text, "is not in the grammar, but something was changed" + how(R));
        if (R.err.find(named) == S::npos) return e.fail(text, "was rejected without naming the file" + how(R));
        if (!names_line) return e.fail(text, "was rejected with another line than " + std::to_string(bad) + how(R));
    } else {
        if (R.err.find("error parsing") != S::npos) return e.fail(text, "is in the grammar, but was rejected" + how(R));
        if (R.nmut) wipe(w.tree);
    }
    return true;
}
static const V<S> TOKENS = {"sequence", "ignore", "builtin", "filename", "length", "remove_trailing", "uncgi", "lower", "wipeup", "iso8859_1", "utf_8", "safe", "max_length", "{", "}", ";", "\"s t\"", "name", "7"};
static void token_words(const S &name, const S &head, const S &tail, int max)
{
    uint64_t k = TOKENS.size();
    for (int l = 0; l <= max; l++)
        family(name + ": all words of " + std::to_string(l) + " tokens", (nwords(k, l) + 15) / 16, [=](Worker &w, uint64_t i) {
            Ev e(w, name); clear_root(w);
            for (uint64_t j = i * 16; j < nwords(k, l) && j < i * 16 + 16; j++) {
                S t = head; uint64_t x = j;
                for (int n = 0; n < l; n++) { t += (n % 2 ? "\n" : " ") + TOKENS[x % k]; x /= k; }
                t += tail;
                if (j % 30011 == 17) sample(t);
                if (!rejected_or_accepted(w, e, t, 0)) return;
            }
        });
}
static Reg c05("C05", [] {
    RULE = "every word of up to 4 tokens (thorough: 5) as a configuration, as the body of a sequence, of a filter and of an ignore list; every deletion, insertion, doubling, exchange and replacement of a token and every truncation of configurations; every byte inserted at every place; in each file that is read; what a reader written from the manual does not accept must be rejected with the file and the line, before anything is renamed";
    EXHAUSTIVE = true;
    int n = O.thorough ? 5 : 4;
    token_words("tokens", "", "\n", n);
    token_words("tokens in a sequence", "sequence name {", " };\n", O.thorough ? 5 : 3);
    token_words("tokens after a filter", "sequence name { lower;", "\n", O.thorough ? 4 : 3);
    token_words("tokens in a filter with a table", "sequence name { safe {", " }; };\n", O.thorough ? 4 : 3);
    token_words("tokens in wipeup", "sequence name { wipeup {", " }; };\n", O.thorough ? 4 : 3);
    token_words("tokens in max_length", "sequence name { max_length {", " }; };\n", O.thorough ? 4 : 3);
    token_words("tokens in an ignore list", "ignore {", " };\nsequence default { safe; };\n", O.thorough ? 4 : 3);
    token_words("tokens after a definition", "sequence default { safe; };\n", "", O.thorough ? 4 : 3);
    static V<V<Tok>> toks; toks.clear();
    for (auto &b : BASES) toks.push_back(conf_tokens(b));
    toks.push_back(conf_tokens(read_file(O.golden + "/detoxrc")));
    for (size_t b = 0; b < toks.size(); b++) {
        if (b + 1 == toks.size() && !O.thorough && toks[b].size() > 400) {}
        uint64_t nt = toks[b].size() - 1, ops = 3 + 2 * TOKENS.size();
        family("configuration " + std::to_string(b) + ": every change of a token", nt * ops * (b + 1 < toks.size() ? 3 : 1), [=](Worker &w, uint64_t i) {
            Ev e(w, "changed configuration"); clear_root(w);
            V<Tok> t = toks[b]; t.pop_back();
            size_t at = i % nt; uint64_t op = i / nt % ops; int mode = i / nt / ops;
            if (op == 0) t.erase(t.begin() + at);
            else if (op == 1) t.insert(t.begin() + at, t[at]);
            else if (op == 2) { if (at + 1 >= t.size()) return; std::swap(t[at], t[at + 1]); }
            else {
                Tok x = conf_tokens(TOKENS[(op - 3) % TOKENS.size()])[0];
                if (op - 3 < TOKENS.size()) t[at] = x; else t.insert(t.begin() + at, x);
            }
            S s; for (size_t j = 0; j < t.size(); j++) s += tok_text(t[j]) + (j % 3 == 2 ? "\n" : " ");
            if (i % 4999 == 77) sample(s.substr(0, 300));
            rejected_or_accepted(w, e, s, mode);
        });
        S text = b < BASES.size() ? BASES[b] : read_file(O.golden + "/detoxrc");
        if (b < BASES.size()) for (size_t p = text.find("; "), k = 0; p != S::npos; p = text.find("; ", p + 1)) if (k++ % 2) text[p + 1] = '\n';
        static const S ins = S("\"#\n\t;{}a1_\r'\\!-\xc3\x00", 17);
        family("configuration " + std::to_string(b) + ": every truncation, every byte taken out and bytes put in", text.size() * (2 + ins.size()), [=](Worker &w, uint64_t i) {
            Ev e(w, "changed configuration"); clear_root(w);
            size_t at = i % text.size(); uint64_t op = i / text.size(); S s = text;
            if (op == 0) s.resize(at);
            else if (op == 1) s.erase(at, 1);
            else s.insert(at, 1, ins[op - 2]);
            rejected_or_accepted(w, e, s, op < 5 ? i % 3 : 0);
        });
    }
    family("bytes that are part of nothing, strings without end", 256 * 6, [=](Worker &w, uint64_t i) {
        Ev e(w, "bytes"); clear_root(w);
        S c(1, (char)(i % 256)); int k = i / 256;
        S t = k == 0 ? c : k == 1 ? c + "sequence default { safe; };\n" : k == 2 ? "sequence default { safe" + c + "; };" : k == 3 ? "sequence \"" + c + "\n{ safe; };\n" : k == 4 ? "ignore { filename \"x" + c + "; };\nsequence a { safe; };" : "sequence default { safe; };\n\n\"" + c + "\n";
        rejected_or_accepted(w, e, t, 0);
    });
    family("errors far into a file", 300 * 4, [=](Worker &w, uint64_t i) {
        Ev e(w, "long file"); clear_root(w);
        int n = (i / 4 + 1) * (i % 4 == 3 ? 97 : 3); S t;
        for (int j = 0; j < n; j++) t += j % 4 == 0 ? "sequence s" + std::to_string(j) + " {\n" : j % 4 == 1 ? S("\tlower;  # c\n") : j % 4 == 2 ? S("};\n") : S("\n");
        if (n % 4 == 1) t += "lower;};"; else if (n % 4 == 2) t += "};";
        t += i % 4 == 0 ? "bad" : i % 4 == 1 ? "sequence { safe; };" : i % 4 == 2 ? "\n\nsequence x { safe; }\n\n" : "ignore {\n\n};";
        rejected_or_accepted(w, e, t, i / 4 % 3);
    });
});
