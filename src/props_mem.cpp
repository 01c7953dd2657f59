// Memory: detox under the address sanitizer, on everything it reads.
#include "conf.hpp"
#include "fsfam.hpp"
#include "tables.hpp"

static S how(const Result &R) { return "\nstatus " + std::to_string(R.status) + (R.signaled ? " (signal)" : "") + (R.timed_out ? " (did not end)" : "") + "\nstdout: " + qs(R.out.substr(0, 300)) + "\nstderr: " + qs(R.err.substr(0, 3000)); }
static S broken(const Result &R)
{
    if (R.timed_out) return "does not end";
    if (R.err.find("AddressSanitizer") != S::npos || R.err.find("runtime error:") != S::npos) return "accesses memory wrongly";
    if (R.signaled) return "ended by a signal";
    return "";
}
// one run; anything may come out, but nothing may break
static bool mem(Worker &w, Ev &e, const V<S> &argv, const S &in, const S &desc, const V<std::pair<S, S>> &env = {}, bool loads = true)
{
    Run r; r.argv = argv; r.env = env; r.stdin_data = in; r.timeout = 30;
    S root = w.root;
    r.hooks = [root](HookArea &h) { snprintf(h.root, sizeof h.root, "%s", root.c_str()); h.order = ORDER_SORTED; };
    Result R = w.run(r);
    e.n++; e.bytes += in.size() + 1;
    if (seen_new(mix(hstr(desc, e.h), hstr(R.out)))) e.fresh++;
    S b = broken(R);
    if (!b.empty()) { S c; for (auto &x : env) c += x.first + "=" + qs(x.second.substr(0, 300)) + " "; return e.fail(desc.empty() ? in.substr(0, 3000) : desc, b + "\ncommand: " + c + joinargs(argv).substr(0, 3000) + how(R)); }
    return true;
}
// all filters with all kinds of tables, under names
static const S &chains()
{
    static S c = "sequence \"default\" { safe; wipeup { remove_trailing; }; };\nsequence u { uncgi; };\nsequence l { lower; };\nsequence w { wipeup; };\nsequence wt { wipeup { remove_trailing; }; };\nsequence m { max_length { length 9; }; };\nsequence m1 { max_length { length 1; }; };\n"
        "sequence \"safe\" { safe; };\nsequence i { iso8859_1; };\nsequence c { iso8859_1 { builtin cp1252; }; };\nsequence t { utf_8; };\nsequence all { uncgi; utf_8; safe; wipeup { remove_trailing; }; lower; max_length { length 40; }; };\nsequence twice { utf_8; utf_8; iso8859_1; iso8859_1; safe; safe; uncgi; uncgi; };\n";
    return c;
}
static const V<S> CN = {"default", "u", "l", "w", "wt", "m", "m1", "safe", "i", "c", "t", "all", "twice"};

static Reg n09("N09", [] {
    RULE = "detox under the address sanitizer: all short streams of bytes (with NUL), all lengths of lines and names with every kind of end, all lengths of paths, variables, options, names and table lines around every buffer, tables with every length of rows and defaults, words of tokens and of table lines, small trees in every order; no access outside of a buffer or after its end, no signal, no endless run";
    EXHAUSTIVE = true;
    // streams
    static const V<S> at = {S(1, '\0'), "\n", "a", " ", "%", "%4", "\x80", "\xc3", "\xe2\x82", "\xf0", "\xfc", "-", ".", "\xff"};
    uint64_t k = at.size();
    for (int n = 1; n <= (O.thorough ? 4 : 3); n++) {
        uint64_t ws = nwords(k, n), per = n < 3 ? 1 : 14;
        family("every stream of " + std::to_string(n) + " pieces", ws / per * (n < 3 ? CN.size() : 3), [=](Worker &w, uint64_t i) {
            Ev e(w, "stream"); write_file(w.dir + "/conf", chains());
            uint64_t ns = n < 3 ? CN.size() : 3, m = i % ns; i /= ns;
            static const int few[] = {0, 11, 12};
            if (per == 1) mem(w, e, {"inline-detox", "-f", w.dir + "/conf", "-s", CN[m]}, word_at(at, n, i), CN[m] + ": " + qs(word_at(at, n, i)));
            else { S a = word_at(at, n - 1, i); for (auto &b : at) if (!mem(w, e, {"inline-detox", "-f", w.dir + "/conf", "-s", CN[few[m]]}, a + b, CN[few[m]] + ": " + qs(a + b))) return; }
        });
    }
    // all words of two bytes, and more, as lines
    family("all lines of 2 bytes", 255 * CN.size(), [](Worker &w, uint64_t i) {
        Ev e(w, "lines of 2 bytes"); write_file(w.dir + "/conf", chains());
        S in; for (int c = 1; c < 256; c++) { in += (char)(i / CN.size() + 1); in += (char)c; in += '\n'; }
        mem(w, e, {"inline-detox", "-f", w.dir + "/conf", "-s", CN[i % CN.size()]}, in, "");
    });
    // lengths of lines
    static const V<S> ends = {"", "x", "%", "%4", "%41", "\xc3", "\xe2", "\xe2\x82", "\xf0\x9f\x98", "\xfc\x80\x80\x80\x80", "\x80\x80\x80\x80\x80\x80\x80", "\xff", " ", "-", ".tar.gz", ".", "\xfd\xbf\xbf\xbf\xbf\xbf"};
    static const V<S> fills = {"x", " ", "\xe9", "\xc3\xa9", "\xe2\x84\xa2", "%41", "%", "-", ".", "a.", "\xf0\x9f\x98\x80", "&"};
    family("every length of a line with every end", 160 * ends.size() * 4, [](Worker &w, uint64_t i) {
        // portions of 16 lengths up to 2560, for 4 of the sequences each
        Ev e(w, "length of a line"); write_file(w.dir + "/conf", chains());
        int b = i / 4 / ends.size() * 16; const S &t = ends[i / 4 % ends.size()]; S in;
        if (b > 700 && b < 960 && !O.thorough) return;
        for (int n = b; n < b + 16; n++) { const S &f = fills[(n + b / 16) % fills.size()]; S l; while ((int)(l.size() + f.size() + t.size()) <= n) l += f; while ((int)(l.size() + t.size()) < n) l += 'y'; in += l + t + "\n"; }
        static const int few[] = {0, 11, 12, 10};
        mem(w, e, {"inline-detox", "-f", w.dir + "/conf", "-s", CN[few[i % 4]]}, in, "");
        if (i % 4 == 3) { in.pop_back(); mem(w, e, {"inline-detox", "-f", w.dir + "/conf", "-s", CN[i / 4 % CN.size()]}, in.substr(in.rfind('\n') + 1), ""); }
    });
    family("every short line of one kind", fills.size() * CN.size() * 4, [](Worker &w, uint64_t i) {
        Ev e(w, "short lines"); write_file(w.dir + "/conf", chains());
        const S &f = fills[i / CN.size() % fills.size()]; int part = i / CN.size() / fills.size(); S in;
        for (int n = part * 70; n < part * 70 + 70; n++) for (auto &t : ends) { S l; for (int j = 0; j < n; j++) l += f; in += l + t + "\n"; }
        mem(w, e, {"inline-detox", "-f", w.dir + "/conf", "-s", CN[i % CN.size()]}, in, "");
    });
    // rows and defaults of every length
    int R = O.thorough ? 70 : 24;
    family("tables with every length of rows and defaults", (uint64_t)R * R * 3, [=](Worker &w, uint64_t i) {
        Ev e(w, "table"); int a = i / 3 % R, d = i / 3 / R; static const char *f[] = {"safe", "iso8859_1", "utf_8"};
        auto len = [](int x) { return x < 20 ? x : x < 24 ? (x - 19) * 50 : x < 60 ? x - 4 : (x - 59) * 90; };
        S t = d ? "default " + S(len(d) - (d > 1), 'd') + (d > 1 ? "e" : "") + "\n" : S();
        t += "start\n0x61 \"" + S(len(a), 'r') + "\"\n0xe9 \"" + S(len(a) / 2, 's') + "\"\n0x20ac ''\n0x01 " + S(1 + len(a) % 7, 't') + "\nend\n";
        write_file(w.dir + "/t.tbl", t); write_file(w.dir + "/conf", S("sequence q { ") + f[i % 3] + " { filename \"" + w.dir + "/t.tbl\"; }; };\n");
        S in = "a\nb\naa\nab\nba\naaaaaaaaaa\n\xe9\n\xe9\xe9\xe9z\n\xc3\xa9\xe2\x82\xac\nzzz\n\x80\xff\n\x01\x02\x01\n" + S(255, 'a') + "\n" + S(255, 'q') + "\n" + S(127, '\xe9') + "\n\xf0\x9f\n\xc0\x80\n" + S(1000, 'a') + "\n";
        mem(w, e, {"inline-detox", "-f", w.dir + "/conf"}, in, t);
    });
    family("tables with every number of rows", O.thorough ? 2400 : 400, [](Worker &w, uint64_t i) {
        Ev e(w, "rows"); int n = O.thorough ? (int)i : i < 60 ? (int)i : i < 200 ? 380 + (int)i - 60 : (int)(i - 200) * 11; S t = "start\n", in; char b[64];
        for (int j = 0; j < n; j++) { snprintf(b, sizeof b, "%d r%d\n", i % 2 ? 1 + j * 500 : j + 1, j); t += b; }
        write_file(w.dir + "/t.tbl", t); write_file(w.dir + "/conf", "sequence q { utf_8 { filename \"" + w.dir + "/t.tbl\"; }; safe { filename \"" + w.dir + "/t.tbl\"; }; };\n");
        for (int c = 1; c < 256; c++) if (c != '\n') in += S(1, (char)c);
        in += "\n"; for (unsigned c = 0x80; c < 0x400; c++) in += enc(c, 2);
        mem(w, e, {"inline-detox", "-f", w.dir + "/conf"}, in + "\n", std::to_string(n) + " rows");
    });
    // table files
    static const V<S> tl = {"start", "end", "default", "default \"", "default '", "0x41", "0x41 \"", "0x41 a", "0x41 \"b", "0x41 ''", "-1 x", "99999999999999999999 x", "0x7fffffff y", "0x80000000 z", "start \"", "start '", "start ' '", S("0x41 a\0b", 8), S(1, '\0'), "0x", "0x41a b", "08 x", " ", "2147483648 x", "500 c", "0xffffffff f"};
    for (int n = 1; n <= 3; n++) {
        uint64_t c = nwords(tl.size(), n);
        family("all table files of " + std::to_string(n) + " lines", O.thorough || n < 3 ? c : c / 2, [=](Worker &w, uint64_t i) {
            if (!O.thorough && n == 3) i = i * 2 + i / (tl.size() / 2) % 2;
            Ev e(w, "table file"); S t; uint64_t x = i; for (int j = 0; j < n; j++) { t += tl[x % tl.size()] + (j + 1 < n || i % 3 ? "\n" : ""); x /= tl.size(); }
            if (n < 3) t = (i % 2 ? S("start\n") : S("default d\n")) + t;
            write_file(w.dir + "/t.tbl", t); write_file(w.dir + "/conf", "sequence q { safe { filename \"" + w.dir + "/t.tbl\"; }; utf_8 { filename \"" + w.dir + "/t.tbl\"; }; };\n");
            mem(w, e, {"inline-detox", "-f", w.dir + "/conf"}, "Ab\xc3\xa9\xff A\n", t);
        });
    }
    family("every length of a line of a table", 90 * 8 * 3, [](Worker &w, uint64_t i) {
        Ev e(w, "line of a table"); int n = (i / 24 < 45 ? 1000 : 2020) + i / 24 % 45, kind = i % 8; S t;
        static const V<S> head = {"start\n0x41 ", "start\n0x41 \"", "start\n0x41 '", "default ", "default \"", "start ", "# ", "start\n0x00041 "};
        S l = head[kind]; size_t from = l.rfind('\n') == S::npos ? 0 : l.rfind('\n') + 1;
        l += S(std::max<int>(0, n - (int)(l.size() - from)), i / 8 % 3 == 2 ? ' ' : 'v');
        if (kind == 7) l.insert(l.size() - 3, "\" '");
        t = l + (i / 8 % 3 == 1 ? "" : "\n0x42 c\nend\n");
        write_file(w.dir + "/t.tbl", t); write_file(w.dir + "/conf", "sequence q { safe { filename \"" + w.dir + "/t.tbl\"; }; };\n");
        mem(w, e, {"inline-detox", "-f", w.dir + "/conf"}, "ABab\xe9\n" + S(200, 'A') + "\n", t);
    });
    // configurations
    static const V<S> tok = {"sequence", "ignore", "builtin", "filename", "length", "remove_trailing", "uncgi", "lower", "wipeup", "iso8859_1", "utf_8", "safe", "max_length", "{", "}", ";", "\"s t\"", "name", "7", "\"", "\"\n", "# x", S(1, '\0'), "!"};
    auto toks = [&](const S &name, const S &head, const S &tail, int max) {
        for (int n = 0; n <= max; n++)
            family(name + ": all words of " + std::to_string(n) + " tokens", nwords(tok.size(), n), [=](Worker &w, uint64_t i) {
                Ev e(w, name); S t = head; for (int j = 0; j < n; j++) { t += " " + tok[i % tok.size()]; i /= tok.size(); }
                t += tail; write_file(w.dir + "/conf", t);
                mem(w, e, {"detox", "-f", w.dir + "/conf", "-Lv"}, "", t);
            });
    };
    int m = O.thorough ? 3 : 2;
    toks("tokens", "", "\n", m);
    toks("tokens in a sequence", "sequence a { safe; }; sequence a {", " };\n", m);
    toks("tokens in a filter", "sequence a { safe { builtin x; }; safe {", "; }; };\n", 2);
    toks("tokens in a filter without an end", "sequence a { wipeup {", "", 2);
    toks("tokens in max_length", "sequence a { max_length {", "; }; };\n", 2);
    toks("tokens in an ignore list", "ignore { filename a;", " };\n", 2);
    family("every length of a name in a configuration", 110 * 4 * 3, [](Worker &w, uint64_t i) {
        Ev e(w, "length of a name"); static const int at[] = {0, 230, 1000, 8150}; int n = at[i % 4] + i / 12; S x(n, 'n');
        S q = i / 4 % 3 == 0 ? "\"" + x + "\"" : i / 4 % 3 == 1 ? "n" + x : "\"" + x + "\n";
        write_file(w.dir + "/conf", "sequence " + q + " { safe { filename " + q + "; }; };\nignore { filename " + q + "; };\nsequence b { safe { builtin " + q + "; }; };");
        if (mem(w, e, {"detox", "-f", w.dir + "/conf", "-Lv"}, "", "name of length " + std::to_string(n)) && mem(w, e, {"inline-detox", "-f", w.dir + "/conf"}, "a b\n", "name of length " + std::to_string(n)))
            mem(w, e, {"inline-detox", "-f", w.dir + "/conf", "-s", "b"}, "a b\n", "name of length " + std::to_string(n));
    });
    family("numbers in a configuration", 64 * 3, [](Worker &w, uint64_t i) {
        static const V<S> nums = {"0", "1", "2", "255", "256", "2147483647", "2147483648", "4294967295", "4294967296", "4294967301", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "00000000000000000000005"};
        Ev e(w, "number"); write_file(w.dir + "/conf", "sequence a { max_length { length " + (i / 3 < nums.size() ? nums[i / 3] : std::to_string(i)) + "; }; };");
        S in; for (int n : {0, 1, 2, 3, 10, 254, 255, 256, 257, 1000}) for (auto &t : ends) in += S(n, 'a') + t + "\n" + S(n, '.') + t + "\na" + t + S(n, 'b') + t + t + "\n";
        mem(w, e, {"inline-detox", "-f", w.dir + "/conf"}, in, "");
    });
    // paths to configurations and tables
    family("every length of HOME, XDG_CONFIG_HOME, -f, -s and arguments", 300 * 6, [](Worker &w, uint64_t i) {
        Ev e(w, "length of a path"); wipe(w.root); wipe(w.tree); int n = i / 6; S p = "/";
        if (n >= 280) n = 4080 + (n - 280) * 2;
        while ((int)p.size() < n) p += p.size() % 64 == 63 ? '/' : 'p';
        p.resize(n); V<S> a = {"detox", "-Lv"}; V<std::pair<S, S>> env;
        switch (i % 6) {
            case 0: env = {{"HOME", p}}; break;
            case 1: env = {{"XDG_CONFIG_HOME", p}, {"HOME", p}}; break;
            case 2: a = {"detox", "-f", p, "a b"}; break;
            case 3: a = {"inline-detox", "-s", p}; env = {{"DETOX_SEQUENCE", p + "x"}}; break;
            case 4: if (p == "/") return; a = {"detox", "-rv", p, p + "/", "./" + p, S(n, '/') + "a b", S(n, '.')}; break;
            case 5: write_file(w.dir + "/conf", "sequence q { safe { filename \"" + p + "\"; }; utf_8 { builtin \"" + p + "\"; }; };"); a = {"inline-detox", "-f", w.dir + "/conf"}; break;
        }
        if (i % 6 < 2 && n > 1 && n < 260) { S d = w.root + S(p.substr(1)); env.back().second = d.substr(0, std::max(n, (int)w.root.size() + 1)); }
        mem(w, e, a, "a b\n", std::to_string(n));
    });
    // names and paths in the filesystem
    family("every length of a name", 255 * 6, [](Worker &w, uint64_t i) {
        Ev e(w, "length of a name"); wipe(w.tree); write_file(w.dir + "/conf", chains()); int n = i / 6 + 1;
        static const int few[] = {0, 11, 12, 7, 5, 10};
        S p; V<S> a = {"detox", "-rv", "-f", w.dir + "/conf", "-s", CN[few[i % 6]]};
        for (int j = 0; j < 5; j++) { S x; const S &f = fills[(j * 3 + n) % fills.size()]; while ((int)(x.size() + f.size()) <= n) x += f; while ((int)x.size() < n) x += '~'; if (x == "." || x == "..") continue; p += (p.empty() ? "" : "/") + x; if (mkdir((w.tree + "/" + p).c_str(), 0755)) break; write_file(w.tree + "/" + p + "/" + S(n, ' '), ""); if (j == 0 || j == 3) a.push_back(p); }
        mem(w, e, a, "", "names of length " + std::to_string(n));
    });
    family("deep trees", O.thorough ? 120 : 40, [](Worker &w, uint64_t i) {
        Ev e(w, "deep trees"); wipe(w.tree); int depth = i + 1 + (i > 30) * (i - 30) * 3, len = i % 2 ? 20 : 250;
        if (depth * len > 3600) depth = 3600 / len;
        S p = w.tree; for (int j = 0; j < depth; j++) { p += "/" + S(len - 2, 'd') + " d"; if (mkdir(p.c_str(), 0755)) break; write_file(p + "/f f", ""); }
        mem(w, e, {"detox", "-rv", "."}, "", "depth " + std::to_string(depth));
        mem(w, e, {"detox", "-rn", w.tree}, "", "depth " + std::to_string(depth));
        wipe(w.tree);
    });
    // trees
    auto fn = [](Worker &w, const Scn &s) {
        explore_scn(w, s, nullptr, [](Ctx &c) -> S { return broken(*c.R) + (broken(*c.R).empty() ? "" : how(*c.R)); });
    };
    fam_small("one directory, up to 2 entries", 9, "fdlL", 1, 2, {{"-rv", "--special"}}, fn);
    fam_small("one directory, 3 entries", 6, "fd", 3, 3, {{"-r"}}, fn);
    fam_deep("chain of directories", 1, {{"-r"}, {"-rn"}}, fn);
    fam_args("arguments", 1, {{"-v"}, {"-r", "--special"}}, fn);
    static const V<int> many = {1, 63, 64, 65, 127, 128, 129, 200};
    fam_many("many entries", many, {{"-r"}}, [](Worker &w, const Scn &s) { Scn t = s; t.order = ORDER_SORTED; explore_scn(w, t, nullptr, [](Ctx &c) -> S { return broken(*c.R) + (broken(*c.R).empty() ? "" : how(*c.R)); }); });
});
