// Tables through the program: files, languages, the search for tables.
#include "oddnames.hpp"
#include "tables.hpp"
#include "fscommon.hpp"

static void rule_add(const S &s) { RULE = RULE.empty() ? s : RULE + "; " + s; EXHAUSTIVE = true; }

// ---------------------------------------------------------------- T01
static S key_line(unsigned k) { return enc(k, enc_min(k)); }
static Reg t01("T01", [] {
    rule_add("every table file of up to 4 (thorough: 5) rows whose codes share places, and every filling by regular patterns, through the utf_8 filter of inline-detox, alone and with a second table of the same codes");
    static const V<unsigned> K = {1, 501, 1001, 2, 502, 500, 1000};
    static V<S> look; if (look.empty()) { for (unsigned k : K) look.push_back(key_line(k)); for (unsigned k : K) look.push_back(key_line(k)); look.push_back(key_line(1502) + key_line(1) + key_line(501)); look.push_back(key_line(3)); }
    int len = O.thorough ? 5 : 4;
    for (int l = 1; l <= len; l++) family("inline: all tables of " + std::to_string(l) + " rows that share places", nwords(K.size(), l), [=](Worker &w, uint64_t i) {
        RTable t; S text = "start\n"; uint64_t x = i;
        for (int j = 0; j < l; j++) { S v = "<" + std::to_string(j) + ">"; t.rows[K[x % K.size()]] = v; text += std::to_string(K[x % K.size()]) + " " + v + "\n"; x /= K.size(); }
        S f = w.dir + "/t.tbl"; write_file(f, text + "end\n");
        RSeq q = {{R_UTF8, &t, 0, f, true}};
        Inline I; I.conf = conf_seq("q", q);
        check_lines(w, "table " + qs(text), I, q, look);
    });
    family("inline: filled tables", 60 * 5, [=](Worker &w, uint64_t i) {
        RTable t; S text = "start\n"; int n = i / 5 < 40 ? i / 5 : i / 5 < 50 ? 460 + (i / 5) * 1 : (i / 5 - 49) * 499; V<S> ls;
        for (int j = 0; j < n; j++) {
            unsigned k = i % 5 == 0 ? j + 256 : i % 5 == 1 ? (j + 1) * 500 : i % 5 == 2 ? (j + 1) * 7 : i % 5 == 3 ? (n - j) * 250 : (j % 50) * 500 + j / 50 + 1;
            if (k == '\n' || k == '.' || (k >= 0xd800 && k < 0xe000) || k > 0x10ffff) continue;
            S v = "<" + std::to_string(j) + ">"; t.rows[k] = v; text += std::to_string(k) + " " + v + "\n"; ls.push_back(key_line(k));
        }
        ls.push_back("~");
        S f = w.dir + "/t.tbl"; write_file(f, text + "end\n");
        RSeq q = {{R_UTF8, &t, 0, f, true}};
        Inline I; I.conf = conf_seq("q", q);
        check_lines(w, "table of " + std::to_string(n) + " rows, pattern " + std::to_string(i % 5), I, q, ls);
    });
});
// ---------------------------------------------------------------- T02
// the codes as lines for a utf_8 filter, which hands every code to the table
static V<S> code_lines() { V<S> v; for (unsigned c : table_codes()) if (c > 1) v.push_back(enc(c, enc_min(c)) + "."); v.push_back("zz"); return v; }
static Reg t02("T02", [] {
    rule_add("every file of up to 3 lines out of 30 kinds as the table of a filter of inline-detox");
    uint64_t k = table_lines().size(), n = k * k * k;
    family("inline, utf_8: all table files of 3 lines", O.thorough ? n : n / 3, [=](Worker &w, uint64_t i0) {
        const V<S> &L = table_lines();
        uint64_t i = O.thorough ? i0 : i0 % (k * k) + i0 / (k * k) * 3 * (k * k);    // quick: every third last line
        S text = L[i % k] + "\n" + L[i / k % k] + "\n" + L[i / k / k] + (i % 2 ? "\n" : "");
        RTable t = read_table(text);
        S f = w.dir + "/t.tbl"; write_file(f, text);
        RSeq q = {{R_UTF8, &t, 0, f, true}};
        Inline I; I.conf = conf_seq("q", q);
        check_lines(w, "table file " + qs(text), I, q, code_lines());
    });
    family("inline, utf_8: all files of 3 rows that share places", 7 * 7 * 7, [=](Worker &w, uint64_t i) {
        static const V<unsigned> K = {65, 565, 1065, 66, 566, 500, 1000};
        S text = "start\n" + std::to_string(K[i % 7]) + " a\n" + std::to_string(K[i / 7 % 7]) + " 'b'\n" + std::to_string(K[i / 49]) + " \"c\"\n";
        RTable t = read_table(text);
        S f = w.dir + "/t.tbl"; write_file(f, text);
        RSeq q = {{R_UTF8, &t, 0, f, true}};
        Inline I; I.conf = conf_seq("q", q);
        V<S> ls; for (unsigned k : K) ls.push_back(enc(k, enc_min(k)) + "~");
        check_lines(w, "table file " + qs(text), I, q, ls);
    });
    family("inline, safe: all blocks of 2 rows, with and without a default", k * k * 3, [=](Worker &w, uint64_t i) {
        const V<S> &L = table_lines();
        S text = S(i % 3 == 0 ? "" : i % 3 == 1 ? "default _\n" : "default ''\n") + "start\n" + L[i / 3 % k] + "\n" + L[i / 3 / k] + "\nend\n";
        RTable t = read_table(text);
        S f = w.dir + "/t.tbl"; write_file(f, text);
        RSeq q = {{R_SAFE, &t, 0, f, true}};
        Inline I; I.conf = conf_seq("q", q);
        check_lines(w, "table file " + qs(text), I, q, {"ABC", "a", "\xe9", "A A", "-e) B"});
    });
    // lines of every length: what looks like a line of its own in the middle of a long one is none
    static const V<S> heads = {"#", "# 0x42 x", "0x41 a ", "0x41", "0x41 'a", "0x41 ", "word ", ""};
    static const V<S> pads = {" ", "x", "\t", "# "};
    static const V<S> tails = {"0x43 bad", "end", "start", "default bad", "#", "'", "good", "0x41 b # c"};
    static V<int> lens; lens.clear();
    for (int n = 1; n < (O.thorough ? 1100 : 40); n++) lens.push_back(n);
    for (int b : {128, 256, 512, 1000, 1024, 2000, 2048, 3072, 4096, 8192, 65536}) for (int d = O.thorough ? -12 : -3; d <= (O.thorough ? 12 : 3); d++) lens.push_back(b + d);
    family("inline: long lines, every head, filling and tail", lens.size() * 4 * 8 * 2, [](Worker &w, uint64_t i) {
        int n = lens[i % lens.size()]; i /= lens.size();
        const S &p = pads[i % 4], &ta = tails[i / 4 % 8]; bool in = i / 32;
        S text = in ? "start\n0x42 two\n" : "";
        for (auto &h : heads) {
            S l = h; while ((int)l.size() < n) l += p;
            l.resize(std::max<size_t>(h.size(), n)); l += ta;
            if (h == "0x41" && p[0] != ' ' && p[0] != '\t') continue;                         // no code
            if (ta == "'" && h[0] == '0' && h != "0x41 'a") continue;
            if (h == "0x41 'a" && std::count(l.begin(), l.end(), '\'') < 2) continue;         // never closed
            text += l + "\n";
        }
        text += S(in ? "" : "start\n") + "0x44 four\nend\ndefault -\n";
        RTable t = read_table(text);
        S f = w.dir + "/t.tbl"; write_file(f, text);
        RSeq q = {{R_UTF8, &t, 0, f, true}};
        Inline I; I.conf = conf_seq("q", q);
        check_lines(w, "table file " + qs(text), I, q, {"A", "B", "C", "D", "ABCDz"});
    });
    // a table that comes through a pipe, in pieces
    static const V<S> TP = {"# first\ndefault d\nstart\n0x41 a1\n66 \"b 2\"\n0103 'c3'\nend\n", "start\n" + [] { S x; for (int k = 0; k < 70; k++) x += std::to_string(k * 7 % 70 + 60) + "\tr" + std::to_string(k) + "\n"; return x; }() + "end\ndefault " + S(1100, 'D')};
    static const V<V<V<S>>> TC = [] { V<V<V<S>>> v; for (auto &s : TP) v.push_back(cuts(s)); return v; }();
    for (size_t t = 0; t < TP.size(); t++)
        family("a table that comes through a pipe in pieces: " + std::to_string(TP[t].size()) + " bytes", TC[t].size(), [=](Worker &w, uint64_t i) {
            RTable tb = read_table(TP[t]); RSeq q = {{R_UTF8, &tb, 0, "/dev/stdin", true}};
            V<S> ls = {"A", "BC", "ABCDEz", "\xc3\xa9", "c d"}; S in, want; for (auto &l : ls) in += l + "\n", want += ref_line(q, l) + "\n";
            Ev e(w, "table in pieces"); wipe(w.tree); write_file(w.tree + "/in", in); write_file(w.dir + "/conf", conf_seq("q", q));
            Scn sc; sc.raw = {"inline-detox", "-f", w.dir + "/conf", "-s", "q", "in"}; Run r = run_of(w, sc); r.pieces = TC[t][i]; Result R = w.run(r);
            if (R.signaled || R.status || R.out != want) e.fail(qs(TP[t].substr(0, 200)) + " through a pipe, " + cut_text(r.pieces), "gave " + qs(R.out) + "\nexpected " + qs(want) + "\nstatus " + std::to_string(R.status) + ", reported " + qs(R.err.substr(0, 800)));
            else e.same(in, R.out, want);
        });
});
// ---------------------------------------------------------------- T03
static Reg t03("T03", [] {
    rule_add("blocks for every locale as the table of a filter of inline-detox");
    static V<S> locs = {"C", "C.utf8", "de_DE.utf8", "en_US.utf8"}; static size_t system_locs = locs.size();
    if (!O.locpath.empty()) for (const char *l : {"de_DE.ISO-8859-1", "tr_TR.ISO-8859-9", "tr_TR.UTF-8", "ja_JP.EUC-JP"}) locs.push_back(l);
    static const V<S> langs = {"", "de", "DE", "'tr'", "TR_tr", "en", "C", "de_DE.utf8x", "d"};
    uint64_t k = langs.size();
    family("inline: blocks in every locale", locs.size() * k * k * 2, [=](Worker &w, uint64_t i) {
        const S &l = locs[i / 2 % locs.size()]; uint64_t a = i / 2 / locs.size();
        bool sys = i / 2 % locs.size() < system_locs;
        if (!sys) setenv("LOCPATH", O.locpath.c_str(), 1); else unsetenv("LOCPATH");
        if (!setlocale(LC_CTYPE, l.c_str())) return;
        setlocale(LC_CTYPE, "C");
        S text = "start " + langs[a % k] + "\n0x41 one\n0x42 two\nend\nstart " + langs[a / k] + "\n0x41 three\n0x43 four\nend\n";
        RTable t = read_table(text, l);
        S f = w.dir + "/t.tbl"; write_file(f, text);
        RSeq q = {{i % 2 ? R_SAFE : R_UTF8, &t, 0, f, true}};
        Inline I; I.conf = conf_seq("q", q); I.env = {{i % 2 ? "LC_ALL" : "LANG", l}};
        if (!sys) I.env.push_back({"LOCPATH", O.locpath});
        check_lines(w, "locale " + l + ", table file " + qs(text), I, q, {"A", "ABC", "x"});
    });
});
// ---------------------------------------------------------------- T04
static Reg t04("T04", [] {
    rule_add("every code as a line through inline-detox with the builtin table and with the file shipped");
    static const char *n[] = {"safe", "iso8859_1", "cp1252", "unicode"};
    static V<S> texts;
    for (auto *x : n) texts.push_back(read_file(O.repo + "/table/" + x + ".tbl"));
    const RTable *g[] = {&golden().safe, &golden().iso, &golden().cp1252, &golden().unicode};
    static const RTable *gs[4]; for (int i = 0; i < 4; i++) gs[i] = g[i];
    const unsigned PER = 0x2000, TOP = 0x112000;
    family("inline: every code through utf_8 with every table", TOP / PER * 8, [=](Worker &w, uint64_t i) {
        int t = i % 4; bool file = i / 4 % 2; unsigned from = i / 8 * PER;
        if (t != 3 && from > 0x10000 && !O.thorough) return;
        RFilter f = {R_UTF8, gs[t], 0, n[t]};
        if (file) { f.tname = w.dir + "/t.tbl"; f.tfile = true; write_file(f.tname, texts[t]); }
        V<S> ls; for (unsigned c = from; c < from + PER; c++) if (c > 0 && c != '\n' && c != '.') ls.push_back(enc(c, enc_min(c)));
        Inline I; I.conf = conf_seq("q", {f}); I.timeout = 60;
        check_lines(w, S(file ? "shipped " : "builtin ") + n[t], I, {f}, ls);
    });
    family("inline: every byte through safe and iso8859_1 with every table", 16, [=](Worker &w, uint64_t i) {
        int t = i % 4; bool file = i / 4 % 2;
        RFilter f = {i / 8 ? R_ISO : R_SAFE, gs[t], 0, n[t]};
        if (file) { f.tname = w.dir + "/t.tbl"; f.tfile = true; write_file(f.tname, texts[t]); }
        V<S> ls; for (int c = 1; c < 256; c++) if (c != '\n' && c != '.') ls.push_back(S(1, (char)c));
        Inline I; I.conf = conf_seq("q", {f});
        check_lines(w, S(file ? "shipped " : "builtin ") + n[t], I, {f}, ls);
    });
});
// ---------------------------------------------------------------- T05
static const V<S> PLACES = {"/opt/dtx/share/detox", "/usr/share/detox", "/usr/local/share/detox"};
static const V<S> TNAMES = {"safe", "iso8859_1", "unicode", "cp1252"};
static void clear_root(Worker &w) { wipe(w.root); for (auto &p : PLACES) mkdirs(w.root + p); }
// tables that say where they were found
static RTable place_table(const S &where, bool def) { RTable t; t.rows['a'] = where; t.rows[0xe9] = where; t.rows[0x20ac] = "<" + where + ">"; if (def) t.def = "-" + where; return t; }
static const V<S> T05_LINES = {"a", "abc", "\xe9", "\xc3\xa9", "\xe2\x82\xac", " &", "\x80 x", "~"};
static RTable &builtin_no(int i) { static RTable t[4] = {golden().safe, golden().iso, golden().unicode, golden().cp1252}; return t[i]; }
struct TSpec { char kind; int no; };        // n: none named, b: builtin, f: file, m: missing file, u: unknown builtin, x: file that cannot be used, d: in a missing directory
static Reg t05("T05", [] {
    RULE = "every subset of the three places for every subset of the tables, for every filter with every way to name a table; the result tells which table was used; every way to name a table that cannot be used, at every position of a sequence, must end detox with an error and leave the tree as it is";
    EXHAUSTIVE = true;
    static const RKind kinds[] = {R_SAFE, R_ISO, R_UTF8};
    // which of the places have the filter's table; others have tables of other filters
    family("every combination of places, filter and table name", 3 * 8 * 8 * 7 * 2, [=](Worker &w, uint64_t i0) {
        uint64_t i = i0;
        int k = i % 3; i /= 3; int own = i % 8; i /= 8; int other = i % 8; i /= 8; int spec = i % 7; i /= 7; bool def = i;
        clear_root(w);
        static thread_local RTable used, pt[3]; 
        for (int p = 0; p < 3; p++) {
            pt[p] = place_table("P" + std::to_string(p), def);
            if (own >> p & 1) write_file(w.root + PLACES[p] + "/" + TNAMES[k] + ".tbl", table_text(pt[p]));
            for (int o = 0; o < 4; o++) if (o != k && (other >> p & 1)) write_file(w.root + PLACES[p] + "/" + TNAMES[o] + ".tbl", table_text(place_table("wrong" + std::to_string(o), def)));
        }
        RFilter f = {kinds[k]};
        if (spec < 4) { f.t = &builtin_no(spec); f.tname = TNAMES[spec]; }
        else if (spec == 4) {
            f.tname = "";
            f.t = &builtin_no(k);
            for (int p = 2; p >= 0; p--) if (own >> p & 1) f.t = &pt[p];
        } else {
            used = place_table("user", def);
            f.tname = w.dir + (spec == 5 ? "/user.tbl" : "/" + TNAMES[k] + ".tbl"); f.tfile = true; f.t = &used;
            write_file(f.tname, table_text(used));
        }
        Inline I; I.conf = conf_seq("q", {f});
        if (i0 % 499 == 3) sample(I.conf + "places " + std::to_string(own) + " other tables " + std::to_string(other));
        check_lines(w, "places with the table: " + std::to_string(own) + ", with other tables: " + std::to_string(other), I, {f}, T05_LINES);
    });
    // sequences of two filters, each with its own table
    family("two filters, every two table names", 9 * 7 * 7 * 8, [=](Worker &w, uint64_t i) {
        int k[2] = {(int)(i % 3), (int)(i / 3 % 3)}, sp[2] = {(int)(i / 9 % 7), (int)(i / 63 % 7)}; int own = i / 441;
        clear_root(w);
        static thread_local RTable pt[3][3], us[2];
        for (int p = 0; p < 3; p++) for (int t = 0; t < 3; t++) {
            pt[p][t] = place_table("P" + std::to_string(p) + "aT" + std::to_string(t), false);
            if (own >> p & 1) write_file(w.root + PLACES[p] + "/" + TNAMES[t] + ".tbl", table_text(pt[p][t]));
        }
        RSeq q;
        for (int j = 0; j < 2; j++) {
            RFilter f = {kinds[k[j]]};
            if (sp[j] < 4) { f.t = &builtin_no(sp[j]); f.tname = TNAMES[sp[j]]; }
            else if (sp[j] == 4) { f.t = &builtin_no(k[j]); for (int p = 2; p >= 0; p--) if (own >> p & 1) f.t = &pt[p][k[j]]; }
            else { us[j] = place_table("u" + std::to_string(j) + "a", false); f.tname = w.dir + "/user" + std::to_string(sp[j] == 5 ? j : 7) + ".tbl"; f.tfile = true;
                if (sp[j] == 6) us[j] = place_table("shared a", false);
                f.t = &us[j]; write_file(f.tname, table_text(us[j])); }
            q.push_back(f);
        }
        Inline I; I.conf = conf_seq("q", q);
        check_lines(w, "two filters, places with all tables: " + std::to_string(own), I, q, T05_LINES);
    });
    // tables whose names begin, end or look alike
    static const V<S> alike = {"t", "ta", "tab", "at", "T", "t.tbl", "d/t", "./t", "t t", "safe.tbl", "safe", "d/safe.tbl"};
    uint64_t na = alike.size();
    family("several filters, tables with names alike", na * na * 9 + na * na * na * 3, [=](Worker &w, uint64_t i0) {
        uint64_t i = i0; V<int> n; V<RKind> k;
        if (i < na * na * 9) { n = {(int)(i % na), (int)(i / na % na)}; i /= na * na; k = {kinds[i % 3], kinds[i / 3]}; }
        else { i -= na * na * 9; n = {(int)(i % na), (int)(i / na % na), (int)(i / na / na % na)}; i /= na * na * na; k = {kinds[i], kinds[i], kinds[i]}; }
        clear_root(w); wipe(w.tree); mkdirs(w.tree + "/d");
        static thread_local V<RTable> us; us.clear();
        for (uint64_t j = 0; j < na; j++) us.push_back(place_table("n" + std::to_string(alike[j] == "./t" ? 0 : j) + "a", false));
        RSeq q;
        for (size_t j = 0; j < n.size(); j++) { write_file(w.tree + "/" + alike[n[j]], table_text(us[n[j]])); RFilter f = {k[j]}; f.tname = alike[n[j]]; f.tfile = true; f.t = &us[n[j]]; q.push_back(f); if (i0 % 2) { RFilter g = {R_WIPEUP}; q.push_back(g); } }
        Inline I; I.conf = conf_seq("q", q);
        check_lines(w, "tables with names alike", I, q, T05_LINES);
    });
    // paths of every length
    family("table paths of every length", (O.thorough ? 4090 : 1100) * 3, [=](Worker &w, uint64_t i) {
        int k = i % 3; size_t L = i / 3;
        clear_root(w);
        S d = w.dir + "/deep"; wipe(d);
        if (L < d.size() + 2) return;
        while (L > d.size()) { size_t c = std::min<size_t>(L - d.size() - 1, 250); if (L - d.size() - 1 - c == 1) c--; d += "/" + S(c, 'p'); }
        static thread_local RTable u; u = place_table("user", false);
        mkdirs(d.substr(0, d.rfind('/'))); write_file(d, table_text(u)); if (d.size() - d.rfind('/') < 250) write_file(d + "q", table_text(place_table("wrong", false)));
        RFilter f = {kinds[k]}; f.tname = d; f.tfile = true; f.t = &u;
        Inline I; I.conf = conf_seq("q", {f});
        check_lines(w, "a table with a path of " + std::to_string(L) + " bytes", I, {f}, T05_LINES);
        d = w.dir + "/deep"; wipe(d);
    });
    family("table paths of every content", odd_names().size() * 3, [=](Worker &w, uint64_t i) {
        const S &x = odd_names()[i / 3]; int k = i % 3; if (x.find('"') != S::npos || x.find('\n') != S::npos || x == "." || x == "..") return;
        if (!O.thorough && (i / 3 + i) % 3 && x.size() > 4) return;
        clear_root(w);
        S d = w.dir + "/deep"; wipe(d); mkdirs(d);
        bool dir = i / 3 % 2; S p = dir ? d + "/" + x + "/t.tbl" : d + "/" + x;
        if (dir) mkdirs(d + "/" + x);
        static thread_local RTable u; u = place_table("user", false);
        write_file(p, table_text(u)); if (x.size() < 200) { write_file(d + "/" + x + "q", table_text(place_table("wrong", false))); if (x.size() > 1) { S y = x.substr(0, x.size() - 1); if (y != "." && y != "..") write_file(d + "/" + y, table_text(place_table("wrong", false))); } }
        RFilter f = {kinds[k]}; f.tname = p; f.tfile = true; f.t = &u;
        Inline I; I.conf = conf_seq("q", {f});
        check_lines(w, "a table with the path " + qs(p), I, {f}, T05_LINES);
        wipe(d);
    });
    family("every number of tables", O.thorough ? 200 : 80, [=](Worker &w, uint64_t i) {
        int n = i + 1; clear_root(w);
        static thread_local V<RTable> u; u.assign(n, {}); RSeq q;
        for (int j = 0; j < n; j++) {
            u[j].def = std::nullopt; u[j].rows.clear();
            u[j].rows[j % 2 ? 'b' : 'a'] = j % 2 ? "a" + std::to_string(j % 10) : "b";
            S p = w.dir + "/n" + std::to_string(j) + ".tbl"; write_file(p, table_text(u[j]));
            RFilter f = {R_SAFE}; f.tname = p; f.tfile = true; f.t = &u[j]; q.push_back(f);
        }
        Inline I; I.conf = conf_seq("q", q);
        check_lines(w, std::to_string(n) + " filters with a table each", I, q, {"a", "b", "xaxb", "zzz"});
    });
    // tables that cannot be used
    static const V<S> bad = {"builtin \"nothing\"", "builtin \"Safe\"", "builtin \"safe.tbl\"", "builtin \"\"", "builtin \"iso8859_1 \"", "filename \"@/missing.tbl\"", "filename \"@/no/such/dir/safe.tbl\"", "filename \"safe.tbl\"",
        "filename \"iso8859_1.tbl\"", "filename \"unicode.tbl\"", "filename \"safe\"", "filename \"\"", "filename \"@/zero.tbl\"", "filename \"@/secret.tbl\"", "filename \"@/good.tbl/x\"", "builtin \"unicode\"; filename \"@/missing.tbl\"", "filename \"@/dir.tbl\"", "filename \"@\""};
    static const V<S> around = {"safe;", "lower;", "uncgi;", "wipeup;", "utf_8;"};
    family("a table that cannot be used", 3 * 3 * 18 * 5 * 2 * 3, [=](Worker &w, uint64_t i0) {
        uint64_t i = i0;
        int k = i % 3; i /= 3; int pos = i % 3; i /= 3; S b = bad[i % 18]; i /= 18; S ar = around[i % 5]; i /= 5; bool places = i % 2; i /= 2; int mode = i;
        clear_root(w);
        if (places) for (auto &p : PLACES) for (auto &t : TNAMES) write_file(w.root + p + "/" + t + ".tbl", table_text(place_table("P", false)));
        write_file(w.dir + "/zero.tbl", "start\n0 x\nend\n");
        write_file(w.dir + "/good.tbl", "start\n0x41 x\nend\n");
        mkdirs(w.dir + "/dir.tbl");
        write_file(w.dir + "/secret.tbl", "start\n0x41 x\nend\n"); chmod((w.dir + "/secret.tbl").c_str(), 0);
        for (size_t p; (p = b.find('@')) != S::npos;) b.replace(p, 1, w.dir);
        S mine = S((const char *[]){"safe", "iso8859_1", "utf_8"}[k]) + " { " + b + "; };";
        Scn s;
        s.conf = "sequence other { safe; };\nsequence q { " + (pos == 0 ? mine + ar + ar : pos == 1 ? ar + mine + ar : ar + ar + mine) + " };\n";
        s.seq = "q"; s.order = ORDER_SORTED; s.flags = {"-r"};
        static const RSeq none; s.rseq = &none;
        s.world = {{"a b", 'f', "1"}, {"D D", 'd', ""}, {"D D/c&d", 'f', "2"}};
        if (mode == 1) s.argv0 = {"detox", "--inline"};
        if (mode == 2) s.argv0 = {"inline-detox"};
        if (mode) s.args = {"a b"};
        if (i0 % 499 == 3) sample(s.conf);
        explore_scn(w, s, nullptr, [&](Ctx &c) -> S {
            if (c.R->signaled) return "ended by a signal";
            if (!(c.a == c.b)) return "the tree was changed although a table cannot be used";
            if (c.R->status == 0) return "ended with status 0 although a table cannot be used";
            if (c.R->err.empty()) return "no error was reported";
            if (!c.R->out.empty()) return "something was written although a table cannot be used";
            return "";
        });
        chmod((w.dir + "/secret.tbl").c_str(), 0600);
    });
    family("builtin names of every length", 300 * 3 * 2, [=](Worker &w, uint64_t i) {
        static const S real[] = {"safe", "iso8859_1", "unicode"}; int k = i % 3; bool pre = i / 3 % 2; int L = i / 6 + 1;
        clear_root(w);
        S n; if (pre) { n = real[k]; while ((int)n.size() < L) n += n.size() % 2 ? "_" : "x"; n.resize(L); if (n == real[k]) return; } else for (int j = 0; j < L; j++) n += "nothing_of_the_kind"[j % 19];
        Scn s; s.conf = "sequence q { " + S((const char *[]){"safe", "iso8859_1", "utf_8"}[k]) + " { builtin \"" + n + "\"; }; };\n"; s.seq = "q"; s.order = ORDER_SORTED;
        static const RSeq none; s.rseq = &none; s.world = {{"a b", 'f', "1"}};
        explore_scn(w, s, nullptr, [&](Ctx &c) -> S {
            if (c.R->signaled) return "ended by a signal";
            if (!(c.a == c.b)) return "the tree was changed although a table cannot be used";
            if (c.R->status == 0 || c.R->err.empty()) return "a table that does not exist was not reported";
            return "";
        });
    });
    // ... in a sequence that is not used
    family("a table that cannot be used, in another sequence", 3 * 18 * 2, [=](Worker &w, uint64_t i) {
        S b = bad[i / 3 % 18]; clear_root(w);
        if (b.find("; filename") != S::npos) return;       // not in the grammar
        for (size_t p; (p = b.find('@')) != S::npos;) b.replace(p, 1, w.dir);
        S o = "sequence other { " + S((const char *[]){"safe", "iso8859_1", "utf_8"}[i % 3]) + " { " + b + "; }; };\n";
        RSeq q = {rf_safe(), rf_wipe(true)};
        Inline I; I.conf = i / 54 ? o + conf_seq("q", q) : conf_seq("q", q) + o;
        check_lines(w, "another sequence has a table that cannot be used", I, q, T05_LINES);
    });
    // without a configuration the tables are builtin
    family("the configuration that is built in does not look for tables", 8 * 11, [=](Worker &w, uint64_t i) {
        clear_root(w);
        for (int p = 0; p < 3; p++) for (auto &t : TNAMES) if (i % 8 >> p & 1) write_file(w.root + PLACES[p] + "/" + t + ".tbl", table_text(place_table("P" + std::to_string(p), false)));
        const Stock &st = stock()[i / 8 % stock().size()];
        Inline I; I.seq = st.name;
        RSeq q = st.seq;
        check_lines(w, S("stock sequence ") + st.name, I, q, T05_LINES);
    });
});
