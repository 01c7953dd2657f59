// The helper programs: escape-utf-8, generate-builtin-table, check-table, built from their sources and run as they are.
#include "inline.hpp"
#include "tables.hpp"

static Run tool_run(const S &prog, const V<S> &args, const S &in = "")
{
    Run r; r.exec = O.tools + "/" + prog; r.argv = {prog}; r.argv.insert(r.argv.end(), args.begin(), args.end());
    r.env = {{"ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:handle_abort=0"}, {"LC_ALL", "C"}};
    r.stdin_data = in; r.timeout = 60;
    return r;
}
static S broken(const Result &R) { return R.signaled || R.status || R.err.find("Sanitizer") != S::npos || R.err.find("runtime error") != S::npos ? "did not end normally" : ""; }

// ---------------------------------------------------------------- D01
static S ref_escape(const S &line)
{
    S r; char b[16];
    for (size_t i = 0; i < line.size();) {
        unsigned char c = line[i]; unsigned v; int w;
        if (c < 0x80) { v = c; w = 1; }
        else if (c < 0xc0 || c >= 0xfe) { r += '_'; i++; continue; }
        else { w = c < 0xe0 ? 2 : c < 0xf0 ? 3 : c < 0xf8 ? 4 : c < 0xfc ? 5 : 6; v = c & (0x7f >> w); }
        size_t j = i + 1; int need = w - 1;
        while (need && j < line.size() && ((unsigned char)line[j] & 0xc0) == 0x80) { v = v << 6 | (line[j] & 0x3f); j++; need--; }
        i = j;
        if (need) { r += '_'; continue; }
        if (v == 0) r += "_hidden_null_";
        else if (v > 0x10ffff) r += '_';
        else if (v == '"' || v == '\'' || v == '?' || v == '\\') { r += '\\'; r += (char)v; }
        else if (v >= 7 && v <= 13) { r += '\\'; r += "abtnvfr"[v - 7]; }
        else if (v < 0x20 || v == 0x7f) { snprintf(b, sizeof b, "\\x%02x", v); r += b; }
        else if (v < 0x7f) r += (char)v;
        else { snprintf(b, sizeof b, v < 0x10000 ? "\\u%04X" : "\\U%08X", v); r += b; }
    }
    return r;
}
// what the escapes mean, read with the widths the program writes
static bool unescape(const S &s, V<unsigned> &out)
{
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i++];
        if (c < 0x20 || c > 0x7e || c == '"' || c == '\'' || c == '?') return false;
        if (c != '\\') { out.push_back(c); continue; }
        if (i >= s.size()) return false;
        c = s[i++];
        static const char *simple = "abtnvfr";
        if (strchr("\"'?\\", c)) { out.push_back(c); continue; }
        if (const char *p = strchr(simple, c)) { out.push_back(7 + (p - simple)); continue; }
        size_t n = c == 'x' ? 2 : c == 'u' ? 4 : c == 'U' ? 8 : 0;
        if (!n || i + n > s.size()) return false;
        unsigned v = 0;
        for (size_t k = 0; k < n; k++) { if (!isxdigit((unsigned char)s[i])) return false; v = v * 16 + (isdigit((unsigned char)s[i]) ? s[i] - '0' : tolower(s[i]) - 'a' + 10); i++; }
        out.push_back(v);
    }
    return true;
}
static void escape_check(Worker &w, const V<S> &lines, bool last_newline = true)
{
    S data, want;
    for (size_t i = 0; i < lines.size(); i++) { bool nl = last_newline || i + 1 < lines.size(); data += lines[i]; want += ref_escape(lines[i]); if (nl) { data += "\n"; want += "\n"; } }
    Result R = w.run(tool_run("escape_utf_8", {}, data));
    Ev e(w, "escape-utf-8");
    if (R.out != want) {
        auto a = lines_of(R.out), b = lines_of(want);
        size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
        e.fail(i < lines.size() ? lines[i] : S("(end)"), "line " + std::to_string(i) + ": gave " + (i < a.size() ? qs(a[i].substr(0, 500)) : S("nothing")) + "\nexpected " + (i < b.size() ? qs(b[i].substr(0, 500)) : S("nothing")) + "\nstatus " + std::to_string(R.status) + "\nstderr: " + qs(R.err.substr(0, 500)));
        return;
    }
    if (!broken(R).empty()) { e.fail(lines.empty() ? "" : lines[0], broken(R) + how(R)); return; }
    auto out = lines_of(R.out);
    for (size_t i = 0; i < out.size() && i < lines.size(); i++) {
        V<unsigned> v; S back;
        bool ok = unescape(out[i], v);
        for (unsigned c : v) back += enc(c, enc_min(c));
        // what is not well-formed comes out replaced
        if (!ok || (utf8_ok(lines[i]) && back != lines[i])) { e.fail(lines[i], "gave " + qs(out[i]) + ", which does not stand for it"); return; }
        e.same(lines[i], out[i], ref_escape(lines[i]));
    }
}
static Reg d01("D01", [] {
    RULE = "every code point in its encodings, every word of two bytes, words over all byte classes, in lines of one run of the real program; against a model, and read back as escapes";
    EXHAUSTIVE = true;
    family("every code point", 0x110000 / 0x4000, [](Worker &w, uint64_t i) {
        V<S> ls;
        for (uint32_t v = i * 0x4000; v < (i + 1) * 0x4000; v += 8) { S l; for (uint32_t c = v; c < v + 8; c++) if (c && c != '\n') l += enc(c, enc_min(c)) + (c % 2 ? "a" : "1"); ls.push_back(l); }
        if (i % 9 == 0) sample(qs(ls[5]));
        escape_check(w, ls);
    });
    // looking for a code that is in no row is slow
    family("code points beyond the last", 40, [](Worker &w, uint64_t i) {
        V<S> ls; for (uint32_t k = 0; k < 16; k++) { uint32_t v = i < 21 ? (0x110000u << 0) + (1u << i) - 1 + k : i < 31 ? (1u << i) - 8 + k : 0x7fffffffu - k * (1u << (i - 31)); if (v >= 0x110000 && v < 0x80000000u) ls.push_back("<" + enc(v, enc_min(v)) + ">"); }
        if (!ls.empty()) escape_check(w, ls);
    });
    family("every code point to 0xffff in too many bytes", 16 * 4, [](Worker &w, uint64_t i) {
        V<S> ls;
        for (uint32_t v = i / 4 * 4096; v < (i / 4 + 1) * 4096; v++) { int n = enc_min(v) + 1 + i % 4; if (n <= 6) ls.push_back("<" + enc(v, n) + ">"); }
        if (!ls.empty()) escape_check(w, ls);
    });
    auto words = [](const S &name, const Words &W, uint64_t per) {
        family(name, (W.count() + per - 1) / per, [=](Worker &w, uint64_t i) {
            V<S> ls; for (uint64_t k = i * per; k < W.count() && k < (i + 1) * per; k++) ls.push_back(W.at(k));
            escape_check(w, ls, i % 2);
        });
    };
    words("all words of at most 2 bytes", Words(bytes_al(1, 255, false), 2), 8000);
    words("all words of at most 3 of 29 classes", Words(chars("\x01\x22\x41\x5c\x7f\x80\x8d\x9f\xa0\xbf\xc0\xc1\xc2\xc3\xdf\xe0\xe2\xed\xef\xf0\xf4\xf5\xf7\xf8\xfb\xfc\xfd\xfe\xff"), O.thorough ? 4 : 3), O.thorough ? 40000 : 8000);
    family("lines of every length", 40, [](Worker &w, uint64_t i) {
        V<S> ls; static const char *u[] = {"a", "\xc3\xa9", "\\", "\xe2\x82\xac"};
        for (size_t n = i / 4 * 300; n < i / 4 * 300 + 300; n += 1) { S l; while (l.size() < n) l += u[i % 4]; ls.push_back(l); }
        escape_check(w, ls, i % 3);
    });
    family("few lines", 86, [](Worker &w, uint64_t i) {
        static const V<S> al = {"", ".", "..", "a\"b", "\xe9", "\t"};
        V<S> ls; uint64_t k = i / 2; int n = 0; for (uint64_t c = 1; k >= c && n < 3; c *= al.size()) { k -= c; n++; }
        for (int j = 0; j < n; j++) { ls.push_back(al[k % al.size()]); k /= al.size(); }
        if (ls.empty() || (i % 2 && ls.back().empty())) return;
        escape_check(w, ls, i % 2 == 0);
    });
});

// ---------------------------------------------------------------- D02
// tables to generate from: text and what it means
struct GT { S text; RTable t; };
static S c_lit(const S &s) { S r = "\""; char b[8]; for (unsigned char c : s) { snprintf(b, sizeof b, "\\%03o", c); r += b; } return r + "\""; }
// generates, compiles and runs the tables together
static void generate_check(Worker &w, const V<GT> &ts, const V<unsigned> &codes)
{
    Ev e(w, "generate-builtin-table");
    S all = "#include <stdio.h>\n#include <string.h>\n#include \"config.h\"\n#include \"table.h\"\n#define CK(c, ...) do { if (!(c)) { printf(__VA_ARGS__); return 0; } } while (0)\n", body;
    for (size_t k = 0; k < ts.size(); k++) {
        S f = w.dir + "/g.tbl"; write_file(f, ts[k].text);
        Result R = w.run(tool_run("generate_builtin_table", {f}));
        if (!broken(R).empty() || R.out.empty()) { e.fail(ts[k].text, broken(R) + how(R)); return; }
        // rows come in ascending order, once each
        V<unsigned> keys;
        for (auto &l : lines_of(R.out)) { size_t p = l.find(".key  = 0x"); if (p == S::npos) p = l.find(".key = 0x"); if (p != S::npos) keys.push_back(strtoul(l.c_str() + l.find("0x", p), nullptr, 16)); }
        for (size_t i = 1; i < keys.size(); i++) if (keys[i] <= keys[i - 1]) { e.fail(ts[k].text, "the rows are not in ascending order" + how(R)); return; }
        S id = "T" + std::to_string(k), out = R.out;
        for (const char *pat : {"builtin_NEW_"}) for (size_t p = 0; (p = out.find(pat, p)) != S::npos; p += 8) out.replace(p + 8, 3, id);
        // rows are not to be changed by this
        all += out;
        body += "static int chk_" + id + "(void) { table_t *t = load_builtin_" + id + "_table(); char *r;\n";
        std::set<unsigned> cs(codes.begin(), codes.end());
        for (auto &r : ts[k].t.rows) { cs.insert(r.first); cs.insert(r.first + 1); }
        for (unsigned c : cs) {
            auto it = ts[k].t.rows.find(c);
            S n = std::to_string(c);
            if (it == ts[k].t.rows.end()) body += "r = table_get(t, " + n + "); CK(r == NULL, \"" + id + ": code " + n + " gives <%s>, and is not in the file\\n\", r);\n";
            else body += "r = table_get(t, " + n + "); CK(r != NULL && !strcmp(r, " + c_lit(it->second) + "), \"" + id + ": code " + n + " gives <%s>\\n\", r ? r : \"nothing\");\n";
        }
        if (ts[k].t.def) body += "CK(t->default_translation && !strcmp(t->default_translation, " + c_lit(*ts[k].t.def) + "), \"" + id + ": default\\n\");\n";
        else body += "CK(!t->default_translation, \"" + id + ": default\\n\");\n";
        body += "return 0; }\n";
    }
    all += body + "int main(void) {\n";
    for (size_t k = 0; k < ts.size(); k++) all += "chk_T" + std::to_string(k) + "();\n";
    all += "puts(\"end\"); return 0; }\n";
    write_file(w.dir + "/g.c", all);
    S src = O.tools + "/src";
    S cmd = "cd '" + w.dir + "' && gcc -w -O0 -DHAVE_CONFIG_H -I '" + src + "' -o g.bin g.c '" + src + "/table.c' '" + src + "/wrapped.c' -lm > g.log 2>&1 && ./g.bin > g.out 2>&1; echo $? >> g.log";
    int rc = system(cmd.c_str()); (void)rc;
    S log = read_file(w.dir + "/g.log"), out = read_file(w.dir + "/g.out");
    unlink((w.dir + "/g.bin").c_str()); unlink((w.dir + "/g.out").c_str());
    if (log != "0\n") {
        // which one: compile them alone
        if (ts.size() > 1) { size_t h = ts.size() / 2; generate_check(w, V<GT>(ts.begin(), ts.begin() + h), codes); if (!G->nviol) generate_check(w, V<GT>(ts.begin() + h, ts.end()), codes); if (G->nviol) return; }
        e.fail(ts[0].text, "what is generated does not compile or run: " + log.substr(0, 1500)); return;
    }
    for (auto &l : lines_of(out)) if (l != "end") { size_t k = l[0] == 'T' ? atoi(l.c_str() + 1) : 0; e.fail(k < ts.size() ? ts[k].text : ts[0].text, "the table generated differs from the file: " + l); return; }
    if (lines_of(out).empty()) { e.fail(ts[0].text, "the program with the tables gave no answer"); return; }
    for (auto &t : ts) e.same(t.text, t.text, t.text);
}
static Reg d02("D02", [] {
    RULE = "table files over every kind of line, every byte and every pair of characters that C treats specially in replacements and defaults, regular fillings of every size, and the released tables, generated by the real program, compiled, and every code looked up with the project's table; against a reader of table files written from the manual";
    EXHAUSTIVE = true;
    auto fam = [](const S &name, uint64_t n, uint64_t per, const std::function<bool(uint64_t, S &)> &text) {
        family(name, (n + per - 1) / per, [=](Worker &w, uint64_t i) {
            V<GT> ts;
            for (uint64_t k = i * per; k < n && k < (i + 1) * per; k++) { GT g; if (!text(k, g.text)) continue; g.t = read_table(g.text); ts.push_back(g); }
            if (ts.empty()) return;
            if (i % 11 == 0) sample(qs(ts[ts.size() / 2].text.substr(0, 300)));
            generate_check(w, ts, table_codes());
        });
    };
    static const V<S> al = table_lines();
    uint64_t n2 = nwords(al.size(), 1) + nwords(al.size(), 2) + (O.thorough ? nwords(al.size(), 3) : 0);
    fam("all files of a few lines in a block", n2, 60, [](uint64_t k, S &t) {
        int len = 1; for (uint64_t c = al.size(); k >= c; c *= al.size()) { k -= c; len++; }
        t = "start\n"; for (int j = 0; j < len; j++) { t += al[k % al.size()] + "\n"; k /= al.size(); }
        t += "end\n";
        return true;
    });
    static V<S> spec = chars("\"'\\?=%n0x/*#{u\xc3\xa9\x01\x7f ");
    static Words W(spec, O.thorough ? 4 : 3);
    auto val = [](const S &v, S &q) {
        if (v.find("\\u") != S::npos || v.find("\\U") != S::npos) return false;     // left alone for C to read
        if (v.find('"') == S::npos) q = "\"" + v + "\""; else if (v.find('\'') == S::npos) q = "'" + v + "'"; else return false;
        return true;
    };
    // many replacements in a file
    static const uint64_t ROWS = 50;
    fam("every word of what C treats specially as a replacement", (W.count() + ROWS - 1) / ROWS, 4, [=](uint64_t k, S &t) {
        t = "start\n"; S q;
        for (uint64_t j = k * ROWS; j < W.count() && j < (k + 1) * ROWS; j++) if (val(W.at(j), q)) t += std::to_string(0x41 + j % ROWS) + " " + q + "\n";
        t += "end\n"; return true;
    });
    fam("every byte in a replacement", 255 * 3, 40, [=](uint64_t k, S &t) {
        unsigned char c = k % 255 + 1; S q, v = k / 255 == 0 ? S(1, (char)c) : k / 255 == 1 ? "1" + S(1, (char)c) + "f" : S(2, (char)c);
        if (c == '\n' || c == '\r' || !val(v, q)) return false;
        t = "start\n0x41 " + q + "\nend\n"; return true;
    });
    static Words WD(spec, 2);
    fam("every word of what C treats specially as the default", WD.count(), 60, [=](uint64_t k, S &t) {
        S q; if (!val(WD.at(k), q)) return false;
        t = "default " + q + "\nstart\n0x41 a\nend\n"; return true;
    });
    static const V<unsigned> sizes = {0, 1, 2, 127, 255, 499, 500, 501, 999, 1000, 1001, 1499, 1500, 1501};
    fam("fillings", sizes.size() * 5, 1, [](uint64_t k, S &t) {
        unsigned n = sizes[k / 5]; static const unsigned step[] = {1, 2, 37, 500, 1000};
        t = "start\n"; for (unsigned j = 1; j <= n; j++) { unsigned c = j * step[k % 5]; if (c < 0x110000) t += std::to_string(c) + " v" + std::to_string(j) + "\n"; }
        t += "end\n"; return true;
    });
    fam("codes at the ends", 24, 8, [](uint64_t k, S &t) {
        static const unsigned c[] = {1, 2, 0x7f, 0x80, 0xff, 0x100, 0xfff, 0x1000, 0xffff, 0x10000, 0x10fffe, 0x10ffff};
        t = "start\n" + std::to_string(c[k % 12]) + " a\n"; if (k >= 12) t += "1 b\n" + std::to_string(c[(k * 5) % 12]) + " c\n";
        t += "end\n"; return true;
    });
    static const V<S> rel = {"safe", "iso8859_1", "cp1252", "unicode"};
    fam("the released tables", rel.size(), 1, [](uint64_t k, S &t) { t = read_file(O.golden + "/" + rel[k] + ".tbl"); return true; });
    family("no table", 3, [](Worker &w, uint64_t i) {
        V<S> args; if (i) args.push_back(i == 1 ? w.dir + "/missing.tbl" : w.dir + "/missing/x.tbl");
        Result R = w.run(tool_run("generate_builtin_table", args));
        if (R.signaled || !R.status || R.err.empty() || !R.out.empty()) violation(w, "generate-builtin-table without a table: expected an error and no code" + how(R));
    });
});

// ---------------------------------------------------------------- D03
static void check_table_check(Worker &w, const S &text, const V<S> &opts, bool named = true)
{
    Ev e(w, "check-table " + joinargs(opts));
    // what the file says, in order
    RTable t = read_table(text, "no language");
    V<S> warn; std::set<unsigned> got; bool twice = false;
    { bool in = false; unsigned last = 0;
      for (auto &l : lines_of(text)) {
        if (!l.empty() && l[0] == '#') continue;
        size_t a = l.find_first_not_of(" \t\r\v\f"); if (a == S::npos) continue;
        size_t b = l.find_first_of(" \t\r\v\f", a); if (b == S::npos) b = l.size();
        S word = l.substr(a, b - a); bool more = l.find_first_not_of(" \t\r\v\f", b) != S::npos; unsigned c;
        if (!in && !strcasecmp(word.c_str(), "start")) { last = 0; if (!more) in = true; continue; }
        if (!in) continue;
        if (tbl_code(word, c)) {
            if (!more) continue;
            if (!got.insert(c).second) twice = true;
            char b2[100]; b2[0] = 0;
            if (c < last) snprintf(b2, sizeof b2, "0x%04X appears after 0x%04X", c, last); else if (c == last) snprintf(b2, sizeof b2, "0x%04X appears twice in a row", c);
            if (b2[0]) warn.push_back(b2);
            last = c;
        } else if (!strcasecmp(word.c_str(), "end")) in = false;
      } }
    bool b = false, d = false;
    for (auto &o : opts) { if (o.find('b') != S::npos) b = true; if (o.find('d') != S::npos) d = true; }
    if (b && twice) return;         // the second reading compares every row
    S f = w.dir + "/c.tbl"; write_file(f, text);
    V<S> args = opts; args.push_back(f);
    Result R = w.run(tool_run("check_table", args));
    if (!broken(R).empty() || !R.err.empty()) { e.fail(text, (broken(R).empty() ? "complained" : broken(R)) + how(R)); return; }
    V<S> gw; std::map<unsigned, S> rows; std::map<S, S> st; size_t nrows = 0;
    for (auto &l : lines_of(R.out)) {
        size_t p;
        if (starts(l, "warning - code ")) gw.push_back(l.substr(15));
        else if (starts(l, "index: ")) { if ((p = l.find("key: ")) != S::npos) { char *end; unsigned c = strtoul(l.c_str() + p + 5, &end, 16); nrows++; if (starts(end, ", data: ")) rows[c] = end + 8; } }
        else if ((p = l.find(": ")) != S::npos) st[l.substr(0, p)] = l.substr(p + 2);
    }
    if (gw != warn) { e.fail(text, "warned of other rows than are out of order, expected " + joinargs(warn) + how(R)); return; }
    if (d && (rows != t.rows || nrows != rows.size())) { e.fail(text, "lists other rows than there are" + how(R)); return; }
    if (st["used"] != std::to_string(t.rows.size())) { e.fail(text, "counts other rows than there are, expected " + std::to_string(t.rows.size()) + how(R)); return; }
    if (t.def && st["default translation"] != *t.def) { e.fail(text, "shows another default" + how(R)); return; }
    char mk[16]; snprintf(mk, sizeof mk, "0x%04x", t.rows.empty() ? 0 : t.rows.rbegin()->first);
    if (!t.rows.empty() && st["maximum key"] != mk) { e.fail(text, S("shows another maximum key, expected ") + mk + how(R)); return; }
    e.same(text, R.out, R.out);
}
static Reg d03("D03", [] {
    RULE = "table files over every kind of line, and regular fillings, through the real program with every set of its options; its warnings, rows and counts against a reader of table files written from the manual";
    EXHAUSTIVE = true;
    static const V<V<S>> opts = {{"-d"}, {"-b", "-d"}, {"-l", "-d"}, {"-bdl"}, {"-dv"}, {}};
    static V<S> al; if (al.empty()) for (auto &l : table_lines()) al.push_back(l);
    auto file = [](uint64_t k, int len) { S t = "start\n"; for (int j = 0; j < len; j++) { t += al[k % al.size()] + "\n"; k /= al.size(); } return t; };
    for (int len = 1; len <= (O.thorough ? 4 : 3); len++) {
        uint64_t no = len <= 2 ? opts.size() : 1, n = nwords(al.size(), len);
        family("all files of " + std::to_string(len) + " lines", n * no, [=](Worker &w, uint64_t i) {
            S t = file(i / no, len);
            if (i % 1999 == 7) sample(qs(t));
            check_table_check(w, t, no > 1 ? opts[i % no] : V<S>{"-d"});
        });
    }
    family("rows in every order", 5 * 5 * 5 * 5 * opts.size(), [=](Worker &w, uint64_t i) {
        static const unsigned c[] = {65, 66, 565, 566, 1065};
        uint64_t k = i / opts.size(); S t = "start\n"; for (int j = 0; j < 4; j++) { t += std::to_string(c[k % 5]) + " v" + std::to_string(j) + "\n"; k /= 5; }
        check_table_check(w, t + "end\n", opts[i % opts.size()]);
    });
    family("languages and several blocks", 64 * opts.size(), [=](Worker &w, uint64_t i) {
        uint64_t k = i / opts.size(); S t;
        for (int j = 0; j < 3; j++) { static const char *s[] = {"start\n", "start de\n", "start \"de_DE\"\n", "START\n"}; t += S(s[k % 4]) + std::to_string(70 - j) + " x\n" + std::to_string(80 + j) + " y\nend\n"; k /= 4; }
        check_table_check(w, t, opts[i % opts.size()]);
    });
    family("fillings", 12 * 5 * opts.size(), [=](Worker &w, uint64_t i) {
        static const unsigned n[] = {0, 1, 2, 10, 125, 499, 500, 501, 502, 1000, 1001, 3000}, step[] = {1, 2, 37, 500, 1000};
        uint64_t k = i / opts.size(); S t = "default none\nstart\n";
        bool down = k % 7 == 3; unsigned N = n[k / 5];
        for (unsigned j = 1; j <= N; j++) t += std::to_string((down ? N + 1 - j : j) * step[k % 5]) + " v\n";
        check_table_check(w, t + "end\n", opts[i % opts.size()]);
    });
    static const V<S> rel = {"safe", "iso8859_1", "cp1252", "unicode"};
    family("the released tables", rel.size() * opts.size(), [=](Worker &w, uint64_t i) { check_table_check(w, read_file(O.golden + "/" + rel[i / opts.size()] + ".tbl"), opts[i % opts.size()]); });
    family("no table", opts.size() * 2, [=](Worker &w, uint64_t i) {
        V<S> a = opts[i / 2]; if (i % 2) a.push_back(w.dir + "/missing.tbl");
        Result R = w.run(tool_run("check_table", a));
        if (R.signaled) violation(w, "check-table without a table was ended by a signal" + how(R));
    });
});
