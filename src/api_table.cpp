// Translation tables, called directly: every history of operations, every file within the bounds.
#include "tables.hpp"
extern "C" {
#include "detox_struct.h"
#include "clean_string.h"
#include "table.h"
#include "builtin_table.h"
#include "parse_table.h"
}
static void rule(const S &s) { RULE = RULE.empty() ? s : RULE + "; " + s; EXHAUSTIVE = true; }
static std::optional<S> get(table_t *t, unsigned k) { char *p = table_get(t, k); return p ? std::optional<S>(p) : std::nullopt; }

// ---------------------------------------------------------------- T01
struct TModel { std::map<unsigned, S> m; int cap; };
struct TOp { char op; unsigned key; const char *data; int cap, hash; };
static S show_op(const TOp &o) { return o.op == 'p' ? "put(" + std::to_string(o.key) + ", " + qs(o.data) + ")" : "resize(" + std::to_string(o.cap) + ", " + (o.hash ? "hashed" : "not hashed") + ")"; }
static V<unsigned> t01_keys(int cap) { return {1u, 1u + cap, 1u + 2 * cap, 2u, (unsigned)(cap > 2 ? cap : 3), 0u}; }
static bool t01_apply(Ev &e, table_t *&t, TModel &m, const TOp &o, const std::function<S()> &hist)
{
    if (o.op == 'r') {
        table_t *n = table_resize(t, o.cap, o.hash);
        if (!n) { e.fail(hist(), "there was no table"); return false; }
        if (n != t) { table_free(t); t = n; }
        m.cap = o.cap;
        return true;
    }
    bool have = m.m.count(o.key), ok = o.key != 0 && (have || (int)m.m.size() < m.cap);
    char data[64]; snprintf(data, sizeof data, "%s", o.data);
    int r = table_put(t, o.key, data);
    memset(data, '!', sizeof data - 1);     // the table keeps a copy of its own
    if ((r != -1) != ok) { e.fail(hist(), S("the last insertion ") + (ok ? "failed" : "did not fail")); return false; }
    if (ok) m.m[o.key] = o.data;
    return true;
}
static bool t01_same(Ev &e, table_t *t, const TModel &m, const V<unsigned> &keys, const std::function<S()> &hist)
{
    for (int round = 0; round < 2; round++)
        for (unsigned k : keys) {
            auto it = m.m.find(k);
            auto want = it == m.m.end() ? std::nullopt : std::optional<S>(it->second), got = get(t, k);
            e.n++;
            if (got != want) { e.fail(hist(), "then the key " + std::to_string(k) + " has " + show(got) + "\nexpected " + show(want)); return false; }
        }
    return true;
}
static Reg t01("T01", [] {
    rule("every sequence of insertions over colliding keys (0 included), overwrites and enlargements, hashed or not, from every small capacity; after every operation every key is looked up twice and compared with a map; and tables of every size filled in regular patterns");
    int depth = O.thorough ? 6 : 5;
    family_api("all sequences of " + std::to_string(depth) + " operations", 4 * 2 * 16 * 16, [=](Worker &w, uint64_t i) {
        int cap0 = i % 4 + 1, hash0 = i / 4 % 2;
        auto keys = t01_keys(cap0);
        V<TOp> ops;
        for (unsigned k : keys) { ops.push_back({'p', k, "A"}); ops.push_back({'p', k, "BB"}); }
        ops.push_back({'r', 0, "", -1, 1}); ops.push_back({'r', 0, "", -1, 0}); ops.push_back({'r', 0, "", -2, 1}); ops.push_back({'p', keys[0], ""});
        V<unsigned> look = keys; look.push_back(7); look.push_back(cap0); look.push_back(1 + 3 * cap0);
        Ev e(w, "table of " + std::to_string(cap0) + " rows, " + (hash0 ? "hashed" : "not hashed"));
        V<int> seq(depth); seq[0] = i / 8 % 16; seq[1] = i / 128;
        uint64_t rest = 1; for (int k = 2; k < depth; k++) rest *= ops.size();
        for (uint64_t r = 0; r < rest; r++) {
            uint64_t x = r; for (int k = depth - 1; k >= 2; k--) { seq[k] = x % ops.size(); x /= ops.size(); }
            // prefixes are checked once, where they first occur
            int from = r == 0 ? 0 : depth; if (r) { from = depth - 1; uint64_t y = r; while (from > 2 && y % ops.size() == 0) { from--; y /= ops.size(); } }
            table_t *t = table_init(cap0);
            if (!hash0) t = table_resize(t, cap0, 0);
            TModel m; m.cap = cap0;
            V<TOp> done;
            auto hist = [&] { S s; for (auto &o : done) s += (s.empty() ? "" : "; ") + show_op(o); return s; };
            bool ok = true;
            for (int k = 0; k < depth && ok; k++) {
                TOp o = ops[seq[k]];
                if (o.op == 'r') o.cap = m.cap - o.cap - 1;     // same size or one larger
                done.push_back(o);
                if (k >= from) w.rec(hist());
                ok = t01_apply(e, t, m, o, hist) && (k < from || t01_same(e, t, m, look, hist));
            }
            if (seen_new(mix(e.h, [&] { uint64_t h = m.cap; for (auto &x : m.m) h = mix(mix(h, x.first), hstr(x.second)); return h; }()))) e.fresh++;
            table_free(t);
            if (!ok) return;
            e.bytes += depth;
        }
    }, 120);
    // tables filled completely
    static const unsigned strides[] = {1, 2, 3, 7, 499, 500, 501, 1000, 65536};
    V<int> caps; for (int c = 1; c <= 64; c++) caps.push_back(c); for (int c : {127, 128, 255, 256, 499, 500, 501, 1000, 1023}) caps.push_back(c);
    if (O.thorough) for (int c : {2000, 4096, 5000}) caps.push_back(c);
    // lookups in one table do not change those in another
    family_api("two tables side by side", 3 * 3 * 85, [=](Worker &w, uint64_t i) {
        int ca = i % 3 + 2, cb = i / 3 % 3 + 2; uint64_t wa = i / 9;
        static const unsigned K[] = {1, 2, 3, 5};
        auto fill = [](table_t *t, TModel &m, int cap, uint64_t x, const char *tag) {
            m.cap = cap;
            int l = x < 1 ? 0 : x < 5 ? 1 : x < 21 ? 2 : 3; x -= l == 0 ? 0 : l == 1 ? 1 : l == 2 ? 5 : 21;
            for (int j = 0; j < l; j++, x /= 4) {
                S d = tag + std::to_string(j); char b[16]; snprintf(b, sizeof b, "%s", d.c_str());
                if (table_put(t, K[x % 4], b) != -1) m.m[K[x % 4]] = d;
            }
        };
        Ev e(w, "tables of " + std::to_string(ca) + " and " + std::to_string(cb) + " rows");
        for (uint64_t wb = 0; wb < 85; wb++) {
            table_t *A = table_init(ca), *B = table_init(cb); TModel a, b;
            fill(A, a, ca, wa, "a"); fill(B, b, cb, wb, "b");
            bool ok = true;
            for (int r = 0; ok && r < 4; r++) for (unsigned k : {1u, 2u, 3u, 5u, 4u}) {
                bool first = r % 2; 
                for (int h = 0; h < 2; h++) {
                    table_t *t = (h == 0) == first ? A : B; TModel &m = t == A ? a : b;
                    auto it = m.m.find(k); auto want = it == m.m.end() ? std::nullopt : std::optional<S>(it->second), got = get(t, k); e.n++;
                    if (got != want) { e.fail(std::to_string(wa) + ", " + std::to_string(wb), "the key " + std::to_string(k) + " has " + show(got) + "\nexpected " + show(want)); ok = false; break; }
                }
                if (!ok) break;
            }
            table_free(A); table_free(B);
            if (!ok) return;
        }
    });
    family_api("filled tables", caps.size() * 9 * 4, [=](Worker &w, uint64_t i) {
        int cap = caps[i / 36]; unsigned st = strides[i % 9]; bool down = i / 9 % 2, hash = i / 18 % 2;
        Ev e(w, "table of " + std::to_string(cap) + " rows filled with keys " + std::to_string(st) + " apart");
        table_t *t = table_init(cap); if (!hash) t = table_resize(t, cap, 0);
        V<unsigned> ks; for (int k = 0; k < cap; k++) ks.push_back(1 + (down ? cap - 1 - k : k) * st + (k == cap / 2 ? 0x7f000000u : 0));
        char b[64]; V<int> perm;
        auto data = [&](unsigned k, int gen) { snprintf(b, sizeof b, "%d:%u", gen, k); return b; };
        auto all = [&](int upto, int gen0, int gen1) {
            for (int k = 0; k < cap; k++) {
                e.n++;
                auto g = get(t, ks[k]);
                S want = k < upto ? data(ks[k], gen1) : data(ks[k], gen0);
                if (k >= upto && gen0 < 0 ? g.has_value() : g != want) { e.fail("after " + std::to_string(upto) + " insertions", "the key " + std::to_string(ks[k]) + " has " + show(g)); return false; }
            }
            return true;
        };
        for (int k = 0; k < cap; k++) {
            w.rec("insertion " + std::to_string(k));
            if (table_put(t, ks[k], data(ks[k], 1)) == -1) { e.fail("insertion " + std::to_string(k + 1) + " of " + std::to_string(cap), "failed"); return; }
            if ((k % 16 == 0 || cap < 33 || k + 3 > cap) && (cap < 600 || k + 3 > cap) && !all(k + 1, -1, 1)) return;
        }
        if (table_put(t, 0x7ffffff1, data(1, 1)) != -1) { e.fail("one more than " + std::to_string(cap) + " rows", "was put"); return; }
        for (int k = 0; k < cap; k++) if (table_put(t, ks[k], data(ks[k], 2)) == -1) { e.fail("overwriting row " + std::to_string(k), "failed"); return; }
        if (!all(cap, 2, 2)) return;
        for (int big : {cap, cap + 1, 2 * cap + 3, 500 + cap}) for (int h : {1, 0}) {
            table_t *n = table_resize(t, big, h);
            if (n == t) continue;
            table_free(t); t = n;
            if (!all(cap, 2, 2)) return;
        }
        if (table_get(t, 0)) e.fail("key 0", "was found");
        table_free(t);
    });
    family_api("builtin tables enlarged", 4 * 3 * 2, [=](Worker &w, uint64_t i) {
        table_t *b = i % 4 == 0 ? load_builtin_safe_table() : i % 4 == 1 ? load_builtin_iso8859_1_table() : i % 4 == 2 ? load_builtin_cp1252_table() : load_builtin_unicode_table();
        const RTable &r = i % 4 == 0 ? golden().safe : i % 4 == 1 ? golden().iso : i % 4 == 2 ? golden().cp1252 : golden().unicode;
        Ev e(w, "builtin table enlarged");
        int n = (int)r.rows.size() + (int[]){0, 1, 1000}[i / 4 % 3];
        table_t *t = table_resize(b, n + 1, i / 12);
        for (auto &x : r.rows) { if (!x.first) continue; e.n++; auto g = get(t, x.first); if (g != x.second) { e.fail(std::to_string(x.first), "has " + show(g) + "\nexpected " + qs(x.second)); return; } }
        char z[] = "zz";
        if (table_put(t, 0x7fffff0f, z) == -1 || get(t, 0x7fffff0f) != S("zz")) e.fail("one more row", "could not be put");
        if (get(b, 0x7fffff0f)) e.fail("one more row", "is in the builtin table, too");
        std::optional<S> d = t->default_translation ? std::optional<S>(t->default_translation) : std::nullopt;
        if (d != r.def) e.fail("default", show(d) + "\nexpected " + show(r.def));
        table_free(t);
    });
});

// ---------------------------------------------------------------- T02, T03
static bool table_is(Ev &e, const S &in, table_t *t, const RTable &r, const V<unsigned> &codes)
{
    if (!t) { e.fail(in, "could not be read"); return false; }
    for (unsigned c : codes) {
        auto it = r.rows.find(c);
        auto want = it == r.rows.end() ? std::nullopt : std::optional<S>(it->second), got = get(t, c);
        e.n++;
        if (got != want) { e.fail(in, "maps " + std::to_string(c) + " to " + show(got) + "\nexpected " + show(want)); return false; }
    }
    std::optional<S> d = t->default_translation ? std::optional<S>(t->default_translation) : std::nullopt;
    if (d && d->empty()) d.reset();
    if (d != r.def) { e.fail(in, "has the default " + show(d) + "\nexpected " + show(r.def)); return false; }
    if (seen_new(hstr(in))) e.fresh++;
    e.bytes += in.size();
    return true;
}
static bool one_file(Worker &w, Ev &e, const S &f, const S &text, const S &lang, const V<unsigned> &codes)
{
    w.rec(text);
    write_file(f, text);
    table_t *t = parse_table((char *)f.c_str());
    bool ok = table_is(e, text, t, read_table(text, lang), codes);
    if (t) table_free(t);
    return ok;
}
static Reg t02("T02", [] {
    rule("every file of up to 4 (thorough: 5) lines out of 30 kinds, with and without a final newline, and files of every number of rows up to 600 and around the sizes where the table is enlarged; every code and the default against a reader written from the manual");
    const V<S> &L = table_lines(); uint64_t k = L.size();
    unsetenv("LC_ALL"); unsetenv("LC_CTYPE"); unsetenv("LANG");
    int len = O.thorough ? 5 : 4;
    family_api("all files of up to " + std::to_string(len) + " lines", k * k + 1, [=](Worker &w, uint64_t i) {
        Ev e(w, "table file");
        S f = w.dir + "/t.tbl";
        const V<S> &L = table_lines();
        if (i == k * k) {
            one_file(w, e, f, "", "C", table_codes());
            for (auto &a : L) for (auto *nl : {"", "\n"}) one_file(w, e, f, a + nl, "C", table_codes());
            return;
        }
        S pre = L[i / k] + "\n" + L[i % k];
        if (!one_file(w, e, f, pre, "C", table_codes()) || !one_file(w, e, f, pre + "\n", "C", table_codes())) return;
        for (int l = 1; l <= len - 2; l++) {
            uint64_t n = nwords(k, l);
            for (uint64_t x = 0; x < n; x++) {
                S t = pre; uint64_t y = x;
                for (int j = 0; j < l; j++) { t += "\n" + L[y % k]; y /= k; }
                if (l < len - 2 || x % 2) t += "\n";
                if (!one_file(w, e, f, t, "C", table_codes())) return;
                if (x % 64 == 0 && stopping()) return;
            }
        }
    }, 240);
    family_api("all blocks of up to " + std::to_string(len) + " rows", k * k, [=](Worker &w, uint64_t i) {
        Ev e(w, "table file");
        S f = w.dir + "/t.tbl";
        const V<S> &L = table_lines();
        for (uint64_t x = 0; x < (len == 5 ? k * k : k); x++) {
            S t = "start\n" + L[i / k] + "\n" + L[i % k] + "\n" + L[x % k] + (len == 5 ? "\n" + L[x / k] : "");
            for (auto *tail : {"\n", "", "\nend\nstart\n0x41 last\n", "\nend\ndefault D"})
                if (!one_file(w, e, f, t + tail, "C", table_codes())) return;
            if (x % 16 == 0 && stopping()) return;
        }
    }, 240);
    family_api("every number of rows", (O.thorough ? 5200 : 2600) * 3, [=](Worker &w, uint64_t i) {
        int n = i / 3, kind = i % 3;
        if (!O.thorough && n > 620 && n % 10 > 2 && (n < 990 || n > 1010)) return;
        Ev e(w, "table file of " + std::to_string(n) + " rows");
        S t = "start\n"; V<unsigned> codes; char b[64];
        for (int j = 0; j < n; j++) {
            unsigned c = kind == 0 ? j + 1 : kind == 1 ? (n - j) * 500 : (j * 7919u) % 1000003u + 1;
            codes.push_back(c);
            snprintf(b, sizeof b, kind == 2 ? "%u '%d'\n" : kind ? "0x%x \"%d\"\n" : "%d %d\n", c, j); t += b;
        }
        codes.push_back(5000000); codes.push_back(777777);
        if (kind == 0 && n > 1) t += "1 again\n";
        S text = t + "end\n";
        one_file(w, e, w.dir + "/t.tbl", text, "C", codes);
    }, 240);
    family_api("every code", 0x110800 / 512, [=](Worker &w, uint64_t i) {
        Ev e(w, "table file of the codes from " + std::to_string(i * 512));
        for (int kind = 0; kind < (O.thorough ? 3 : 1); kind++) {
            S t = "start\n"; V<unsigned> codes; char b[64];
            for (unsigned j = 0; j < 512; j++) {
                unsigned c = i * 512 + (kind == 2 ? 511 - j : j); if (!c) continue;
                codes.push_back(c);
                snprintf(b, sizeof b, (kind + i) % 3 == 0 ? "0x%x %x\n" : (kind + i) % 3 == 1 ? "%u '%x'\n" : "0%o \"%x\"\n", c, c); t += b;
            }
            one_file(w, e, w.dir + "/t.tbl", t + "end\n", "C", codes);
        }
    }, 240);
    // rows that fall on the same place
    family_api("all files of rows that share places", 6 * 6 * 6, [=](Worker &w, uint64_t i) {
        static const unsigned K[] = {1, 501, 1001, 2, 502, 500};
        Ev e(w, "table file of rows that share places");
        S f = w.dir + "/t.tbl"; int more = O.thorough ? 3 : 2;
        V<unsigned> cs(K, K + 6); cs.push_back(1000); cs.push_back(1502);
        S pre = "start\n"; uint64_t y = i; for (int j = 0; j < 3; j++) { pre += std::to_string(K[y % 6]) + " r" + std::to_string(j) + "\n"; y /= 6; }
        for (int l = 0; l <= more; l++) for (uint64_t x = 0; x < nwords(6, l); x++) {
            S t = pre; uint64_t z = x; for (int j = 0; j < l; j++) { t += std::to_string(K[z % 6]) + (j % 2 ? " ''" : " s" + std::to_string(j)) + "\n"; z /= 6; }
            if (!one_file(w, e, f, t + "end\n", "C", cs)) return;
        }
    });
    // shortest possible rows: as many as a file of its size can have
    family_api("files of the shortest rows", 9 * 40, [=](Worker &w, uint64_t i) {
        Ev e(w, "table file of the shortest rows");
        S t = "start\n"; int n = i / 9 * 37;
        for (int j = 0; j < n; j++) { t += (char)('1' + (j + i) % 9); t += " "; t += (char)('a' + j % 26); t += "\n"; }
        V<unsigned> c; for (unsigned j = 1; j < 12; j++) c.push_back(j);
        one_file(w, e, w.dir + "/t.tbl", t, "C", c);
    });
    family_api("every length of a replacement", 1000 * 3, [=](Worker &w, uint64_t i) {
        int n = i / 3 + 1; S v(n, 'v'), q = i % 3 == 0 ? "" : i % 3 == 1 ? "'" : "\"";
        Ev e(w, "table file with a replacement of " + std::to_string(n) + " bytes");
        one_file(w, e, w.dir + "/t.tbl", "default " + q + v + "w" + q + "\nstart\n0x41 " + q + v + q + "\n0x42 b\nend\n", "C", {0x41, 0x42, 0x43});
    });
    family_api("every way to write a code", 70000, [=](Worker &w, uint64_t i) {
        unsigned c = i < 66000 ? i + 1 : (unsigned)((i - 65999) * 524287u);
        if (!O.thorough && c > 600 && i % 16) return;
        char a[300]; snprintf(a, sizeof a, "start\n%u dec\nend\nstart\n0%o oct\nend\nstart\n0x%x hex\nend\nstart\n0X%04X HEX\n", c, c, c, c);
        Ev e(w, "code " + std::to_string(c));
        S f = w.dir + "/t.tbl", t = a; V<unsigned> cs = {c, c + 1, c ^ 0x10};
        for (size_t p = t.find("end"); ; p = t.find("end", p + 1)) { if (!one_file(w, e, f, t.substr(0, p), "C", cs)) return; if (p == S::npos) break; }
    });
});
static Reg t03("T03", [] {
    rule("every arrangement of up to 3 blocks, each plain or for one of 16 languages in every spelling, in every locale, set by each of the three variables; languages of every length around names of locales; every code against a reader written from the manual");
    static V<S> locs = {"C", "POSIX", "C.utf8", "de_DE.utf8", "en_US.utf8"};
    if (!O.locpath.empty()) for (const char *l : {"de_DE.ISO-8859-1", "tr_TR.ISO-8859-9", "tr_TR.UTF-8", "el_GR.ISO-8859-7", "ja_JP.EUC-JP", "de_AT.UTF-8"}) locs.push_back(l);
    static const V<S> langs = {"", " de", " DE", " d", " de_DE", " \"de_de\"", " 'tr'", " tr_TR.UTF-8", " TR_tr.utf-8x", " en # us", " C", " c", " \"C.utf8\"", " de_AT.UTF-8", " x", " edd", " el_gr.iso", " ja", " de_DE.utf8.and more"};
    uint64_t k = langs.size(), per = k * k;
    family_api("all arrangements of up to 3 blocks", locs.size() * k * 3, [=](Worker &w, uint64_t i) {
        const S &l = locs[i / 3 % locs.size()];
        if (!O.locpath.empty()) setenv("LOCPATH", O.locpath.c_str(), 1); else unsetenv("LOCPATH");
        unsetenv("LC_ALL"); unsetenv("LC_CTYPE"); unsetenv("LANG");
        bool std_ = l == "C" || l == "POSIX" || l == "C.utf8" || l == "de_DE.utf8" || l == "en_US.utf8";
        if (std_) unsetenv("LOCPATH");
        if (!setlocale(LC_CTYPE, l.c_str())) return;      // this locale is not there
        S name = l == "POSIX" ? "C" : l;
        setenv(i % 3 == 0 ? "LC_ALL" : i % 3 == 1 ? "LC_CTYPE" : "LANG", l.c_str(), 1);
        if (i % 3 == 0) { setenv("LC_CTYPE", "C", 1); setenv("LANG", "tr_TR.UTF-8", 1); }
        if (i % 3 == 1) setenv("LANG", "C", 1);
        if (i % 3 == 2) { setenv("LC_ALL", "", 1); setenv("LC_CTYPE", "", 1); }
        Ev e(w, "table file in the locale " + l + ", set by " + (i % 3 == 0 ? "LC_ALL" : i % 3 == 1 ? "LC_CTYPE" : "LANG"));
        S f = w.dir + "/t.tbl"; uint64_t a = i / 3 / locs.size();
        S b1 = "start" + langs[a] + "\n0x41 one\n0x42 'only one'\nend\n";
        one_file(w, e, f, b1, name, table_codes());
        for (uint64_t x = 0; x < per; x++) {
            S b2 = "start" + langs[x % k] + "\n0x41 two\n0x43 \"only two\"\n0x44\nend\n", b3 = "\tStart" + langs[x / k] + "\n0x42 three\n0x44 three\n";
            S t = b1 + (x % 3 == 0 ? "# x\n" : x % 3 == 1 ? "default dd\n" : "0x41 outside\n") + b2 + b3;
            if (x < k && !one_file(w, e, f, b1 + b2, name, table_codes())) return;
            if (!one_file(w, e, f, t, name, table_codes())) return;
        }
    });
    // languages of every length, around the name of the locale
    static V<S> named = {"C", "C.utf8"};
    if (!O.locpath.empty()) for (int k : {9, 40, 230}) { S m; while ((int)m.size() < k) m += "modifier_"; named.push_back("de_DE.ISO-8859-1@" + m.substr(0, k)); }
    family_api("languages of every length", named.size() * 520, [=](Worker &w, uint64_t i) {
        const S &l = named[i % named.size()]; int n = i / named.size() / 2 + 1; bool quoted = i / named.size() % 2;
        if (n > (int)l.size() + 10 && n % 16 && n < 250) return;
        unsetenv("LC_CTYPE"); unsetenv("LANG"); unsetenv("LOCPATH");
        if (l[0] != 'C') setenv("LOCPATH", O.locpath.c_str(), 1);
        setenv("LC_ALL", l.c_str(), 1);
        if (!setlocale(LC_CTYPE, l.c_str())) return;
        S base = l; while ((int)base.size() < n) base += base.size() % 7 ? "y" : ".";
        base.resize(n);
        V<S> ls = {base}; S b = base; b.back() = b.back() == 'x' ? 'z' : 'x'; ls.push_back(b); b = base; for (auto &c : b) c = toupper(c); ls.push_back(b); b = base; b[n / 2] = '+'; ls.push_back(b); ls.push_back(base + "q");
        Ev e(w, "languages of " + std::to_string(n) + " characters in the locale " + l);
        S q = quoted ? "'" : "", all;
        for (auto &x : ls) {
            S t = "start " + q + x + q + "\n0x41 one\n0x42 two\nend\n"; all += t;
            if (!one_file(w, e, w.dir + "/t.tbl", t + "start\n0x43 c\nend\n", l, table_codes())) return;
        }
        for (size_t k = 0; k < ls.size(); k++) { S d = all; size_t p = 0; for (size_t j = 0; j < k; j++) p = d.find("one", p) + 1; d.replace(d.find("one", p), 3, "other"); if (!one_file(w, e, w.dir + "/t.tbl", d, l, table_codes())) return; }
    });
});

// ---------------------------------------------------------------- T04
static Reg t04("T04", [] {
    rule("every code up to beyond the Unicode maximum in the four builtin tables and the four files shipped, against the released tables");
    static const char *n[] = {"safe", "iso8859_1", "cp1252", "unicode"};
    const unsigned TOP = O.thorough ? 0x400000 : 0x120000;
    family_api("every code, builtin", 4 * 64, [=](Worker &w, uint64_t i) {
        table_t *b = i % 4 == 0 ? load_builtin_safe_table() : i % 4 == 1 ? load_builtin_iso8859_1_table() : i % 4 == 2 ? load_builtin_cp1252_table() : load_builtin_unicode_table();
        const RTable &r = i % 4 == 0 ? golden().safe : i % 4 == 1 ? golden().iso : i % 4 == 2 ? golden().cp1252 : golden().unicode;
        Ev e(w, S("builtin table ") + n[i % 4]);
        unsigned per = TOP / 64, from = i / 4 * per;
        V<unsigned> codes; for (unsigned c = from; c < from + per; c++) codes.push_back(c);
        for (int s = 0; s < 32; s++) codes.push_back(0x800000u << (s % 9) | s);
        RTable q = r; q.rows.erase(0);
        if (i / 4 == 0) table_is(e, S("builtin ") + n[i % 4], b, q, codes);
        else table_is(e, S("builtin ") + n[i % 4] + " from " + std::to_string(from), b, q, codes);
    });
    static V<S> texts;
    for (auto *x : n) texts.push_back(read_file(O.repo + "/table/" + x + ".tbl"));
    family_api("every code, shipped files", 4 * 64, [=](Worker &w, uint64_t i) {
        const RTable &r = i % 4 == 0 ? golden().safe : i % 4 == 1 ? golden().iso : i % 4 == 2 ? golden().cp1252 : golden().unicode;
        Ev e(w, S("shipped table ") + n[i % 4]);
        const S &text = texts[i % 4];
        S g = w.dir + "/t.tbl"; write_file(g, text);
        unsetenv("LC_ALL"); unsetenv("LC_CTYPE"); unsetenv("LANG");
        table_t *b = parse_table((char *)g.c_str());
        unsigned per = TOP / 64, from = i / 4 * per;
        V<unsigned> codes; for (unsigned c = from; c < from + per; c++) codes.push_back(c);
        for (int s = 0; s < 32; s++) codes.push_back(0x800000u << (s % 9) | s);
        RTable q = r; q.rows.erase(0);
        table_is(e, S("shipped ") + n[i % 4] + " from " + std::to_string(from), b, q, codes);
        if (b) table_free(b);
    });
});
