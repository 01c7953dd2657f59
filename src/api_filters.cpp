// The filters, called directly: every input within the bounds, under the address sanitizer.
#include "filters.hpp"
#include <locale.h>
extern "C" {
#include "detox_struct.h"
#include "clean_string.h"
#include "clean_utf_8.h"
#include "table.h"
#include "builtin_table.h"
#include "parse_table.h"
}

typedef char *(*TableFilter)(char *, table_t *);
// the input is in a block of exactly its size, so that the sanitizer sees every access next to it
struct In {
    char *p; const S &s;
    In(const S &s) : s(s) { p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); }
    ~In() { free(p); }
};
static S take(Ev &e, char *r, const In &in)
{
    if (!r) { e.fail(in.s, "there was no result"); return ""; }
    S o = r;
    if (r != in.p) free(r);
    if (memcmp(in.p, in.s.c_str(), in.s.size() + 1)) e.fail(in.s, "the input was changed to " + qs(in.p));
    return o;
}
static S call(Ev &e, TableFilter f, const S &in, table_t *t) { e.w.rec(in); In i(in); return take(e, f(i.p, t), i); }

struct T { S name; table_t *t; const RTable *r; };
static T builtin_of(const S &n)
{
    if (n == "safe") return {"builtin safe", load_builtin_safe_table(), &golden().safe};
    if (n == "iso8859_1") return {"builtin iso8859_1", load_builtin_iso8859_1_table(), &golden().iso};
    if (n == "cp1252") return {"builtin cp1252", load_builtin_cp1252_table(), &golden().cp1252};
    return {"builtin unicode", load_builtin_unicode_table(), &golden().unicode};
}
// tables by number: first those of detox, then those files, then the user's
static T table_no(Worker &w, const V<S> &names, size_t i)
{
    if (i < names.size()) return builtin_of(names[i]);
    if (i < 2 * names.size()) {
        const S &n = names[i - names.size()];
        T t = builtin_of(n);
        S f = w.dir + "/" + n + ".tbl";
        write_file(f, read_file(O.golden + "/" + n + ".tbl"));
        return {"file " + n, parse_table((char *)f.c_str()), t.r};
    }
    const UTable &u = user_tables()[i - 2 * names.size()];
    S f = w.dir + "/user.tbl";
    write_file(f, table_text(u.t));
    return {u.name, parse_table((char *)f.c_str()), &u.t};
}
static size_t ntables(const V<S> &n) { return 2 * n.size() + user_tables().size(); }
static void drop(T &t) { if (t.t) table_free(t.t); }
static bool usable(Worker &w, const T &t) { if (t.t) return true; Ev e(w, "table " + t.name); e.fail("", "the table could not be read"); return false; }

static void rule(const S &s) { RULE = RULE.empty() ? s : RULE + "; " + s; EXHAUSTIVE = true; }

// ---------------------------------------------------------------- filters with a table that look at bytes
static void byte_filter(const char *fname, TableFilter f, S (*ref)(const S &, const RTable &), const V<S> &names, const V<S> &reps)
{
    size_t nt = ntables(names);
    static const V<S> all = bytes_al();
    family_api(S(fname) + ": all words of at most 2 bytes, every table", nt * 255, [=](Worker &w, uint64_t i) {
        T t = table_no(w, names, i / 255);
        if (!usable(w, t)) return;
        Ev e(w, S(fname) + " with " + t.name);
        S a(1, (char)(i % 255 + 1));
        if (i % 255 == 0) e.same("", call(e, f, "", t.t), ref("", *t.r));
        e.same(a, call(e, f, a, t.t), ref(a, *t.r));
        for (auto &b : all) { S s = a + b; if (!e.same(s, call(e, f, s, t.t), ref(s, *t.r))) break; }
        drop(t);
    });
    family_api(S(fname) + ": all words of 3 bytes, builtin tables", names.size() * 255, [=](Worker &w, uint64_t i) {
        T t = builtin_of(names[i / 255]);
        Ev e(w, S(fname) + " with " + t.name);
        each_word(all, 2, S(1, (char)(i % 255 + 1)), [&](const S &s) { return e.same(s, call(e, f, s, t.t), ref(s, *t.r)); });
    });
    int len = O.thorough ? 6 : 4;
    family_api(S(fname) + ": all words of " + std::to_string(len) + " representatives, every table", nt * reps.size(), [=](Worker &w, uint64_t i) {
        T t = table_no(w, names, i / reps.size());
        if (!usable(w, t)) return;
        Ev e(w, S(fname) + " with " + t.name);
        each_word(reps, len - 1, reps[i % reps.size()], [&](const S &s) { return e.same(s, call(e, f, s, t.t), ref(s, *t.r)); });
        drop(t);
    });
    family_api(S(fname) + ": every length up to 1100 and around powers of two, every table", nt * reps.size(), [=](Worker &w, uint64_t i) {
        T t = table_no(w, names, i / reps.size());
        if (!usable(w, t)) return;
        Ev e(w, S(fname) + " with " + t.name);
        const S &a = reps[i % reps.size()];
        for (auto &b : V<S>{"", "x", a == "&" ? " " : "&"}) {
            for (int n = 3; n <= 1100; n++) if (b.empty() || n % 16 < 3) { S s(n, a[0]); s += b; if (!e.same(s, call(e, f, s, t.t), ref(s, *t.r))) return; }
            if (b.empty()) for (int p = 2048; p <= (O.thorough ? 65536 : 8192); p *= 2) for (int d = -2; d <= 2; d++) { S s(p + d, a[0]); if (!e.same(s, call(e, f, s, t.t), ref(s, *t.r))) return; }
        }
        drop(t);
    });
}
static Reg n01("N01", [] {
    rule("safe filter: every word of up to 3 bytes, of representatives and of every length, with the builtin table, the shipped file and tables of users; each result against the table applied byte by byte");
    byte_filter("clean_safe", clean_safe, ref_safe, {"safe"}, chars("a &(._-b\x80\xc3\xe9\xff\x01\x7f~"));
    // what the manual promises for the builtin table, independent of the released table
    family_api("clean_safe: promises of the manual, every byte", 255, [](Worker &w, uint64_t i) {
        Ev e(w, "clean_safe with builtin safe");
        S in(1, (char)(i + 1)), out = call(e, clean_safe, in, load_builtin_safe_table());
        unsigned char c = in[0];
        e.n++;
        for (unsigned char x : out) if (x < 0x21 || x == 0x7f || strchr("!\"$&'()*/:;<>?@[\\]`{|}", x)) e.fail(in, "gave the unsafe " + qs(out));
        if (c >= 0x80 && out != in) e.fail(in, "was changed to " + qs(out));
        if (isalnum(c) && c < 0x80 && out != in) e.fail(in, "was changed to " + qs(out));
    });
});
static Reg n07("N07", [] {
    rule("iso8859_1 filter: every word of up to 3 bytes, of representatives and of every length, with both builtin tables, the shipped files and tables of users; each result against the table applied byte by byte");
    byte_filter("clean_iso8859_1", clean_iso8859_1, ref_iso, {"iso8859_1", "cp1252"}, chars("a &._-b\x80\x8d\x9f\xa0\xc3\xe9\xff\x01\x7f"));
});

// ---------------------------------------------------------------- N02
static Reg n02("N02", [] {
    rule("wipeup filter: every word over separators and other characters up to a length, every byte between separators, runs of every length; result against the rule, and the result must stay as it is when filtered again");
    auto one = [](Ev &e, const S &s, int t) {
        e.w.rec(s);
        S o; { In i(s); o = take(e, clean_wipeup(i.p, t), i); }
        if (!e.same(s, o, ref_wipeup(s, t))) return false;
        In j(o); S o2 = take(e, clean_wipeup(j.p, t), j);
        return e.same(o, o2, o, "was not left alone, but gave");
    };
    static const V<S> al = chars("-_.#a \xc3");
    int len = O.thorough ? 9 : 7;
    family_api("clean_wipeup: all words over - _ . # a space C3 of length " + std::to_string(len), 2 * 49, [=](Worker &w, uint64_t i) {
        Ev e(w, i % 2 ? "clean_wipeup, remove_trailing" : "clean_wipeup");
        each_word(al, len - 2, al[i / 2 % 7] + al[i / 14], [&](const S &s) { return one(e, s, i % 2); });
    });
    family_api("clean_wipeup: all shorter words", 2, [=](Worker &w, uint64_t i) {
        Ev e(w, i % 2 ? "clean_wipeup, remove_trailing" : "clean_wipeup");
        for (int l = 0; l < len; l++) if (!each_word(al, l, "", [&](const S &s) { return one(e, s, i % 2); })) return;
    });
    int len2 = O.thorough ? 13 : 11;
    static const V<S> al2 = chars("-_.a");
    family_api("clean_wipeup: all words over - _ . a of length " + std::to_string(len2), 2 * 64, [=](Worker &w, uint64_t i) {
        Ev e(w, i % 2 ? "clean_wipeup, remove_trailing" : "clean_wipeup");
        each_word(al2, len2 - 3, al2[i / 2 % 4] + al2[i / 8 % 4] + al2[i / 32], [&](const S &s) { return one(e, s, i % 2); });
    });
    static const V<S> sep = {"", "-", "_", ".", "#", "--", "__", "-_", "_.", "..", "#-", "_#_"};
    family_api("clean_wipeup: every pair of bytes between separators", 2 * 255, [=](Worker &w, uint64_t i) {
        Ev e(w, i % 2 ? "clean_wipeup, remove_trailing" : "clean_wipeup");
        S a(1, (char)(i / 2 + 1));
        for (auto &s1 : sep) for (auto &s2 : sep) for (int b = 1; b < 256; b++)
            if (!one(e, s1 + a + s2 + S(1, (char)b), i % 2) || (b < 128 && !one(e, a + s1 + S(1, (char)b) + s2, i % 2))) return;
    });
    family_api("clean_wipeup: runs of every length", 2 * 600, [=](Worker &w, uint64_t i) {
        Ev e(w, i % 2 ? "clean_wipeup, remove_trailing" : "clean_wipeup");
        int n = i / 2;
        for (const char *run : {"-", "_", ".", "#", "-_", "_.", "_-", "a", "a-", "a__"})
            for (const char *pre : {"", "a", "-", "#", "."}) for (const char *post : {"", "b", "-", ".", "_", "b-b", "#"}) {
                S s = pre; for (int k = 0; k < n; k++) s += run; s += post;
                if (!one(e, s, i % 2)) return;
            }
    });
});
// ---------------------------------------------------------------- N03
static Reg n03("N03", [] {
    rule("uncgi filter: every word over %, +, digits and others up to a length, every '%' with any two bytes in context, every length; result against one left-to-right pass");
    auto one = [](Ev &e, const S &s) { e.w.rec(s); In i(s); return e.same(s, take(e, clean_uncgi(i.p), i), ref_uncgi(s)); };
    static const V<S> al = chars("%+024fFgx ");
    int len = O.thorough ? 8 : 6;
    family_api("clean_uncgi: all words over % + 0 2 4 f F g x space of length " + std::to_string(len), 100, [=](Worker &w, uint64_t i) {
        Ev e(w, "clean_uncgi");
        each_word(al, len - 2, al[i % 10] + al[i / 10], [&](const S &s) { return one(e, s); });
    });
    family_api("clean_uncgi: all shorter words", len, [=](Worker &w, uint64_t i) {
        Ev e(w, "clean_uncgi");
        each_word(al, i, "", [&](const S &s) { return one(e, s); });
    });
    static const V<S> al2 = chars("%25+");
    int len2 = O.thorough ? 12 : 10;
    family_api("clean_uncgi: all words over % 2 5 + of length " + std::to_string(len2), 64, [=](Worker &w, uint64_t i) {
        Ev e(w, "clean_uncgi");
        each_word(al2, len2 - 3, al2[i % 4] + al2[i / 4 % 4] + al2[i / 16], [&](const S &s) { return one(e, s); });
    });
    family_api("clean_uncgi: every escape of any two bytes, in context", 255, [=](Worker &w, uint64_t i) {
        Ev e(w, "clean_uncgi");
        for (int b = 1; b < 256; b++) for (const char *pre : {"", "a", "%", "%2", "+", "%41"}) for (const char *post : {"", "z", "%", "1", "+", "%42", "%4"})
            if (!one(e, S(pre) + "%" + (char)(i + 1) + (char)b + post)) return;
    });
    family_api("clean_uncgi: every length", 1200, [=](Worker &w, uint64_t i) {
        Ev e(w, "clean_uncgi");
        for (const char *u : {"%41", "a", "+", "%", "%4", "%%41", "%g1", "%2541"}) for (const char *post : {"", "%", "%4", "%41", "x"}) {
            S s; for (uint64_t k = 0; k < i; k++) s += u;
            if (!one(e, s + post)) return;
        }
    });
});
// ---------------------------------------------------------------- N04
static Reg n04("N04", [] {
    rule("lower filter: every word of up to 3 bytes and every length, with each locale in effect that could be made; only A-Z may change");
    auto one = [](Ev &e, const S &s) { e.w.rec(s); In i(s); return e.same(s, take(e, clean_lower(i.p), i), ref_lower(s)); };
    static V<S> locs = {"C", "C.utf8", "de_DE.utf8", "en_US.utf8", "de_DE.ISO-8859-1", "tr_TR.ISO-8859-9", "tr_TR.UTF-8", "el_GR.ISO-8859-7", "ru_RU.KOI8-R", "pl_PL.ISO-8859-2"};
    static const V<S> all = bytes_al();
    family_api("clean_lower: all words of at most 2 bytes, every locale", locs.size() * 255, [=](Worker &w, uint64_t i) {
        if (!O.locpath.empty()) setenv("LOCPATH", O.locpath.c_str(), 1);
        if (!setlocale(LC_ALL, locs[i / 255].c_str())) { if (!setlocale(LC_ALL, "C")) return; if (i / 255) { unsetenv("LOCPATH"); if (!setlocale(LC_ALL, locs[i / 255].c_str())) return; } }
        Ev e(w, "clean_lower in " + locs[i / 255]);
        S a(1, (char)(i % 255 + 1));
        if (i % 255 == 0) { one(e, ""); G->extra[0]++; }
        one(e, a);
        for (auto &b : all) if (!one(e, a + b)) return;
        setlocale(LC_ALL, "C");
    });
    BOUNDS.push_back("locales that could be used: " + std::to_string(G->extra[0].load()));
    family_api("clean_lower: all words of 3 bytes", 255, [=](Worker &w, uint64_t i) {
        Ev e(w, "clean_lower");
        each_word(all, 2, S(1, (char)(i + 1)), [&](const S &s) { return one(e, s); });
    });
    family_api("clean_lower: every length", 3000, [=](Worker &w, uint64_t i) {
        Ev e(w, "clean_lower");
        for (const char *u : {"A", "Z", "a", "\xc3\x84", "Ab", "aZ9", "@[", "`{"}) for (const char *post : {"", "Q", "\xc3"}) {
            S s; while (s.size() < i) s += u;
            if (!one(e, s + post)) return;
        }
    });
});
// ---------------------------------------------------------------- N05
static Reg n05("N05", [] {
    rule("max_length filter: every placing of dots in names of up to 16 characters with every length, every position of the last two dots in names of up to 300 characters with the lengths around them; result against the rule");
    auto one = [](Ev &e, const S &s, size_t n) { e.w.rec(s + " / " + std::to_string(n)); In i(s); return e.same(s + " / " + std::to_string(n), take(e, clean_max_length(i.p, n), i), ref_maxlen(s, n)); };
    static const V<S> al = chars("a.");
    int top = O.thorough ? 18 : 14;
    family_api("clean_max_length: all words over a and . up to " + std::to_string(top), top + 1, [=](Worker &w, uint64_t i) {
        Ev e(w, "clean_max_length");
        i = top - i;
        for (size_t n = 0; n <= i + 1; n++) if (!each_word(al, i, "", [&](const S &s) { return one(e, s, n); })) return;
    });
    static const V<S> al2 = chars("a.-\xc3\xa9 ~");
    int top2 = O.thorough ? 8 : 6;
    family_api("clean_max_length: all words over a . - C3 A9 space ~ up to " + std::to_string(top2), top2 + 1, [=](Worker &w, uint64_t i) {
        Ev e(w, "clean_max_length");
        i = top2 - i;
        for (size_t n = 0; n <= i + 1; n++) if (!each_word(al2, i, "", [&](const S &s) { return one(e, s, n); })) return;
    });
    family_api("clean_max_length: lengths up to 300, last two dots anywhere", 300, [=](Worker &w, uint64_t i) {
        Ev e(w, "clean_max_length");
        int L = i + 1;
        V<size_t> ns = {0, 1, 2, 10, 100, 255, 256, 257, (size_t)L - 1, (size_t)L, (size_t)L + 1, (size_t)L / 2};
        S s(L, 0);
        for (int k = 0; k < L; k++) s[k] = 'a' + k % 26;
        for (int p = 0; p < L; p++) {
            S t = s; t[p] = '.';
            for (size_t n : ns) if (!one(e, t, n)) return;
            for (size_t n : {(size_t)(L - p) - 1, (size_t)(L - p), (size_t)(L - p) + 1}) if (!one(e, t, n)) return;
            for (int d = 1; d <= 7 && d <= p; d++) {
                S u = t; u[p - d] = '.';
                if (!one(e, u, 0) || !one(e, u, L / 2) || !one(e, u, L - p + d) || !one(e, u, L - p + d + 1) || !one(e, u, L - p + 1) || !one(e, u, L - 1)) return;
            }
        }
        for (size_t n : ns) if (!one(e, s, n)) return;
    });
    family_api("clean_max_length: long names", 100, [=](Worker &w, uint64_t i) {
        Ev e(w, "clean_max_length");
        for (int L : {1000, 1023, 1024, 4096, 65536}) {
            S s(L, 'b'); if (i % 4) s[L - i / 4 - 2] = '.'; if (i % 4 > 1) s[L - i / 4 - 2 - i % 7] = '.';
            for (size_t n : {(size_t)0, (size_t)i, (size_t)L / 2, (size_t)L - 1, (size_t)L, (size_t)255, (size_t)1000}) if (!one(e, s, n)) return;
        }
    });
});
// ---------------------------------------------------------------- N06
static Reg n06("N06", [] {
    rule("utf_8 filter: every code point in every encoding length, every sequence of representatives of all classes of bytes, truncated and interrupted sequences in context, with the builtin table, the shipped file and tables of users; result against a decoder that follows the manual");
    static const V<S> names = {"unicode"};
    size_t nt = ntables(names);
    auto one = [](Ev &e, const S &s, const T &t) { return e.same(s, call(e, clean_utf_8, s, t.t), ref_utf8(s, *t.r)); };
    family_api("clean_utf_8: every code point up to 1FFFFF in every encoding length, builtin table", 0x2000, [=](Worker &w, uint64_t i) {
        T t = builtin_of("unicode");
        Ev e(w, "clean_utf_8 with " + t.name);
        for (uint32_t v = i * 256; v < (i + 1) * 256; v++)
            for (int l = enc_min(v); l <= 6; l++) {
                if (v == 0 && l == 1) continue;
                if (l > enc_min(v) + 1 && v % 16 > 1 && !O.thorough) continue;
                S x = enc(v, l);
                if (!one(e, x, t)) return;
                if ((v & 0xff) < 4 && !one(e, "a" + x + "b" + x + x, t)) return;
            }
    });
    family_api("clean_utf_8: code points in every encoding length, every table", (nt - 1) * 0x110, [=](Worker &w, uint64_t i) {
        T t = table_no(w, names, 1 + i / 0x110);
        if (!usable(w, t)) return;
        Ev e(w, "clean_utf_8 with " + t.name);
        for (uint32_t v = i % 0x110 * 4096; v < (i % 0x110 + 1) * 4096; v++) {
            if (v >= 0x3000 && v % 64 > 1 && !t.r->rows.count(v) && !O.thorough) continue;
            for (int l = enc_min(v); l <= 6; l++) { if (v == 0 && l == 1) continue; if (!one(e, enc(v, l), t) || (v < 0x300 && !one(e, "a" + enc(v, l) + "b", t))) return; }
        }
        drop(t);
    });
    family_api("clean_utf_8: values that need 5 and 6 bytes, every table", nt * 64, [=](Worker &w, uint64_t i) {
        T t = table_no(w, names, i / 64);
        if (!usable(w, t)) return;
        Ev e(w, "clean_utf_8 with " + t.name);
        for (uint32_t hi = 0; hi < 1u << 14; hi += O.thorough ? 1 : 8) {
            uint32_t v = (uint32_t)(i % 64) << 25 | hi << 11 | (hi & 1 ? 0x7ff : 0);
            if (v >= 0x80000000u || v < 0x110000) continue;
            for (int l = enc_min(v); l <= 6; l++) if (!one(e, enc(v, l), t)) return;
        }
        for (uint32_t v : {0x110000u, 0x1fffffu, 0x200000u, 0x3ffffffu, 0x4000000u, 0x7fffffffu, 0x10ffffu, 0x7ffffffeu})
            for (int l = enc_min(v); l <= 6; l++) if (!one(e, "x" + enc(v, l) + "y", t)) return;
        drop(t);
    });
    static const V<S> reps = chars("\x41\x7f\x80\xbf\xc0\xc3\xdf\xe0\xe2\xef\xf0\xf4\xf7\xf8\xfc\xfe");
    static const V<S> reps2 = chars("\x01\x2f\x41\x5f\x7f\x80\x8d\x9f\xa0\xbf\xc0\xc1\xc2\xc3\xdf\xe0\xe2\xed\xef\xf0\xf4\xf5\xf7\xf8\xfb\xfc\xfd\xfe\xff");
    int len = O.thorough ? 6 : 5;
    family_api("clean_utf_8: all words of " + std::to_string(len) + " bytes of 16 classes", 3 * 256, [=](Worker &w, uint64_t i) {
        T t = table_no(w, names, i / 256 == 0 ? 0 : i / 256 == 1 ? 5 : 6);
        if (!usable(w, t)) return;
        Ev e(w, "clean_utf_8 with " + t.name);
        each_word(reps, len - 2, reps[i % 16] + reps[i / 16 % 16], [&](const S &s) { return one(e, s, t); });
        drop(t);
    });
    family_api("clean_utf_8: all words of at most 4 bytes of 29 classes, every table", nt * 29, [=](Worker &w, uint64_t i) {
        T t = table_no(w, names, i / 29);
        if (!usable(w, t)) return;
        Ev e(w, "clean_utf_8 with " + t.name);
        int top = i / 29 == 0 || O.thorough ? 3 : 2;
        for (int l = 0; l <= top; l++) if (!each_word(reps2, l, reps2[i % 29], [&](const S &s) { return one(e, s, t); })) break;
        if (i % 29 == 0) one(e, "", t);
        drop(t);
    });
    family_api("clean_utf_8: all words of at most 2 bytes, every table", nt * 255, [=](Worker &w, uint64_t i) {
        T t = table_no(w, names, i / 255);
        if (!usable(w, t)) return;
        Ev e(w, "clean_utf_8 with " + t.name);
        S a(1, (char)(i % 255 + 1));
        one(e, a, t);
        for (int b = 1; b < 256; b++) if (!one(e, a + (char)b, t)) break;
        drop(t);
    });
    if (O.thorough) family_api("clean_utf_8: all words of 3 bytes", 255 * 255, [=](Worker &w, uint64_t i) {
        T t = builtin_of("unicode");
        Ev e(w, "clean_utf_8 with " + t.name);
        S a = S(1, (char)(i % 255 + 1)) + (char)(i / 255 + 1);
        for (int b = 1; b < 256; b++) if (!one(e, a + (char)b, t)) break;
    });
    family_api("clean_utf_8: every lead byte, cut after every byte, before every class", 128 * 3, [=](Worker &w, uint64_t i) {
        T t = table_no(w, names, i / 128 == 0 ? 0 : i / 128 == 1 ? 5 : 3);
        if (!usable(w, t)) return;
        Ev e(w, "clean_utf_8 with " + t.name);
        unsigned char lead = 128 + i % 128;
        for (int n = 0; n <= 6; n++) for (int mask = 0; mask < 1 << n; mask++) {
            S s(1, (char)lead);
            for (int k = 0; k < n; k++) s += (char)(mask >> k & 1 ? 0xbf : 0x80);
            if (!one(e, s, t) || !one(e, "x" + s, t)) return;
            for (auto &r : reps2) if (!one(e, s + r, t) || !one(e, s + r + "\x80", t) || !one(e, s + r + s + "z", t)) return;
        }
        drop(t);
    });
    family_api("clean_utf_8: every length", 2 * 1100, [=](Worker &w, uint64_t i) {
        T t = table_no(w, names, i % 2 ? 4 : 0);
        if (!usable(w, t)) return;
        Ev e(w, "clean_utf_8 with " + t.name);
        for (const char *u : {"\xc0\x80", "a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x8d\x95", "\xff", "\xc2\xa0", "\xe2\x80\xa8"}) for (const char *post : {"", "\xc0\x80", "\xe2\x82", "\xc3", "z"}) {
            S s; for (uint64_t k = 0; k < i / 2; k++) s += u;
            if (!one(e, s + post, t)) return;
        }
        drop(t);
    });
});
