// Reference models of the filters, written from the manual, and the sequences they form.
#pragma once
#include "mc.hpp"
#include <algorithm>

struct RTable { std::map<unsigned, S> rows; std::optional<S> def; };

enum RKind { R_SAFE, R_WIPEUP, R_UNCGI, R_LOWER, R_MAXLEN, R_UTF8, R_ISO };
struct RFilter {
    RKind k;
    const RTable *t = nullptr;  // safe, utf_8, iso8859_1
    int p = 0;                  // wipeup: remove_trailing; max_length: length
    S tname;                    // how the table is named in a configuration
    bool tfile = false;         // ... by file name
};
typedef V<RFilter> RSeq;

// golden tables: a copy of the tables detox is released with
inline RTable load_golden(const S &file)
{
    RTable t; bool in = false;
    S text = read_file(file);
    if (text.empty()) { fprintf(stderr, "harness: no golden table %s\n", file.c_str()); exit(3); }
    size_t p = 0;
    while (p < text.size()) {
        size_t e = text.find('\n', p); if (e == S::npos) e = text.size();
        S l = text.substr(p, e - p); p = e + 1;
        size_t i = 0;
        auto ws = [&] { while (i < l.size() && isspace((unsigned char)l[i])) i++; };
        auto word = [&] { S w; while (i < l.size() && !isspace((unsigned char)l[i])) w += l[i++]; return w; };
        auto value = [&](bool &have) -> S {
            ws(); have = i < l.size();
            if (!have) return "";
            if (l[i] == '"' || l[i] == '\'') { char q = l[i++]; size_t z = l.find(q, i); S v = l.substr(i, (z == S::npos ? l.size() : z) - i); return v; }
            return word();
        };
        if (l.empty() || l[0] == '#') continue;
        ws(); if (i >= l.size()) continue;
        S w = word(); bool have;
        if (!in) { if (w == "start") in = true; else if (w == "default") { S v = value(have); if (have && !v.empty()) t.def = v; else t.def.reset(); } }
        else if (w == "end") in = false;
        else { unsigned k = strtoul(w.c_str(), nullptr, 0); S v = value(have); if (have) t.rows[k] = v; }
    }
    return t;
}
struct Golden { RTable safe, iso, cp1252, unicode; };
inline const Golden &golden()
{
    static Golden g = {load_golden(O.golden + "/safe.tbl"), load_golden(O.golden + "/iso8859_1.tbl"), load_golden(O.golden + "/cp1252.tbl"), load_golden(O.golden + "/unicode.tbl")};
    return g;
}

inline S ref_safe(const S &s, const RTable &t)
{
    S r;
    for (unsigned char c : s) {
        auto it = t.rows.find(c);
        if (it != t.rows.end()) r += it->second;
        else if (t.def) r += *t.def;
        else r += (char)c;
    }
    return r;
}
inline S ref_iso(const S &s, const RTable &t)
{
    S r;
    for (unsigned char c : s) {
        if (c < 0x80) { r += (char)c; continue; }
        auto it = t.rows.find(c);
        if (it != t.rows.end()) r += it->second;
        else if (t.def) r += *t.def;
        else r += (char)c;
    }
    return r;
}
inline S ref_wipeup(const S &s0, bool trailing)
{
    size_t b = 0;
    while (b < s0.size() && (s0[b] == '-' || s0[b] == '_' || s0[b] == '#')) b++;
    S s = s0.substr(b), r;
    for (size_t i = 0; i < s.size();) {
        bool dot = false, dash = false; size_t j = i;
        while (j < s.size() && (s[j] == '-' || s[j] == '_' || (trailing && s[j] == '.'))) { dot |= s[j] == '.'; dash |= s[j] == '-'; j++; }
        if (j > i) { r += dot ? '.' : dash ? '-' : '_'; i = j; }
        else r += s[i++];
    }
    return r;
}
inline S ref_uncgi(const S &s)
{
    S r;
    auto hex = [](int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
    for (size_t i = 0; i < s.size();) {
        if (s[i] == '%' && i + 2 < s.size() + 0 && hex(s[i + 1]) >= 0 && hex(s[i + 2]) >= 0 && (hex(s[i + 1]) || hex(s[i + 2]))) { r += (char)(hex(s[i + 1]) * 16 + hex(s[i + 2])); i += 3; }
        else if (s[i] == '+') { r += ' '; i++; }
        else r += s[i++];
    }
    return r;
}
inline S ref_lower(const S &s) { S r = s; for (auto &c : r) if (c >= 'A' && c <= 'Z') c += 32; return r; }
inline S ref_maxlen(const S &s, size_t n)
{
    if (n == 0) n = 256;
    if (s.size() <= n) return s;
    size_t e = s.rfind('.');
    if (e == S::npos || e + 1 == s.size()) return s.substr(0, n);
    // a second extension begins at most 5 bytes before the last one; a leading dot is not one
    for (size_t d = 1; d <= 5 && d < e; d++) if (s[e - d] == '.') { e -= d; break; }
    S ext = s.substr(e);
    if (n <= ext.size()) return s;
    return s.substr(0, n - ext.size()) + ext;
}
inline S ref_utf8(const S &s, const RTable &t)
{
    S r;
    auto cont = [](unsigned char c) { return (c & 0xc0) == 0x80; };
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        int w; uint64_t v;
        if (c < 0x80) { w = 1; v = c; }
        else if (c < 0xc0 || c >= 0xfe) { r += '_'; i++; continue; }
        else if (c < 0xe0) { w = 2; v = c & 0x1f; }
        else if (c < 0xf0) { w = 3; v = c & 0x0f; }
        else if (c < 0xf8) { w = 4; v = c & 0x07; }
        else if (c < 0xfc) { w = 5; v = c & 0x03; }
        else { w = 6; v = c & 0x01; }
        size_t j = i + 1; int need = w - 1;
        while (need > 0 && j < s.size() && cont(s[j])) { v = v << 6 | (s[j] & 0x3f); j++; need--; }
        if (need) { r += '_'; i = j; continue; }
        auto it = v ? t.rows.find((unsigned)v) : t.rows.end();
        if (it != t.rows.end()) r += it->second;
        else if (v == 0) r += "_hidden_null_";
        else if (v > 0x10ffff) r += '_';
        else if (t.def) r += *t.def;
        else r += s.substr(i, j - i);
        i = j;
    }
    return r;
}
inline S ref_apply(const RFilter &f, const S &s)
{
    switch (f.k) {
        case R_SAFE: return ref_safe(s, *f.t);
        case R_WIPEUP: return ref_wipeup(s, f.p);
        case R_UNCGI: return ref_uncgi(s);
        case R_LOWER: return ref_lower(s);
        case R_MAXLEN: return ref_maxlen(s, f.p);
        case R_UTF8: return ref_utf8(s, *f.t);
        case R_ISO: return ref_iso(s, *f.t);
    }
    return s;
}
inline S ref_seq(const RSeq &q, S s) { for (auto &f : q) s = ref_apply(f, s); return s; }

inline RFilter rf_safe() { return {R_SAFE, &golden().safe, 0, "safe"}; }
inline RFilter rf_wipe(bool t) { return {R_WIPEUP, nullptr, t}; }
inline RFilter rf_uncgi() { return {R_UNCGI}; }
inline RFilter rf_lower() { return {R_LOWER}; }
inline RFilter rf_max(int n) { return {R_MAXLEN, nullptr, n}; }
inline RFilter rf_utf8() { return {R_UTF8, &golden().unicode, 0, "unicode"}; }
inline RFilter rf_iso() { return {R_ISO, &golden().iso, 0, "iso8859_1"}; }
inline RFilter rf_cp1252() { return {R_ISO, &golden().cp1252, 0, "cp1252"}; }

struct Stock { const char *name; RSeq seq; };
inline const V<Stock> &stock()
{
    static V<Stock> v = {
        {"default", {rf_safe(), rf_wipe(true)}},
        {"iso8859_1", {rf_iso(), rf_safe(), rf_wipe(true)}},
        {"iso8859_1-legacy", {rf_cp1252(), rf_iso(), rf_safe(), rf_wipe(true)}},
        {"utf_8", {rf_utf8(), rf_safe(), rf_wipe(true)}},
        {"uncgi", {rf_uncgi(), rf_safe(), rf_wipe(true)}},
        {"lower", {rf_safe(), rf_lower(), rf_wipe(true)}},
        {"iso8859_1-only", {rf_iso()}},
        {"cp1252-only", {rf_cp1252()}},
        {"utf_8-only", {rf_utf8()}},
        {"uncgi-only", {rf_uncgi()}},
        {"lower-only", {rf_lower()}},
    };
    return v;
}
inline const RSeq &stock_seq(const S &n) { for (auto &s : stock()) if (n == s.name) return s.seq; fprintf(stderr, "harness: no stock sequence %s\n", n.c_str()); exit(3); }

inline S conf_filter(const RFilter &f)
{
    static const char *n[] = {"safe", "wipeup", "uncgi", "lower", "max_length", "utf_8", "iso8859_1"};
    S r = n[f.k];
    if (f.k == R_WIPEUP && f.p) r += " { remove_trailing; }";
    if (f.k == R_MAXLEN && f.p) r += " { length " + std::to_string(f.p) + "; }";
    if (f.t && !f.tname.empty()) r += S(" { ") + (f.tfile ? "filename" : "builtin") + " \"" + f.tname + "\"; }";
    return r + ";";
}
inline S conf_seq(const S &name, const RSeq &q)
{
    S r = "sequence \"" + name + "\" {\n";
    for (auto &f : q) r += "\t" + conf_filter(f) + "\n";
    return r + "};\n";
}
inline S conf_ignore(const V<S> &v)
{
    if (v.empty()) return "";
    S r = "ignore {\n";
    for (auto &x : v) r += "\tfilename \"" + x + "\";\n";
    return r + "};\n";
}
