// Table files: a reader written from the manual, and the alphabet of lines.
#pragma once
#include "filters.hpp"
#include <locale.h>
#include <strings.h>

inline bool tbl_code(const S &w, unsigned &v)
{
    if (w.empty()) return false;
    int base = 10; size_t i = 0;
    if (w.size() > 2 && w[0] == '0' && (w[1] == 'x' || w[1] == 'X')) { base = 16; i = 2; }
    else if (w.size() > 1 && w[0] == '0') { base = 8; i = 1; }
    uint64_t r = 0;
    for (; i < w.size(); i++) {
        int c = tolower((unsigned char)w[i]), d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : 99;
        if (d >= base) return false;
        r = r * base + d;
    }
    v = (unsigned)r;
    return r <= 0x7fffffff;
}
// lang: the name of the locale in effect
inline RTable read_table(const S &text, const S &lang = "C")
{
    RTable t; bool in = false;
    for (size_t p = 0; p < text.size();) {
        size_t z = text.find('\n', p); if (z == S::npos) z = text.size();
        S l = text.substr(p, z - p); p = z + 1;
        if (!l.empty() && l[0] == '#') continue;
        size_t i = 0;
        auto skip = [&] { while (i < l.size() && strchr(" \t\r\v\f", l[i])) i++; };
        auto word = [&] { size_t a = i; while (i < l.size() && !strchr(" \t\r\v\f", l[i])) i++; return l.substr(a, i - a); };
        skip();
        S w = word();
        skip();
        std::optional<S> v;
        if (i < l.size()) {
            if (l[i] == '"' || l[i] == '\'') { size_t q = l.find(l[i], i + 1); v = l.substr(i + 1, (q == S::npos ? l.size() : q) - i - 1); }
            else v = word();
        }
        unsigned code;
        if (in) {
            if (tbl_code(w, code)) { if (v) t.rows[code] = *v; }
            else if (!strcasecmp(w.c_str(), "end")) in = false;
        } else if (!strcasecmp(w.c_str(), "start")) {
            if (!v || !strncasecmp(v->c_str(), lang.c_str(), v->size())) in = true;
        } else if (!strcasecmp(w.c_str(), "default")) {
            if (v && !v->empty()) t.def = *v; else t.def.reset();
        }
    }
    return t;
}
inline const V<S> &table_lines()
{
    static V<S> v = {"start", "end", "default x", "default", "default \"\"", "default 'y z' # c", "0x41 a", "0x41 'q q'", "65 \"b\" # no", "0101 c", "\t0x42\t\"d'd\"  ", "0x41",
        "", "# start", "   ", "0x41 \"\"", "word 0x41", " START ", "End # x", "0x43 e trailing words", "0xe9 \xc3\xa9", "0x41 #", "Default\tz", "0x42 ''", "0X43 -", "0x20AC 'eu\"ro'", "66 0x41", "#", " # start", "0x41 start"};
    return v;
}
inline const V<unsigned> &table_codes() { static V<unsigned> v = {0x41, 0x42, 0x43, 0xe9, 0x20ac, 0x40, 0x44, 101, 41, 1, 541, 565, 566}; return v; }
inline S show(const std::optional<S> &s) { return s ? qs(*s) : S("nothing"); }
