// Configuration files: a reader written from the manual and what a configuration means.
#pragma once
#include "filters.hpp"
#include <strings.h>

inline S dirname_of_path(const S &p) { size_t k = p.rfind('/'); return k == S::npos ? S(".") : k == 0 ? S("/") : p.substr(0, k); }
struct CFilter { RKind k; S builtin, file; bool has_b = false, has_f = false; long len = 0; bool trailing = false; };
struct CSeq { S name; V<CFilter> f; S source; };
struct Conf { V<CSeq> seqs; V<S> ignore; };

struct Tok { char t; S text; int line; };   // k keyword (in lower case), { } ; s string, i name, n number, u string without end, e end of file
inline const V<S> &keywords() { static V<S> v = {"sequence", "ignore", "builtin", "filename", "length", "remove_trailing", "uncgi", "lower", "wipeup", "iso8859_1", "utf_8", "safe", "max_length"}; return v; }
inline V<Tok> conf_tokens(const S &s)
{
    V<Tok> v; int line = 1;
    auto alpha = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); };
    auto digit = [](char c) { return c >= '0' && c <= '9'; };
    for (size_t i = 0; i < s.size();) {
        char c = s[i];
        if (c == '\n') { line++; i++; }
        else if (c == '#') { while (i < s.size() && s[i] != '\n') i++; }
        else if (c == '{' || c == '}' || c == ';') { v.push_back({c, S(1, c), line}); i++; }
        else if (c == '"') {
            size_t e = s.find_first_of("\"\n", i + 1);
            if (e == S::npos) { i++; continue; }        // a character that is part of nothing
            v.push_back({s[e] == '"' ? 's' : 'u', s.substr(i + 1, e - i - 1), line});
            i = e + 1;
            if (s[e] == '\n') line++;
        } else if (alpha(c)) {
            size_t e = i;
            while (e < s.size() && (alpha(s[e]) || digit(s[e]) || s[e] == '_')) e++;
            S w = s.substr(i, e - i), l = w; for (auto &x : l) if (x >= 'A' && x <= 'Z') x += 32;
            if (std::find(keywords().begin(), keywords().end(), l) != keywords().end()) v.push_back({'k', l, line}); else v.push_back({'i', w, line});
            i = e;
        } else if (digit(c)) { size_t e = i; while (e < s.size() && digit(s[e])) e++; v.push_back({'n', s.substr(i, e - i), line}); i = e; }
        else i++;
    }
    v.push_back({'e', "", line});
    return v;
}
// adds what text defines to c; 0 or the line of the error
inline int conf_read(Conf &c, const S &text, const S &source)
{
    V<Tok> t = conf_tokens(text); size_t p = 0;
    struct Bad { int line; };
    auto is = [&](const char *k) { return t[p].t == 'k' ? t[p].text == k : (t[p].t != 's' && t[p].t != 'i' && t[p].t != 'n' && t[p].t != 'u' && t[p].t != 'e') && t[p].text == k; };
    auto need = [&](const char *k) { if (!is(k)) throw Bad{t[p].line}; p++; };
    auto str = [&] { if (t[p].t != 's' && t[p].t != 'i') throw Bad{t[p].line}; return t[p++].text; };
    try {
        while (t[p].t != 'e') {
            if (is("sequence")) {
                p++;
                CSeq q; q.source = source; q.name = str(); need("{");
                do {
                    CFilter f;
                    if (is("uncgi")) { p++; f.k = R_UNCGI; }
                    else if (is("lower")) { p++; f.k = R_LOWER; }
                    else if (is("wipeup")) { p++; f.k = R_WIPEUP; if (is("{")) { p++; if (is("remove_trailing")) { p++; need(";"); f.trailing = true; } need("}"); } }
                    else if (is("max_length")) { p++; f.k = R_MAXLEN; if (is("{")) { p++; if (is("length")) { p++; if (t[p].t != 'n') throw Bad{t[p].line}; f.len = atol(t[p++].text.c_str()); need(";"); } need("}"); } }
                    else if (is("iso8859_1") || is("utf_8") || is("safe")) {
                        f.k = is("safe") ? R_SAFE : is("utf_8") ? R_UTF8 : R_ISO;
                        p++;
                        if (is("{")) {
                            p++;
                            if (is("filename")) { p++; f.has_f = true; f.file = str(); need(";"); }
                            else if (is("builtin")) { p++; f.has_b = true; f.builtin = str(); need(";"); }
                            need("}");
                        }
                    } else throw Bad{t[p].line};
                    need(";");
                    q.f.push_back(f);
                } while (!is("}"));
                need("}"); need(";");
                bool done = false;
                for (auto &o : c.seqs) if (o.name == q.name) { o = q; done = true; }
                if (!done) c.seqs.push_back(q);
            } else if (is("ignore")) {
                p++; need("{");
                do { need("filename"); c.ignore.push_back(str()); need(";"); } while (!is("}"));
                need("}"); need(";");
            } else throw Bad{t[p].line};
        }
    } catch (Bad &b) { return b.line; }
    return 0;
}
// which sequence is used: -1 none
inline int conf_choose(const Conf &c, const std::optional<S> &name)
{
    S n = name ? *name : "default";
    for (size_t i = 0; i < c.seqs.size(); i++) if (c.seqs[i].name == n) return i;
    return !name && !c.seqs.empty() ? 0 : -1;
}
inline S conf_list(const Conf &c, int chosen, bool verbose)
{
    S o;
    if (!verbose) o = "available sequences:\n";
    for (size_t i = 0; i < c.seqs.size(); i++) {
        if (verbose) o += S(i ? "\n" : "") + "sequence name: "; else o += "\t";
        o += c.seqs[i].name + ((int)i == chosen ? " (*)\n" : "\n");
        if (!verbose) continue;
        o += "\tsource file: " + c.seqs[i].source + "\n";
        static const char *n[] = {"safe", "wipeup", "uncgi", "lower", "max length", "utf_8", "iso8859_1"};
        for (auto &f : c.seqs[i].f) {
            o += S("\tcleaner: ") + n[f.k] + "\n";
            if (f.k == R_WIPEUP) o += S("\t\tremove trailing: ") + (f.trailing ? "yes" : "no") + "\n";
            if (f.k == R_MAXLEN) o += "\t\tlength: " + std::to_string(f.len) + "\n";
            if (f.has_b) o += "\t\tbuiltin table: " + f.builtin + "\n";
            if (f.has_f) o += "\t\ttranslation table: " + f.file + "\n";
        }
    }
    if (!c.ignore.empty()) { o += "\nfiles to ignore:\n"; for (auto &x : c.ignore) o += "\t" + x + "\n"; }
    return o;
}
// the sequence as filters of the model; false: a table in it cannot be used
inline bool conf_filters(const CSeq &q, RSeq &r, std::map<S, RTable> *files = nullptr)
{
    for (auto &f : q.f) {
        RFilter x = {f.k};
        x.p = f.k == R_WIPEUP ? f.trailing : f.len;
        if (f.k == R_SAFE || f.k == R_UTF8 || f.k == R_ISO) {
            x.t = f.k == R_SAFE ? &golden().safe : f.k == R_UTF8 ? &golden().unicode : &golden().iso;
            if (f.has_b) {
                if (f.builtin == "safe") x.t = &golden().safe;
                else if (f.builtin == "iso8859_1") x.t = &golden().iso;
                else if (f.builtin == "cp1252") x.t = &golden().cp1252;
                else if (f.builtin == "unicode") x.t = &golden().unicode;
                else return false;
            }
            if (f.has_f) { if (!files || !files->count(f.file)) return false; x.t = &(*files)[f.file]; }
        }
        r.push_back(x);
    }
    return true;
}
// tokens of a text, to be put together again in another layout
inline S tok_text(const Tok &t) { return t.t == 's' ? "\"" + t.text + "\"" : t.text; }
inline bool tok_word(const Tok &t) { return t.t == 'k' || t.t == 'i' || t.t == 'n'; }
