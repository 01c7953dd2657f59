// Inputs for the filters, tables of users, and how results are compared.
#pragma once
#include "ref.hpp"

inline S table_text(const RTable &t)
{
    auto q = [](const S &v) { return v.find('"') == S::npos ? "\"" + v + "\"" : "'" + v + "'"; };
    S r;
    if (t.def) r += "default " + q(*t.def) + "\n";
    r += "start\n";
    char b[32];
    for (auto &x : t.rows) { snprintf(b, sizeof b, "0x%02x ", x.first); r += b + q(x.second) + "\n"; }
    return r + "end\n";
}

// tables that a user might write, for every filter that has one
struct UTable { S name; RTable t; };
inline const V<UTable> &user_tables()
{
    static V<UTable> v = [] {
        V<UTable> u;
        auto add = [&](const S &n, std::map<unsigned, S> rows, std::optional<S> def) { u.push_back({n, {rows, def}}); };
        add("no rows", {}, std::nullopt);
        add("only a default", {}, "_");
        add("only a long default", {}, S("default that is longer than anything else in this table, by far"));
        std::map<unsigned, S> r = {{'a', "XYZ"}, {'b', ""}, {' ', S(50, '=')}, {'.', ".."}, {'-', "-"}, {0xe9, "e"}, {0x80, "EUR"}, {0xff, "y'y"}, {0x20ac, "euro"}, {0x10ffff, "max"}, {0x110000, "over"}, {0x1fffff, ""}, {0x7fffffff, "big"}, {0x7f, "del"}};
        add("mixed rows", r, std::nullopt);
        add("mixed rows and a default", r, "dd");
        std::map<unsigned, S> all;
        for (unsigned b = 1; b < 256; b++) all[b] = S(b % 6, 'A' + b % 26);
        add("a row for every byte", all, std::nullopt);
        add("a short row and a longer default", {{'c', "1"}, {0xc3, "2"}}, S("longer"));
        std::map<unsigned, S> col;
        for (unsigned k : {97u, 597u, 1097u, 1u, 501u, 1001u, 500u, 1000u, 255u, 755u}) col[k] = "<" + std::to_string(k) + ">";
        add("rows that collide", col, std::nullopt);
        add("rows that collide and a default", col, ".");
        return u;
    }();
    return v;
}

// words over an alphabet of strings, by number: length first
inline uint64_t nwords(size_t k, int len) { uint64_t n = 1; while (len-- > 0) n *= k; return n; }
inline S word_at(const V<S> &al, int len, uint64_t i) { S r; for (; len > 0; len--) { r += al[i % al.size()]; i /= al.size(); } return r; }
template <class F> bool each_word(const V<S> &al, int len, const S &prefix, F &&f)
{
    // f(word) returns false to stop
    if (len == 0) return f(prefix);
    for (auto &a : al) if (!each_word(al, len - 1, prefix + a, f)) return false;
    return true;
}
inline V<S> bytes_al(int from = 1, int to = 255, bool nl = true) { V<S> v; for (int i = from; i <= to; i++) if (nl || i != '\n') v.push_back(S(1, (char)i)); return v; }
inline V<S> chars(const char *s) { V<S> v; for (; *s; s++) v.push_back(S(1, *s)); return v; }

// counts and compares
struct Ev {
    Worker &w; S tag; uint64_t n = 0, bytes = 0, fresh = 0, h; bool bad = false;
    Ev(Worker &w, const S &tag) : w(w), tag(tag) { w.tag(tag); h = hstr(tag); }
    ~Ev() { G->evals += n; G->transitions += bytes; G->validated += n; G->states += fresh; }
    bool same(const S &in, const S &got, const S &want, const char *what = "gave")
    {
        n++; bytes += in.size();
        if (seen_new(hstr(got, h))) fresh++;
        if (got == want) return true;
        return fail(in, S(what) + " " + qs(got) + "\nexpected " + qs(want));
    }
    bool fail(const S &in, const S &what)
    {
        if (!bad) violation(w, tag + "\ninput " + qs(in) + "\n" + what);
        bad = true;
        return false;
    }
};

inline S enc(uint32_t v, int len)     // any encoding length, also too long ones
{
    if (len == 1) return S(1, (char)v);
    S r(len, 0);
    for (int i = len - 1; i > 0; i--) { r[i] = 0x80 | (v & 0x3f); v >>= 6; }
    static const unsigned char lead[] = {0, 0, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc};
    r[0] = lead[len] | v;
    return r;
}
inline int enc_min(uint32_t v) { return v < 0x80 ? 1 : v < 0x800 ? 2 : v < 0x10000 ? 3 : v < 0x200000 ? 4 : v < 0x4000000 ? 5 : 6; }
inline uint32_t enc_limit(int len) { static const uint32_t m[] = {0, 0x80, 0x800, 0x10000, 0x200000, 0x4000000, 0x80000000u}; return m[len]; }
inline bool utf8_ok(const S &s)
{
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        int n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
        if (!n || i + n > s.size()) return false;
        for (int k = 1; k < n; k++) if (((unsigned char)s[i + k] & 0xc0) != 0x80) return false;
        if (c == 0xe0 && (unsigned char)s[i + 1] < 0xa0) return false;
        if (c == 0xed && (unsigned char)s[i + 1] > 0x9f) return false;
        if (c == 0xf0 && (unsigned char)s[i + 1] < 0x90) return false;
        if (c == 0xf4 && (unsigned char)s[i + 1] > 0x8f) return false;
        i += n;
    }
    return true;
}

// ---------------------------------------------------------------- the program as a filter
struct Inline {
    S conf, seq = "q"; V<S> flags; V<std::pair<S, S>> env; bool as_detox = false; V<S> files; double timeout = 20;
};
inline Run inline_run(Worker &w, const Inline &I, const S &data)
{
    Run r;
    r.argv = I.as_detox ? V<S>{"detox", "--inline"} : V<S>{"inline-detox"};
    if (!I.conf.empty()) { write_file(w.dir + "/conf", I.conf); r.argv.push_back("-f"); r.argv.push_back(w.dir + "/conf"); }
    if (!I.seq.empty()) { r.argv.push_back("-s"); r.argv.push_back(I.seq); }
    for (auto &f : I.flags) r.argv.push_back(f);
    for (auto &f : I.files) r.argv.push_back(f);
    r.env = I.env; r.stdin_data = data; r.timeout = I.timeout;
    S root = w.root;
    r.hooks = [root](HookArea &h) { snprintf(h.root, sizeof h.root, "%s", root.c_str()); };
    return r;
}
inline S ref_line(const RSeq &q, const S &l) { return l == "." || l == ".." ? l : ref_seq(q, l); }
// runs lines through the program and compares each with the model; returns the lines that came out
inline V<S> check_lines(Worker &w, const S &tag, const Inline &I, const RSeq &q, const V<S> &lines, Result *keep = nullptr)
{
    Ev e(w, tag);
    S data; for (auto &l : lines) data += l + "\n";
    Result R = w.run(inline_run(w, I, data));
    if (keep) *keep = R;
    V<S> out;
    for (size_t p = 0; p < R.out.size();) { size_t z = R.out.find('\n', p); if (z == S::npos) z = R.out.size(); out.push_back(R.out.substr(p, z - p)); p = z + 1; }
    auto dump = [&](size_t i) {
        S t = "\nconfiguration:\n" + I.conf + "flags: " + joinargs(I.flags);
        for (auto &x : I.env) t += " " + x.first + "=" + qs(x.second);
        t += "\nlines before it:"; for (size_t k = i > 6 ? i - 6 : 0; k < i && k < lines.size(); k++) t += " " + qs(lines[k].substr(0, 200));
        return t + "\nstatus " + std::to_string(R.status) + "\nstderr: " + qs(R.err.substr(0, 2000));
    };
    for (size_t i = 0; i < lines.size(); i++) {
        if (i >= out.size()) {
            e.fail(lines[i], "the output ends before this line (" + std::to_string(i) + " of " + std::to_string(lines.size()) + ")" + (R.signaled ? ", detox was ended by a signal" : "") + dump(i));
            return out;
        }
        S want = ref_line(q, lines[i]);
        if (out[i] != want) { e.fail(lines[i], "gave " + qs(out[i]) + "\nexpected " + qs(want) + dump(i)); return out; }
        e.same(lines[i], out[i], want);
    }
    if (out.size() > lines.size()) e.fail(lines.back(), "there is output after the last line: " + qs(out[lines.size()]) + dump(lines.size()));
    else if (R.signaled || R.status) e.fail(lines.back(), "ended with status " + std::to_string(R.status) + dump(lines.size()));
    else if (!R.out.empty() && R.out.back() != '\n') e.fail(lines.back(), "the last newline is missing" + dump(lines.size()));
    return out;
}
// families of lines in portions
inline void fam_lines(const S &name, uint64_t n, uint64_t per, const std::function<S(uint64_t)> &line, const std::function<void(Worker &, const V<S> &)> &fn)
{
    family(name, (n + per - 1) / per, [=](Worker &w, uint64_t i) {
        V<S> ls; ls.reserve(per);
        for (uint64_t k = i * per; k < n && k < (i + 1) * per; k++) ls.push_back(line(k));
        if (i < 2) sample(name + ": " + qs(ls[ls.size() / 2]) + ", " + qs(ls.back()));
        fn(w, ls);
    });
}
// words of all lengths up to a number
struct Words {
    V<S> al; int max; V<uint64_t> upto;
    Words(V<S> a, int m) : al(std::move(a)), max(m) { uint64_t t = 0; for (int l = 0; l <= m; l++) { t += nwords(al.size(), l); upto.push_back(t); } }
    uint64_t count() const { return upto.back(); }
    S at(uint64_t i) const { int l = 0; while (i >= upto[l]) l++; return word_at(al, l, i - (l ? upto[l - 1] : 0)); }
};
