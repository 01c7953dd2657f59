// The filters through the program: configuration, tables, sequences and inline mode as users have them.
#include "filters.hpp"
#include "fscommon.hpp"

static void rule_add(const S &s) { RULE = RULE.empty() ? s : RULE + "; " + s; EXHAUSTIVE = true; }
static const uint64_t PER = 4000;

// a filter with a table of a user, in a file of this worker
static RFilter with_file(Worker &w, RKind k, const RTable &t, const S &name = "t0")
{
    S f = w.dir + "/" + name + ".tbl";
    write_file(f, table_text(t));
    return {k, &t, 0, f, true};
}
// all tables for a filter: built in by name, none named, the released file, tables of users
static size_t nvariants(const V<RFilter> &builtins) { return builtins.size() * 2 + 1 + user_tables().size(); }
static RFilter variant(Worker &w, const V<RFilter> &b, size_t i, S *name = nullptr)
{
    if (i < b.size()) { if (name) *name = "builtin " + b[i].tname; return b[i]; }
    i -= b.size();
    if (i < b.size()) {
        S f = w.dir + "/" + b[i].tname + ".tbl";
        write_file(f, read_file(O.golden + "/" + b[i].tname + ".tbl"));
        if (name) *name = "file " + b[i].tname;
        RFilter r = b[i]; r.tname = f; r.tfile = true; return r;
    }
    i -= b.size();
    if (i == 0) { RFilter r = b[0]; r.tname = ""; if (name) *name = "no table named"; return r; }
    const UTable &u = user_tables()[i - 1];
    if (name) *name = u.name;
    return with_file(w, b[0].k, u.t);
}
static void table_words(const S &name, const V<RFilter> &b, const Words &W)
{
    size_t nv = nvariants(b);
    uint64_t parts = (W.count() + PER - 1) / PER;
    family(name, nv * parts, [=](Worker &w, uint64_t i) {
        S vn; RFilter f = variant(w, b, i / parts, &vn);
        V<S> ls;
        for (uint64_t k = i % parts * PER; k < W.count() && k < (i % parts + 1) * PER; k++) ls.push_back(W.at(k));
        if (i % 37 == 0) sample(name + ", " + vn + ": " + qs(ls[ls.size() / 2]));
        Inline I; I.conf = conf_seq("q", {f});
        check_lines(w, name + ", " + vn, I, {f}, ls);
    });
}
static void plain_words(const S &name, const V<RFilter> &fs, const Words &W, const V<V<std::pair<S, S>>> &envs = {{}})
{
    uint64_t parts = (W.count() + PER - 1) / PER;
    family(name, fs.size() * envs.size() * parts, [=](Worker &w, uint64_t i) {
        RFilter f = fs[i / parts % fs.size()];
        V<S> ls;
        for (uint64_t k = i % parts * PER; k < W.count() && k < (i % parts + 1) * PER; k++) ls.push_back(W.at(k));
        if (i % 37 == 0) sample(name + ": " + qs(ls[ls.size() / 2]));
        Inline I; I.conf = conf_seq("q", {f}); I.env = envs[i / parts / fs.size()];
        check_lines(w, name, I, {f}, ls);
    });
}
static Reg n01("N01", [] {
    rule_add("every word up to a length through inline-detox with a configuration");
    table_words("inline, safe: all words of at most 2 bytes", {rf_safe()}, Words(bytes_al(1, 255, false), 2));
    table_words("inline, safe: all words of representatives", {rf_safe()}, Words(chars("a &(._-b\x80\xc3\xe9\xff\x01\x7f~"), O.thorough ? 4 : 3));
});
static Reg n02("N02", [] {
    rule_add("every word up to a length through inline-detox with a configuration");
    plain_words("inline, wipeup: all words", {rf_wipe(false), rf_wipe(true)}, Words(chars("-_.#a \xc3"), O.thorough ? 7 : 5));
});
static Reg n03("N03", [] {
    rule_add("every word up to a length through inline-detox with a configuration");
    // an escape may give a newline, which is then part of the line's result: not among these
    plain_words("inline, uncgi: all words", {rf_uncgi()}, Words(chars("%+24fFgx "), O.thorough ? 6 : 5));
});
static V<V<std::pair<S, S>>> locale_envs()
{
    V<V<std::pair<S, S>>> v = {{}, {{"LC_ALL", "C.utf8"}}, {{"LC_ALL", "de_DE.utf8"}}, {{"LANG", "en_US.utf8"}}};
    if (!O.locpath.empty())
        for (const char *l : {"de_DE.ISO-8859-1", "tr_TR.ISO-8859-9", "tr_TR.UTF-8", "el_GR.ISO-8859-7", "ru_RU.KOI8-R", "pl_PL.ISO-8859-2", "ja_JP.EUC-JP"})
            v.push_back({{"LOCPATH", O.locpath}, {"LC_ALL", l}});
    return v;
}
static Reg n04("N04", [] {
    rule_add("every word up to a length through inline-detox, after a table was read, which takes the locale of the environment into use");
    auto envs = locale_envs();
    Words W(bytes_al(1, 255, false), 2);
    static const RTable none;
    uint64_t parts = (W.count() + PER - 1) / PER;
    family("inline, lower: all words of at most 2 bytes, every locale, with and without a table before", 2 * envs.size() * parts, [=](Worker &w, uint64_t i) {
        RSeq q;
        if (i % 2) q.push_back(with_file(w, R_SAFE, none));
        q.push_back(rf_lower());
        V<S> ls;
        uint64_t p = i / 2 % parts;
        for (uint64_t k = p * PER; k < W.count() && k < (p + 1) * PER; k++) ls.push_back(W.at(k));
        Inline I; I.conf = conf_seq("q", q); I.env = envs[i / 2 / parts];
        check_lines(w, "lower", I, q, ls);
    });
});
static Reg n05("N05", [] {
    rule_add("every word up to a length through inline-detox with a configuration, and the warning for names whose extension does not fit");
    for (int n : {0, 1, 2, 3, 5, 8, 13}) plain_words("inline, max_length " + std::to_string(n) + ": all words over a and .", {rf_max(n)}, Words(chars("a."), O.thorough ? 14 : 11));
    plain_words("inline, max_length without length: long names", {rf_max(0)}, Words({S(64, 'x'), S(60, 'y') + ".", ".tar", ".gz", "z"}, 6));
    Words W(chars("a."), 8);
    static const int ns[] = {1, 2, 3, 4, 5};
    family("inline, max_length: the warning", W.count() * 5, [=](Worker &w, uint64_t i) {
        int n = ns[i % 5]; S s = W.at(i / 5);
        S want = ref_maxlen(s, n);
        if (s == "." || s == "..") return;
        RSeq q = {rf_max(n)}; Inline I; I.conf = conf_seq("q", q);
        Result R; check_lines(w, "max_length " + std::to_string(n), I, q, {s}, &R);
        if (want.size() > (size_t)n && R.err.empty()) { Ev e(w, "max_length " + std::to_string(n)); e.fail(s, "is too long and was left alone without a warning"); }
    });
});
static const V<S> &utf_reps() { static V<S> v = chars("\x01\x2f\x41\x5f\x7f\x80\x8d\x9f\xa0\xbf\xc0\xc1\xc2\xc3\xdf\xe0\xe2\xed\xef\xf0\xf4\xf5\xf7\xf8\xfb\xfc\xfd\xfe\xff"); return v; }
static Reg n06("N06", [] {
    rule_add("every word up to a length through inline-detox with a configuration");
    table_words("inline, utf_8: all words of at most 3 bytes of 29 classes", {rf_utf8()}, Words(utf_reps(), 3));
    table_words("inline, utf_8: all words of at most 2 bytes", {rf_utf8()}, Words(bytes_al(1, 255, false), 2));
    V<RFilter> b = {rf_utf8()};
    uint64_t nv = nvariants(b), parts = 0x110000 / 4096;
    family("inline, utf_8: every code point", nv * parts, [=](Worker &w, uint64_t i) {
        S vn; RFilter f = variant(w, b, i / parts, &vn);
        if (i / parts > 0 && i % parts > 4 && i % parts % 16 && !O.thorough) return;
        V<S> ls;
        for (uint32_t v = i % parts * 4096; v < (i % parts + 1) * 4096; v++) if (v && v != '\n') ls.push_back("<" + enc(v, enc_min(v)) + ">");
        Inline I; I.conf = conf_seq("q", {f});
        check_lines(w, "utf_8, " + vn, I, {f}, ls);
    });
});
static Reg n07("N07", [] {
    rule_add("every word up to a length through inline-detox with a configuration");
    table_words("inline, iso8859_1: all words of at most 2 bytes", {rf_iso(), rf_cp1252()}, Words(bytes_al(1, 255, false), 2));
    table_words("inline, iso8859_1: all words of representatives", {rf_iso(), rf_cp1252()}, Words(chars("a &._-b\x80\x8d\x9f\xa0\xc3\xe9\xff\x01\x7f"), O.thorough ? 4 : 3));
});

// ---------------------------------------------------------------- N08
static Reg n08("N08", [] {
    RULE = "the built-in sequences through inline-detox: every word of representatives of all kinds of characters, every pair of bytes and every code point; the result against the composition of the model filters, against what makes a name safe, and against filtering it again";
    EXHAUSTIVE = true;
    static const V<S> seqs = {"default", "utf_8", "lower", "uncgi", "iso8859_1", "iso8859_1-legacy"};
    auto one = [](Worker &w, const S &seq, const V<S> &ls, bool idem) {
        Inline I; I.seq = seq;
        const RSeq &q = stock_seq(seq);
        V<S> out = check_lines(w, "sequence " + seq, I, q, ls);
        if (G->nviol || out.size() != ls.size()) return;
        Ev e(w, "sequence " + seq);
        for (size_t i = 0; i < out.size(); i++) {
            const S &o = out[i];
            if (o == "." || o == "..") continue;
            const char *bad = nullptr;
            if (!o.empty() && strchr("-_#", o[0])) bad = "starts with '-', '_' or '#'";
            for (size_t k = 0; k < o.size(); k++) {
                unsigned char c = o[k];
                if (c < 0x21 || c == 0x7f) bad = "has a control character or white space";
                else if (strchr("!\"$&'()*/:;<>?@[\\]`{|}", c)) bad = "has a character that is special to a shell";
                if (k && strchr("-_.", c) && strchr("-_.", o[k - 1])) bad = "has two adjacent separators";
            }
            if (!strncmp(seq.c_str(), "iso", 3) && !utf8_ok(o)) bad = "is not well-formed UTF-8";
            if (bad) { e.fail(ls[i], "gave " + qs(o) + ", which " + bad); return; }
        }
        if (!idem) return;
        V<S> ls2;
        for (auto &o : out) if (o != "." && o != "..") ls2.push_back(o);
        S data; for (auto &l : ls2) data += l + "\n";
        Result R = w.run(inline_run(w, I, data));
        if (R.out != data) {
            size_t k = 0; while (k < R.out.size() && k < data.size() && R.out[k] == data[k]) k++;
            size_t b = k; while (b && data[b - 1] != '\n') b--;
            e.fail(data.substr(b, data.find('\n', k) - b), "is a result of the sequence, and was changed by it: " + qs(R.out.substr(b, R.out.find('\n', k) - b)));
        }
    };
    auto fam = [&](const S &name, const Words &W) {
        uint64_t parts = (W.count() + PER - 1) / PER;
        family(name, seqs.size() * parts, [=](Worker &w, uint64_t i) {
            V<S> ls; uint64_t p = i / seqs.size();
            for (uint64_t k = p * PER; k < W.count() && k < (p + 1) * PER; k++) ls.push_back(W.at(k));
            if (p % 41 == 0 && i % 6 == 0) sample(qs(ls[ls.size() / 2]));
            one(w, seqs[i % seqs.size()], ls, i % seqs.size() < 3);
        });
    };
    fam("all words of at most 2 bytes", Words(bytes_al(1, 255, false), 2));
    V<S> ascii;
    for (int c = 1; c < 128; c++) if (c != '\n') ascii.push_back(S(1, (char)c));
    for (const char *x : {"\x80", "\xa0", "\xc3\xa9", "\xc2\x85", "\xe2\x80\xa8", "\xe9", "%2f", "%0a", "\xc0\x80", "\xf0\x9f\x8d\x95", "\xff"}) ascii.push_back(x);
    V<S> some = chars("aZ0 \t\x01\x7f!#$%&()*+,-./:;=[]^_{|}~\\'\"\x80\xe9");
    for (const char *x : {"\xc3\xa9", "\xe2\x80\xa8", "%2f"}) some.push_back(x);
    fam("all words of at most 3 tokens of 40", Words(some, 3));
    fam("all words of at most 4 tokens of 14", Words({"a", "-", "_", ".", "#", " ", "&", "(", "Z", "\xc3\xa9", "\xe9", "%2d", "%", "+"}, O.thorough ? 5 : 4));
    if (O.thorough) { fam("all words of at most 3 tokens of all kinds", Words(ascii, 3)); fam("all words of 4 tokens of 40", Words(some, 4)); }
    fam("separators, words of at most 9 tokens", Words(chars("-_.# a"), O.thorough ? 8 : 6));
    family("every code point", seqs.size() * 0x110000 / 4096, [=](Worker &w, uint64_t i) {
        V<S> ls; uint32_t p = i / seqs.size();
        for (uint32_t v = p * 4096; v < (p + 1) * 4096; v++) if (v && v != '\n') ls.push_back(v % 2 ? enc(v, enc_min(v)) : "a" + enc(v, enc_min(v)) + "-b");
        one(w, seqs[i % seqs.size()], ls, i % seqs.size() < 3);
    });
    family("lengths up to 250", seqs.size() * 8, [=](Worker &w, uint64_t i) {
        static const char *u[] = {"&", "a ", "(", "\xc3\xa9", "%20", "-_", ".", "A"};
        V<S> ls;
        for (int n = 0; n <= 250; n++) { S s; while ((int)s.size() < n) s += u[i / seqs.size()]; for (const char *p : {"", "#", "a"}) for (const char *q : {"", "-", ".x"}) ls.push_back(p + s + q); }
        one(w, seqs[i % seqs.size()], ls, i % seqs.size() < 3);
    });
});

// ---------------------------------------------------------------- N10
static V<RSeq> &history_seqs(Worker *w)
{
    static V<RSeq> v;
    if (v.empty() && w) {
        static const RTable t1 = {{{'a', "XYZ"}, {'b', ""}, {0xe9, "e"}, {0xc3a9, "?"}}, S("d")}, t2 = {{{0xe9, "<e9>"}, {0x20ac, "EUR"}, {'a', "A"}}, std::nullopt}, t3 = {{{0xe9, "<e9>"}, {0xa0, " "}}, S("<d>")};
        for (auto &s : stock()) v.push_back(s.seq);
        v.push_back({rf_wipe(false)}); v.push_back({rf_wipe(true)}); v.push_back({rf_max(0)}); v.push_back({rf_max(6)}); v.push_back({rf_max(9), rf_lower()});
        v.push_back({with_file(*w, R_SAFE, t1, "h1")}); v.push_back({with_file(*w, R_UTF8, t2, "h2")}); v.push_back({with_file(*w, R_ISO, t3, "h3")});
        v.push_back({with_file(*w, R_UTF8, t2, "h2"), rf_safe(), rf_wipe(true), rf_max(20)});
    }
    return v;
}
static const size_t NHIST = 20;
static Reg n10("N10", [] {
    RULE = "every sequence of lines of a run over representatives, long repetitions, every sequence of input files and of file arguments in several directories; every result against filtering that name alone";
    EXHAUSTIVE = true;
    static const V<S> reps = {"a b", "%41+", "\xc3\xa9\xa0", S(300, 'x') + " .t", "A-_.", "..", "ab.tar.gz", "\xff", "b\xe9\xe2\x82\xac", ""};
    int len = O.thorough ? 5 : 4;
    uint64_t per = nwords(reps.size(), len);
    family("all sequences of " + std::to_string(len) + " lines of 10", NHIST * per, [=](Worker &w, uint64_t i) {
        auto &qs_ = history_seqs(&w);
        if (i / per >= qs_.size()) return;
        const RSeq &q = qs_[i / per];
        V<S> ls; uint64_t k = i % per;
        for (int j = 0; j < len; j++) { ls.push_back(reps[k % reps.size()]); k /= reps.size(); }
        if (i % 19997 == 3) sample(joinargs(ls));
        Inline I; I.conf = conf_seq("q", q);
        check_lines(w, "a sequence of lines", I, q, ls);
    });
    family("a line repeated, then every other, for every number of repetitions", NHIST * reps.size() * 40, [=](Worker &w, uint64_t i) {
        auto &qs_ = history_seqs(&w);
        uint64_t s = i / 40 / reps.size();
        if (s >= qs_.size()) return;
        V<S> ls; int n = i % 40; n = n < 20 ? n : n < 30 ? n * n : n * n + 60 * (n - 29);
        for (int k = 0; k < n; k++) ls.push_back(reps[i / 40 % reps.size()]);
        for (auto &r : reps) { ls.push_back(r); ls.push_back(reps[i / 40 % reps.size()]); }
        Inline I; I.conf = conf_seq("q", qs_[s]);
        check_lines(w, "a repeated line", I, qs_[s], ls);
    });
    family("lines of every length, growing and shrinking", NHIST * 2, [=](Worker &w, uint64_t i) {
        auto &qs_ = history_seqs(&w);
        if (i / 2 >= qs_.size()) return;
        V<S> ls;
        for (int k = 0; k <= 500; k++) { S s; int n = i % 2 ? 500 - k : k; while ((int)s.size() < n) s += k % 3 ? "a b\xc3\xa9%41" : "Z-"; ls.push_back(s.substr(0, n)); ls.push_back(S(500 - n, 'q')); }
        Inline I; I.conf = conf_seq("q", qs_[i / 2]);
        check_lines(w, "lines of growing and shrinking length", I, qs_[i / 2], ls);
    });
    // several input files
    static const V<S> contents = {"a b\n%41\n", "", S(1500, 'y') + "\n", "last without newline", "\xc3\xa9\n..\n-x\n"};
    family("every sequence of at most 3 input files", NHIST * 156, [=](Worker &w, uint64_t i) {
        auto &qs_ = history_seqs(&w);
        if (i / 156 >= qs_.size()) return;
        const RSeq &q = qs_[i / 156];
        uint64_t k = i % 156; int n = 0; for (uint64_t c = 1; k >= c; c *= 5) { k -= c; n++; }
        Inline I; I.conf = conf_seq("q", q); S want;
        bool charwise = true;
        for (auto &f : q) if (f.k == R_WIPEUP || f.k == R_MAXLEN || f.k == R_UNCGI) charwise = false;
        for (int j = 0; j < n; j++) {
            const S &c = contents[k % 5]; k /= 5;
            if (c.size() > 1000 && !charwise) return;
            S f = w.dir + "/in" + std::to_string(j);
            write_file(f, c); I.files.push_back(f);
            for (size_t p = 0; p < c.size();) { size_t z = c.find('\n', p); bool nl = z != S::npos; if (!nl) z = c.size(); want += ref_line(q, c.substr(p, z - p)); if (nl) want += "\n"; p = z + 1; }
        }
        if (!n) return;
        Ev e(w, "input files");
        Result R = w.run(inline_run(w, I, "not to be read\n"));
        e.same(joinargs(I.files) + "\n" + I.conf, R.out, want);
    });
    // renaming: the same and different names in several directories, arguments in every order
    static const V<Ent> tree = {{"d1", 'd', ""}, {"d1/a b", 'f', "1"}, {"d1/%41+", 'f', "2"}, {"d1/x x x.y", 'f', "3"}, {"d2", 'd', ""}, {"d2/a b", 'f', "4"}, {"d2/-_z", 'f', "5"}, {"d2/\xc3\xa9 &", 'f', "6"}, {"e e", 'f', "7"}, {"(q)", 'f', "8"}};
    static const V<S> args = {"d1", "d2", "d1/a b", "d2/a b", "e e", "(q)", ".", "missing", "d2/\xc3\xa9 &"};
    static const V<S> sq = {"default", "utf_8", "lower", "uncgi", "iso8859_1", "iso8859_1-legacy"};
    uint64_t na = nwords(args.size(), O.thorough ? 4 : 3);
    family("every sequence of file arguments", na * sq.size(), [=](Worker &w, uint64_t i) {
        Scn s; s.world = tree; s.args.clear(); s.seq = sq[i % sq.size()]; s.flags = {i / sq.size() % 2 ? "-r" : "-v"};
        uint64_t k = i / sq.size();
        for (int j = 0; j < (O.thorough ? 4 : 3); j++) { s.args.push_back(args[k % args.size()]); k /= args.size(); }
        s.order = ORDER_SORTED;
        if (i % sq.size() > 2)      // these sequences change their results: no name may be reached twice
            for (size_t a = 0; a < s.args.size(); a++) for (size_t b = 0; b < s.args.size(); b++)
                if (a != b && (s.args[a] == s.args[b] || s.args[b].find(s.args[a] + "/") == 0 || s.args[a] == ".")) return;
        explore_scn(w, s, nullptr, [](Ctx &c) { S e = check_changes_exact(c); return e.empty() ? check_model(c) : e; });
    });
});

// ---------------------------------------------------------------- N11
static Reg n11("N11", [] {
    RULE = "every sequence of up to 3 filters out of 15 configured ones, and chains of up to 600, through inline-detox with names on which the order matters; against the composition of the model filters";
    EXHAUSTIVE = true;
    static const RTable rot = {{{'a', "b"}, {'b', "c"}, {'c', "a"}, {'.', "D.t"}, {'~', "."}}, std::nullopt}, grow = {{{'a', "bb"}, {'b', ""}, {'_', "a."}}, std::nullopt},
        u1 = {{{0xe9, "A_"}, {0x4e00, "%41"}, {'a', "\xc3\xa9"}}, std::nullopt}, i1 = {{{0xc3, "c"}, {0xa9, "a"}}, std::nullopt};
    auto pool = [](Worker &w) -> V<RFilter> {
        return {rf_safe(), with_file(w, R_SAFE, rot, "rot"), with_file(w, R_SAFE, grow, "grow"), rf_wipe(false), rf_wipe(true), rf_uncgi(), rf_lower(), rf_max(5), rf_max(8), rf_max(0),
            rf_utf8(), with_file(w, R_UTF8, u1, "u1"), rf_iso(), rf_cp1252(), with_file(w, R_ISO, i1, "i1")};
    };
    const uint64_t NP = 15;
    static V<S> lines;
    Words W({"a", "b", "C", "%41", "%2b", "\xc3\xa9", "-", "_", ".", " ", "+", "#"}, 2);
    for (uint64_t i = 0; i < W.count(); i++) lines.push_back(W.at(i));
    for (const char *x : {"a b.c", "abcabc.tar.gz", "%2541", "-_-a__b..c", "\xe9 \xe4\xb8\x80", "aaaa.b", "C%20C", "\x80\x95", "a_b_a_b_a_b", "A+B+C+D", "x.aaaa", "%2e", "%2E%2e", "%2", "~", "~~", "%7e", "a~", "/", "%2fa", "_%41_", "%25%34%31"}) lines.push_back(x);
    lines.push_back(S(260, 'a')); lines.push_back(S(250, 'B') + " b .abc");
    for (int len = 0; len <= (O.thorough ? 4 : 3); len++)
        family("every sequence of " + std::to_string(len) + " filters", nwords(NP, len), [=](Worker &w, uint64_t i) {
            auto p = pool(w); RSeq q; uint64_t k = i;
            for (int j = 0; j < len; j++) { q.push_back(p[k % NP]); k /= NP; }
            if (i % 997 == 5) sample(conf_seq("q", q));
            if (q.empty()) return;
            Inline I; I.conf = conf_seq("q", q);
            check_lines(w, "sequence of filters", I, q, lines);
        });
    family("chains of up to 600 filters", 145 * 6, [=](Worker &w, uint64_t i) {
        auto p = pool(w); RSeq q; int n = i / 6 + 1; if (n > 140) n = (const int[]){200, 255, 257, 300, 600}[n - 141];
        if (n > 60) p[2] = p[11] = p[1];        // the tables that let a name grow, without end
        for (int j = 0; j < n; j++) switch (i % 6) {
            case 0: q.push_back(p[1]); break;
            case 1: q.push_back(rf_max(60 + n - j)); break;
            case 2: q.push_back(p[j % NP]); break;
            case 3: q.push_back(p[(j * 7 + 3) % NP]); break;
            case 4: q.push_back(j == n - 1 ? p[1] : rf_wipe(j % 2)); break;
            case 5: q.push_back(j % 2 ? p[1] : rf_lower()); break;
        }
        Inline I; I.conf = conf_seq("q", q);
        V<S> ls = lines; for (int m = 40; m < 130; m++) ls.push_back(S(m, 'a' + m % 26) + ".e");
        check_lines(w, "chain of filters", I, q, ls);
    });
    // tables that have the same codes, at the same and at different places, one after the other
    family("two tables of the same codes", 41 * 41, [=](Worker &w, uint64_t i) {
        static const V<unsigned> K = {38, 538, 1038, 39};
        auto table = [&](uint64_t x, bool turn) {
            RTable t; S text = "start\n"; V<unsigned> left = K; int l = x < 1 ? 0 : x < 5 ? 1 : x < 17 ? 2 : 3; x -= l == 0 ? 0 : l == 1 ? 1 : l == 2 ? 5 : 17;
            for (int j = 0; j < l; j++) {
                unsigned c = left[x % left.size()]; x /= left.size(); left.erase(std::find(left.begin(), left.end(), c));
                unsigned next = K[(std::find(K.begin(), K.end(), c) - K.begin() + 1) % 4];
                S v = turn ? enc(next, enc_min(next)) : "<" + std::to_string(c) + ">"; if (v == "'") v = "\"'\"";
                text += std::to_string(c) + " " + v + "\n"; t.rows[c] = v == "\"'\"" ? S("'") : v;
            }
            S f = w.dir + (turn ? "/A.tbl" : "/B.tbl"); write_file(f, text + "end\n");
            return std::pair(t, f);
        };
        auto A = table(i % 41, true), B = table(i / 41, false);
        RFilter a = {R_UTF8, &A.first, 0, A.second, true}, b = {R_UTF8, &B.first, 0, B.second, true};
        static V<S> ls; if (ls.empty()) { V<S> c; for (unsigned k : K) c.push_back(enc(k, enc_min(k))); Words W(c, 2); for (uint64_t j = 0; j < W.count(); j++) ls.push_back(W.at(j)); }
        V<RSeq> qs_ = {{a, b}};
        if (i / 41 == 0) for (auto &o : {rf_safe(), rf_utf8(), rf_iso()}) { qs_.push_back({a, o}); qs_.push_back({o, a}); qs_.push_back({{R_SAFE, a.t, 0, a.tname, true}, o}); qs_.push_back({o, {R_SAFE, a.t, 0, a.tname, true}, o}); }
        for (auto &q : qs_) { Inline I; I.conf = conf_seq("q", q); check_lines(w, "two tables", I, q, ls); }
    });
    // every byte, kept by one table and changed by the next
    family("tables that keep what the next changes", 8, [=](Worker &w, uint64_t i) {
        RTable id; S text = "start\n"; int step = i % 4;
        for (int c = 1; c < 128; c++) { int d = step == 0 ? c : step == 1 ? 128 - c : (c * 37) % 127 + 1; if (d == '\n' || d == '"') continue; id.rows[d] = S(1, (char)d); text += std::to_string(d) + " \"" + S(1, (char)d) + "\"\n"; }
        if (step == 3) { text = "start\n38 \"&\"\nend\n"; id.rows = {{38, "&"}}; }
        S f = w.dir + "/t.tbl"; write_file(f, text);
        RFilter a = {i / 4 ? R_SAFE : R_UTF8, &id, 0, f, true};
        V<S> ls; for (int c = 1; c < 128; c++) if (c != '\n' && c != '.') { ls.push_back(S(1, (char)c)); ls.push_back(S(3, (char)c)); }
        for (auto &q : V<RSeq>{{a, rf_safe()}, {rf_safe(), a}, {a, rf_utf8(), a, rf_safe()}}) { Inline I; I.conf = conf_seq("q", q); check_lines(w, "a table that keeps what the next changes", I, q, ls); }
    });
    family("several sequences in one configuration, each selected", 12 * 12, [=](Worker &w, uint64_t i) {
        auto p = pool(w); S conf; RSeq sel; int n = i / 12 + 1, want = i % 12;
        if (want >= n) return;
        for (int j = 0; j < n; j++) { RSeq q = {p[(j * 4 + n) % NP], p[(j * 5 + 1) % NP], p[(j + 2) % NP]}; conf += conf_seq("s" + std::to_string(j), q); if (j == want) sel = q; }
        Inline I; I.conf = conf; I.seq = "s" + std::to_string(want);
        check_lines(w, "one of several sequences", I, sel, lines);
    });
    // renaming goes through the same composition
    V<S> names = {"a b", "%41%2b", "C\xc3\xa9", "-_a__b", "abcabc.tar.gz", "\xe9 x"};
    family("renaming with every sequence of 2 filters", NP * NP, [=](Worker &w, uint64_t i) {
        auto p = pool(w); RSeq q = {p[i % NP], p[i / NP]};
        Scn s; s.conf = conf_seq("q", q); s.seq = "q"; s.rseq = &q; s.ignore = {}; s.order = ORDER_SORTED;
        for (auto &n : names) s.world.push_back({n, 'f', n});
        explore_scn(w, s, nullptr, [](Ctx &c) { S e = check_changes_exact(c); return e.empty() ? check_model(c) : e; });
    });
});

// ---------------------------------------------------------------- N12
static Reg n12("N12", [] {
    RULE = "every filter and stock sequence after a table was read, with every word of at most two bytes in every locale; tables with every byte in their replacements, and with every spelling of their keywords, read in every locale; a set of environments in filtering, renaming and listing; against the results of the models, which know no locale and no environment";
    EXHAUSTIVE = true;
    typedef V<std::pair<S, S>> Env;
    static V<Env> envs = locale_envs();
    static const RTable none;
    static const V<S> sq = {"default", "utf_8", "lower", "uncgi", "iso8859_1", "iso8859_1-legacy"};
    static const V<RFilter> fl = {rf_uncgi(), rf_wipe(false), rf_wipe(true), rf_max(5), rf_safe(), rf_iso(), rf_cp1252(), rf_utf8(), rf_lower()};
    // what to run: the stock sequences by name, each filter alone and after a table of a user
    static const uint64_t NW = 6 + 9;
    auto seq_of = [](Worker &w, uint64_t k, Inline &I) {
        if (k < 6) { I.seq = sq[k]; return stock_seq(sq[k]); }
        RSeq q = {with_file(w, R_SAFE, none), fl[k - 6]};
        I.conf = conf_seq("q", q);
        return q;
    };
    static Words W(bytes_al(1, 255, false), 2);
    uint64_t parts = (W.count() + PER - 1) / PER;
    family("every locale: all words of at most 2 bytes", envs.size() * NW * parts, [=](Worker &w, uint64_t i) {
        Inline I; RSeq q = seq_of(w, i / parts % NW, I); I.env = envs[i / parts / NW];
        V<S> ls; uint64_t p = i % parts;
        for (uint64_t k = p * PER; k < W.count() && k < (p + 1) * PER; k++) { S l = W.at(k); if (q.back().k == R_UNCGI && l.find('%') != S::npos) l += "41"; ls.push_back(l); }
        if (i % 97 == 3) sample(joinargs({I.env.empty() ? S("no locale") : I.env.back().second}) + ": " + qs(ls[ls.size() / 2]));
        check_lines(w, "in a locale", I, q, ls);
    });
    // characters around words
    static V<S> tok = chars("aI-_ .#\xc3\xa9\x80\xa0\xff\xdd");
    static Words X(tok, O.thorough ? 5 : 4);
    uint64_t xparts = (X.count() + PER - 1) / PER;
    family("every locale: all words of at most 4 representatives", envs.size() * NW * xparts, [=](Worker &w, uint64_t i) {
        Inline I; RSeq q = seq_of(w, i / xparts % NW, I); I.env = envs[i / xparts / NW];
        V<S> ls; uint64_t p = i % xparts;
        for (uint64_t k = p * PER; k < X.count() && k < (p + 1) * PER; k++) ls.push_back(X.at(k));
        check_lines(w, "in a locale", I, q, ls);
    });
    static V<S> cps; for (uint32_t v = 0x80; v < 0x3000; v++) cps.push_back(enc(v, enc_min(v)));
    family("every locale: all characters to U+3000", envs.size() * NW * 3, [=](Worker &w, uint64_t i) {
        Inline I; RSeq q = seq_of(w, i / 3 % NW, I); I.env = envs[i / 3 / NW];
        V<S> ls(cps.begin() + cps.size() * (i % 3) / 3, cps.begin() + cps.size() * (i % 3 + 1) / 3);
        check_lines(w, "in a locale", I, q, ls);
    });
    // tables, the second read in the locale that the first took into use
    family("every locale: tables with every byte in a replacement", envs.size() * 2 * 2 * 3, [=](Worker &w, uint64_t i) {
        RFilter f = {i % 2 ? R_SAFE : R_UTF8}; bool quoted = i / 2 % 2; int shape = i / 4 % 3;
        RTable t; S text = "start\n"; V<S> ls;
        int code = 0x100;
        for (int c = 1; c < 256; c++) {
            if (strchr("\n\r \t\v\f\"'#", c) || c == '\\') continue;
            S v = shape == 0 ? S(1, (char)c) : shape == 1 ? "x" + S(1, (char)c) + "y" : S(2, (char)c);
            unsigned k = f.k == R_SAFE ? c : code++;
            if (f.k == R_SAFE && c == '.') continue;
            t.rows[k] = v; text += std::to_string(k) + (quoted ? " \"" + v + "\"" : "\t" + v) + "\n";
            ls.push_back(k < 256 ? S(1, (char)k) + "Q" : enc(k, enc_min(k)) + "Q");
        }
        if (f.k == R_SAFE) { t.rows['Q'] = "R"; text += "81 R\n"; }
        write_file(w.dir + "/b.tbl", text + "end\n");
        f.tfile = true; f.tname = w.dir + "/b.tbl"; f.t = &t;
        for (bool first : {false, true}) {
            RSeq q; if (first) q.push_back(with_file(w, R_SAFE, none)); q.push_back(f);
            Inline I; I.conf = conf_seq("q", q); I.env = envs[i / 12];
            check_lines(w, "a table read in a locale", I, q, ls);
        }
    });
    family("every locale: keywords and numbers of tables", envs.size() * 12, [=](Worker &w, uint64_t i) {
        static const char *kw[][3] = {{"start", "end", "default"}, {"START", "END", "DEFAULT"}, {"Start", "End", "Default"}};
        static const char *num[][2] = {{"105", "73"}, {"0x69", "0x49"}, {"0X69", "0X49"}, {"0151", "0111"}};
        auto &k = kw[i % 3]; auto &n = num[i / 3 % 4];
        RTable t; t.rows['i'] = "<i>"; t.rows['I'] = "<I>"; t.def = S("dflt");
        S text = S(k[2]) + " dflt\n" + k[0] + "\n" + n[0] + " <i>\n" + n[1] + " <I>\n" + k[1] + "\n";
        write_file(w.dir + "/k.tbl", text);
        RFilter f = {R_UTF8}; f.tfile = true; f.tname = w.dir + "/k.tbl"; f.t = &t;
        RSeq q = {with_file(w, R_SAFE, none), f};
        Inline I; I.conf = conf_seq("q", q); I.env = envs[i / 12];
        check_lines(w, "a table read in a locale", I, q, {"i", "I", "aIi\xc4\xb0\xc4\xb1", "\xe4\xb8\x80", "plain"});
    });
    // numbers and keywords of configurations, and options, in every locale
    family("every locale: renaming", envs.size() * 6 * 2, [=](Worker &w, uint64_t i) {
        Scn s; s.seq = sq[i % 6]; s.order = i / 6 % 2 ? ORDER_REVERSE : ORDER_SORTED; s.env = envs[i / 12];
        s.world = {{"I i", 'f', "1"}, {"\xc3\x84 x", 'f', "2"}, {"\xe4 y", 'f', "3"}, {"D I", 'd', ""}, {"D I/\xc4\xb0 .TXT", 'f', "4"}, {"%49 z", 'f', "5"}, {"a\xa0" "b", 'f', "6"}, {"a\xc2\xa0" "c", 'f', "7"}};
        explore_scn(w, s, nullptr, [](Ctx &c) { S e = check_changes_exact(c); return e.empty() ? check_model(c) : e; });
    });
    // environments
    static V<Env> any;
    static const V<S> vals = {"", "1", "C", "de_DE.UTF-8", "lower", "/nonexistent", S(3000, 'x')};
    for (const char *n : {"LANG", "LANGUAGE", "LC_ALL", "LC_CTYPE", "LC_COLLATE", "LC_MESSAGES", "LC_NUMERIC", "TZ", "COLUMNS", "TERM", "PATH", "TMPDIR", "USER", "LOGNAME", "SHELL", "PWD", "OLDPWD", "POSIXLY_CORRECT", "DETOX", "DETOX_OPTS", "DETOX_OPTIONS", "DETOXRC", "DETOX_CONFIG", "DETOX_TABLE", "DETOX_DEBUG", "DETOX_VERBOSE", "DETOX_LOWER", "detox_sequence", "SEQUENCE", "XDG_CONFIG_DIRS", "XDG_DATA_HOME", "XDG_DATA_DIRS", "EDITOR", "PAGER", "IFS", "ENV", "BASH_ENV"})
        for (auto &v : vals) any.push_back({{n, v}});
    // whatever variable it asks for, besides those that select configuration and sequence
    static const V<S> given = {"", "0", "1", "yes", "no", "C", "en_US.UTF-8", "tr_TR.UTF-8", "lower", "default", "utf_8", ".", "/nonexistent", "a b", "-v", "8", "100000", S(3000, 'x')};
    // of these every character alone, words of up to 3 representatives and names of every length
    static const V<S> usual = [] {
        V<S> v = {"a b", "%41+", "I&\xc3\x84", "\xe4\xa0", "x__-_y.TXT.gz", "-#a", "\xe2\x82\xac", "(p)", "abcdefgh.ij", S(300, 'q') + " r"};
        Words t(chars("aIZ-_ .#%4+&\xc3\xa9\x80\xff"), 3); for (uint64_t k = 0; k < t.count(); k++) { S l = t.at(k); if (l.find('%') == S::npos) v.push_back(l); }
        for (int c = 1; c < 256; c++) if (c != 10 && c != '%') v.push_back(S(1, (char)c) + "Q");
        for (int n = 1; n <= 280; n++) { S l; while ((int)l.size() < n) l += "Name (1).tar"[l.size() % 12]; v.push_back(l); }
        for (uint32_t c = 0x80; c < 0x3000; c += 13) v.push_back(enc(c, enc_min(c)));
        return v;
    }();
    auto others = [](const Result &R) { V<S> v; for (auto &n : R.asked) if (n != "HOME" && n != "XDG_CONFIG_HOME" && n != "DETOX_SEQUENCE") v.push_back(n); return v; };
    family("variables that are asked for: filtering", NW * 2, [=](Worker &w, uint64_t i) {
        Inline I; RSeq q = seq_of(w, i / 2, I); I.as_detox = i % 2;
        Result R; check_lines(w, "asking for variables", I, q, usual, &R);
        if (i == 0) { S t; for (auto &n : R.asked) t += " " + n; sample("asked for:" + t); }
        for (auto &n : others(R)) for (auto &v : given) { I.env = {{n, v}}; check_lines(w, "with a variable that was asked for", I, q, usual); }
    });
    family("variables that are asked for: renaming", 6 * 4, [=](Worker &w, uint64_t i) {
        static const V<V<S>> fl = {{"-r"}, {"-v", "-r", "--special"}, {}, {"-n", "-r"}};
        Scn s; s.seq = sq[i % 6]; s.order = ORDER_SORTED; s.flags = fl[i / 6]; bool dry = i / 6 == 3;
        s.world = {{"I i", 'f', "1"}, {"\xc3\x84 x", 'f', "2"}, {"D I", 'd', ""}, {"D I/\xc4\xb0 .TXT", 'f', "4"}, {".h a", 'f', "5"}, {"l k", 'l', "I i"}, {"p q", 'p', ""}, {"c d", 'f', "6"}, {"c_d", 'f', "7"}, {"{arch}", 'd', ""}, {"{arch}/x y", 'f', "8"}};
        s.args = {".", "D I", "missing"};
        V<S> ask;
        auto ok = [dry](Ctx &c) { S e = check_changes_exact(c); return !e.empty() ? e : dry ? c.changes.empty() ? S() : S("a dry run renamed") : check_model(c); };
        explore_scn(w, s, nullptr, [&](Ctx &c) { ask = others(*c.R); return ok(c); });
        for (auto &n : ask) for (auto &v : given) { s.env = {{n, v}}; explore_scn(w, s, nullptr, ok); }
    });
    family("environments: filtering", any.size() * NW, [=](Worker &w, uint64_t i) {
        Inline I; RSeq q = seq_of(w, i % NW, I); I.env = any[i / NW];
        if (i % 397 == 3) sample(I.env[0].first + "=" + qs(I.env[0].second.substr(0, 20)));
        static V<S> ls; if (ls.empty()) { for (auto &x : V<S>{"a b", "%41+", "I&\xc3\x84", "\xe4\xa0", "x__-_y.TXT.gz", "-#a", "\xe2\x82\xac", "(p)", "abcdefgh.ij"}) for (auto &y : V<S>{"", " ", "Z"}) ls.push_back(x + y); for (int n = 1; n < 8; n++) ls.push_back(S(n, 'I')), ls.push_back(S(n, ' ') + "b"); for (int n = 30; n < 280; n += 50) ls.push_back(S(n, 'K') + ".x y"); }
        check_lines(w, "with an environment variable", I, q, ls);
    });
    family("environments: renaming", any.size() * 2, [=](Worker &w, uint64_t i) {
        Scn s; s.seq = i % 2 ? "lower" : "default"; s.order = ORDER_SORTED; s.env = any[i / 2];
        s.world = {{"I i", 'f', "1"}, {"\xc3\x84 x", 'f', "2"}, {"D I", 'd', ""}, {"D I/\xc4\xb0 .TXT", 'f', "4"}, {".h a", 'f', "5"}, {"l k", 'l', "I i"}, {"p q", 'p', ""}};
        s.args = {".", "D I"};
        explore_scn(w, s, nullptr, [](Ctx &c) { S e = check_changes_exact(c); return e.empty() ? check_model(c) : e; });
    });
});
