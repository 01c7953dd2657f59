// Work: how often a run looks at what it is given.
#include "fsfam.hpp"

// entries in a directory and, with -r, below it
static long below(const Ctx &c, uint64_t d, bool recurse)
{
    auto it = c.a.dirs.find(d); long n = 1;
    if (it == c.a.dirs.end()) return n;
    for (auto &e : it->second) { n++; if (recurse && c.type(e.second) == 'd') n += below(c, e.second, true); }
    return n;
}
static S check_work(Ctx &c)
{
    if (c.R->timed_out) return "does not end";
    if (c.R->signaled) return "ended by a signal";
    Model m{&c.a, &c.o};
    long n = 0; int dirs = 0;
    for (auto &arg : plain_args(*c.s)) {
        uint64_t p, ino; S b; n++;
        if (arg.empty() || !m.resolve(c.a.dirs, c.T, arg, p, b, ino, "")) continue;
        if (c.type(ino) == 'd' || ino == c.T) { n += below(c, ino, c.o.recurse); dirs++; }
    }
    // 10 suffice for a directory that is renamed; some more for other ways to do it
    long most = 80 + 16 * n;
    if (c.R->ncalls > most) return std::to_string(c.R->ncalls) + " calls for " + std::to_string(n) + " arguments and entries";
    if (c.R->max_listed > dirs) return "a directory was listed " + std::to_string(c.R->max_listed) + " times, " + std::to_string(dirs) + " of the arguments are directories";
    return "";
}
static Reg w01("W01", [] {
    fs_rule("trees, chains of directories, lists of arguments, numbers and depths of entries, of refusals and of hard and symbolic links, in every listing order, with listings that return renamed entries again, and with calls that keep failing: every directory is listed once for each argument through which it is reached, and there are no more than 16 calls for each entry");
    static const V<V<S>> FL = {{"-r"}, {}, {"-r", "--special"}, {"-n", "-r"}, {"-v", "-r"}};
    auto fn = [](Worker &w, const Scn &s) { explore_scn(w, s, nullptr, check_work); };
    auto again = [](Worker &w, const Scn &s) { for (auto o : {ORDER_SORTED, ORDER_REVERSE}) for (int a = 1; a <= 2; a++) explore_scn(w, s, [=](HookArea &h) { h.again = a; h.order = o; }, check_work); };
    fam_small("one directory, up to 2 entries", 12, "fdlhL", 1, 2, FL, fn);
    fam_small("one directory, 3 entries", O.thorough ? 8 : 5, "fdL", 3, 3, {{"-r"}, {"-r", "--special"}}, fn);
    fam_small("listed again", 8, "fdL", 1, 2, {{"-r"}, {"-r", "--special"}}, again);
    fam_deep("chain of 2 directories", 2, {{"-r"}, {}}, fn);
    fam_deep("chain of 3 directories", O.thorough ? 3 : 2, {{"-r", "-n"}}, fn);
    fam_args("one argument", 1, FL, fn);
    fam_args("two arguments", 2, {{"-r"}, {"-r", "--special"}}, fn);
    if (O.thorough) fam_args("three arguments", 3, {{"-r"}}, fn);
    fam_sizes({{"-r"}, {"-r", "--special"}}, fn);
    static const V<V<S>> rf = {{"-r"}, {"-n", "-r"}};
    fam_refused(rf, fn);
    fam_many("numbers of entries", {1, 2, 3, 15, 16, 17, 31, 32, 33, 64, 100, 257, 1025}, {{"-r"}, {"-v"}}, [](Worker &w, const Scn &s) { for (auto o : {ORDER_SORTED, ORDER_REVERSE}) for (int a = 0; a <= 2; a += 2) explore_scn(w, s, [=](HookArea &h) { h.order = o; h.again = a; }, check_work); });
    // names whose filtered form is filtered again when it is seen again, for ever or for a while
    static const V<S> grow = {"%2525252541", "%25%32%35", "a%2541", "A", "%61", "a b c d", "--__--", "x"};
    static const V<S> seqs = {"uncgi-only", "lower", "utf_8"};
    for (auto &q : seqs) fam_small("listed again, " + q, 8, "fd", 1, 2, {{"-r"}}, again, q, &grow);
    // links to directories above, many of them: not followed
    family("links to directories above", 12 * 6, [](Worker &w, uint64_t i) {
        Scn s; s.order = i % 2 ? ORDER_SORTED : ORDER_REVERSE; int links = i / 2 % 6 + 1, depth = i / 12 + 1; S at;
        s.flags = i % 4 < 2 ? V<S>{"-r"} : V<S>{"-r", "--special"};
        for (int d = 0; d < depth; d++) {
            for (int l = 0; l < links; l++) s.world.push_back({at + "l " + std::to_string(l), 'l', l % 3 == 0 ? ".." : l % 3 == 1 ? "." : d ? "../.." : "../T"});
            at += "d d"; s.world.push_back({at, 'd', ""}); at += "/";
        }
        s.world.push_back({at + "f f", 'f', ""});
        explore_scn(w, s, nullptr, check_work);
        s.args = {"d d", "l 0", "./l 0", "."};
        explore_scn(w, s, nullptr, check_work);
    });
    // broad and deep at once, with names that are good, to be changed, and taken
    family("broad and deep", 3 * 4 * 5, [](Worker &w, uint64_t i) {
        Scn s; s.order = ORDER_SORTED; s.flags = {"-r"}; int kind = i % 3, broad = i / 3 % 4 + 1, deep = i / 12 + 1; V<S> level = {""};
        for (int d = 0; d < deep; d++) {
            V<S> next;
            for (auto &at : level) for (int b = 0; b < broad; b++) {
                S n = at + (kind ? "d " : "d_") + std::to_string(b); s.world.push_back({n, 'd', ""});
                if (kind == 2) s.world.push_back({at + "d_" + std::to_string(b), 'f', ""});
                next.push_back(n + "/");
            }
            level = next; if (level.size() > 1300) break;
        }
        for (auto &at : level) s.world.push_back({at + "f f", 'f', ""});
        explore_scn(w, s, nullptr, check_work);
        s.flags = {"-r", "-n"}; explore_scn(w, s, nullptr, check_work);
        s.flags = {}; explore_scn(w, s, nullptr, check_work);
    });
    // failing calls
    for (int st = 0; st <= 2; st++) {
        auto keeps = [st](Worker &w, const Scn &s) { explore_scn(w, s, [st](HookArea &h) { h.faults = 1; h.more_errnos = 1; h.sticky = st; h.order = ORDER_SORTED; }, check_work); };
        S what = st == 0 ? ", a call that fails" : st == 1 ? ", a call that keeps failing" : ", a call that always fails";
        fam_small("one directory, 1 or 2 entries" + what, st ? 6 : 5, "fdh", 1, 2, {{"-r"}}, keeps);
        fam_deep("chain of directories" + what, O.thorough ? 2 : 1, {{"-r"}}, keeps);
        fam_args("one argument" + what, 1, {{"-r"}}, keeps);
    }
});
