// What detox's objects call instead of libc (objcopy --redefine-syms, see lib/build.py).
#include "mc.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <strings.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <algorithm>
#include <unordered_map>

static inline bool on() { return H && H->active; }

static int choose(ChoiceKind k, int n)
{
    if (n <= 1) return 0;
    if (H->nch >= (int)(sizeof H->ch / sizeof H->ch[0])) { H->overflow = 1; return 0; }
    int i = H->nch++, v = 0;
    if (i < H->nprefix) { v = H->prefix[i]; if (v >= n) { H->diverged = 1; v = 0; } }
    H->ch[i] = {(uint16_t)v, (uint16_t)n, (uint8_t)k};
    return v;
}
static void note(const char *op, const char *a, const char *b, int rc)
{
    int e = errno;
    uint64_t h = mix(mix(mix(hstr(op), hstr(a ? a : "")), hstr(b ? b : "")), rc < 0 ? 1000 + e : 1);
    H->trace_hash = mix(H->trace_hash, h);
    if (seen_new(mix(H->base, H->trace_hash))) G->states++;
    if (H->ntrace + 1200 < sizeof H->trace) {
        S t = S("  ") + op;
        if (a) t += " " + qs(a);
        if (b) t += " " + qs(b);
        if (rc < 0) t += S(" = ") + strerrorname_np(e);
        t += "\n";
        if (t.size() < 1200) { memcpy(H->trace + H->ntrace, t.data(), t.size()); H->ntrace += t.size(); }
    }
    errno = e;
}
static const char *redir(const char *p, S &buf)
{
    if (!p || !H->root[0] || p[0] != '/') return p;
    for (const char *d : {"/etc/", "/usr/", "/opt/dtx/"})
        if (!strncmp(p, d, strlen(d))) { buf = S(H->root) + p; return buf.c_str(); }
    return p;
}
static const char *basename_of(const char *p) { const char *s = strrchr(p, '/'); return s ? s + 1 : p; }
static S dirname_of(const char *p) { const char *s = strrchr(p, '/'); return s ? (s == p ? S("/") : S(p, s - p)) : S("."); }

// case-insensitive lookup: the name of the entry that path means, or path itself
static S fold(const char *p)
{
    if (!H->casefold || !p) return p ? p : "";
    S r; const char *q = p;
    if (*q == '/') { r = "/"; while (*q == '/') q++; }
    while (*q) {
        const char *e = strchrnul(q, '/');
        S comp(q, e - q), dir = r.empty() ? S(".") : r;
        struct stat st;
        if (!comp.empty() && comp != "." && comp != ".." && lstat((r + comp).c_str(), &st) < 0 && errno == ENOENT) {
            if (DIR *d = opendir(dir.c_str())) {
                while (dirent *x = readdir(d)) if (foldcase(x->d_name) == foldcase(comp)) { comp = x->d_name; break; }
                closedir(d);
            }
        }
        r += comp;
        while (*e == '/') { if (r.empty() || r.back() != '/') r += '/'; e++; }
        q = e;
    }
    return r;
}

static void do_action(const Action &x)
{
    auto ino = [](const S &p) -> uint64_t { struct stat st; return lstat(p.c_str(), &st) == 0 ? st.st_ino : 0; };
    auto dir = [](const S &p) -> uint64_t { struct stat st; return stat(dirname_of(p.c_str()).c_str(), &st) == 0 ? st.st_ino : 0; };
    bool ok = false;
    HookArea::Did d = {x.op, ino(x.a), dir(x.a), 0, ""};
    switch (x.op) {
        case 'c': { int fd = open(x.a, O_WRONLY | O_CREAT | O_EXCL, 0644); if (fd >= 0) { if (write(fd, x.b, strlen(x.b)) < 0) {} close(fd); ok = true; } break; }
        case 'd': ok = mkdir(x.a, 0755) == 0; break;
        case 'l': ok = symlink(x.b, x.a) == 0; break;
        case 'u': ok = unlink(x.a) == 0; break;
        case 'R': ok = rmdir(x.a) == 0; break;
        case 'r': d.d2 = dir(x.b); ok = renameat2(AT_FDCWD, x.a, AT_FDCWD, x.b, 1) == 0; break;
    }
    if (ok && H->nlog < 8) {
        if (x.op == 'c' || x.op == 'd' || x.op == 'l') d.ino = ino(x.a);
        snprintf(d.name, sizeof d.name, "%s", basename_of(x.op == 'r' ? x.b : x.a));
        H->log[H->nlog++] = d;
    }
    note("OTHER", (S(1, x.op) + " " + x.a).c_str(), x.b, ok ? 0 : -1);
}

static const int F_STAT[] = {EACCES, ENOENT, EIO, 0, ELOOP, ENOTDIR, ENAMETOOLONG, EINTR, EAGAIN, ESTALE}, F_OPENDIR[] = {EACCES, ENOENT, EMFILE, EIO, 0, ENFILE, ENOMEM, ENOTDIR, ELOOP, EINTR, EAGAIN}, F_READDIR[] = {EIO, 0, ENOENT, EINTR, EAGAIN},
    F_RENAME[] = {EACCES, ENOENT, EINVAL, ENOSYS, EROFS, EXDEV, EEXIST, ENOSPC, EPERM, EBUSY, EIO, 0, ENAMETOOLONG, EDQUOT, ENOTEMPTY, EISDIR, ENOTDIR, ENOMEM, ELOOP, EMLINK, EINTR, EAGAIN, ETXTBSY, ESTALE},
    F_OPEN[] = {EACCES, EMFILE, EIO, 0, ENFILE, ENOMEM, ELOOP, EINTR, EAGAIN};     // those after the 0 with more_errnos

// so many calls are never needed: the run does not end
static void tick() { if (++H->ncalls > RUNAWAY) { signal(SIGALRM, SIG_DFL); raise(SIGALRM); } }

// before every call: another process may run, act, or this one may die or be refused. Returns an errno or 0.
template <size_t N> static int point(const char *op, const char *a, const char *b, const int (&faults)[N])
{
    tick();
    if (H->sched) {
        H->blocked = 1;
        sem_post(&H->ready);
        while (sem_wait(&H->go) < 0) {}
        H->blocked = 0;
    }
    if (H->nact && H->used_acts < H->act_budget) {
        int v = choose(CK_ENV, 1 + H->nact);
        if (v) { H->used_acts++; do_action(H->act[v - 1]); }
    }
    if (H->sticky) {
        char t[sizeof H->fault[0].path]; snprintf(t, sizeof t, "%s", a ? a : "");
        for (int i = 0; i < H->nfault; i++) {
            auto &x = H->fault[i];
            if (strcmp(x.op, op) || (H->sticky == 1 && strcmp(x.path, t))) continue;
            errno = x.err; note((S("FAIL AGAIN ") + op).c_str(), a, b, -1); errno = x.err; return x.err;
        }
    }
    if (H->crash && choose(CK_CRASH, 2)) { H->crashed = 1; note("KILLED before", op, a, 0); _exit(137); }
    if (H->used_faults < H->faults) {
        int n = 0;
        while (faults[n]) n++;
        int v = choose(CK_FAULT, H->more_errnos ? (int)N : 1 + n);
        if (v > n) v++;
        if (v) {
            if (H->nfault < 4) { auto &x = H->fault[H->nfault++]; snprintf(x.op, sizeof x.op, "%s", op); snprintf(x.path, sizeof x.path, "%s", a ? a : ""); x.err = faults[v - 1]; }
            H->used_faults++; errno = faults[v - 1]; note((S("FAIL ") + op).c_str(), a, b, -1); errno = faults[v - 1]; return faults[v - 1]; }
    }
    return 0;
}

// is the place that a call would change inside the watched tree?
static bool inside(int dfd, const char *p)
{
    char buf[4200];
    S d = p ? dirname_of(p) : "";
    S base;
    if (dfd != AT_FDCWD && p && p[0] != '/') base = S("/proc/self/fd/") + std::to_string(dfd) + "/";
    if (!realpath((base + d).c_str(), buf)) return true;    // will fail by itself
    size_t n = strlen(H->top);
    return !strncmp(buf, H->top, n) && (buf[n] == '/' || buf[n] == 0);
}
static bool allowed(const char *op, int dfd, const char *p)
{
    if (p && inside(dfd, p)) return true;
    H->escapes++;
    snprintf(H->escape_path, sizeof H->escape_path, "%s %s", op, p ? p : "(null)");
    note("ESCAPE", op, p, 0);
    errno = EACCES;
    return false;
}

// directories that do not belong to the run are not listed, so no run walks through the sandbox
static bool foreign(int dfd, const char *p)
{
    char buf[4200];
    S base;
    if (dfd != AT_FDCWD && p && p[0] != '/') base = S("/proc/self/fd/") + std::to_string(dfd) + "/";
    if (!p || !realpath((base + p).c_str(), buf)) return false;     // will fail by itself
    struct stat st;
    if (stat(buf, &st) || !S_ISDIR(st.st_mode)) return false;
    size_t n = strrchr(H->top, '/') - H->top;       // the scratch directory around what is watched
    if (!strncmp(buf, H->top, n) && (buf[n] == '/' || buf[n] == 0)) return false;
    note("FOREIGN", p, nullptr, -1);
    errno = EACCES;
    return true;
}

struct HDir {
    DIR *real; S path;
    struct Ent { S name; ino_t ino; unsigned char type; bool used; };
    V<Ent> ents; size_t pos = 0; bool again_done = false;
    dirent cur;
};

static void edit(struct stat *st)
{
    for (int i = 0; i < H->n_edit; i++) {
        const auto &e = H->edit[i];
        if (e.ino != st->st_ino) continue;
        if (e.fmt) st->st_mode = (st->st_mode & ~S_IFMT) | e.fmt;
        if (e.has_perm) st->st_mode = (st->st_mode & S_IFMT) | e.perm;
        if (e.has_uid) { st->st_uid = e.uid; st->st_gid = e.uid; }
        st->st_dev += e.dev; st->st_ino += e.inode; st->st_rdev += e.rdev;
        if (e.nlink >= 0) st->st_nlink = e.nlink;
        if (e.has_size) { st->st_size = e.size; st->st_blocks = e.size / 512; }
        if (e.has_mtime) st->st_mtim.tv_sec = st->st_ctim.tv_sec = st->st_atim.tv_sec = e.mtime;
        return;
    }
}

extern "C" {
#define HK __attribute__((visibility("default")))

HK char *hk_getenv(const char *n)
{
    if (on() && n) {
        bool known = false;
        for (int i = 0; i < H->nasked; i++) if (!strcmp(H->asked[i], n)) known = true;
        if (!known && H->nasked < 16 && strlen(n) < sizeof H->asked[0]) strcpy(H->asked[H->nasked++], n);
    }
    return getenv(n);
}
HK char *hk_secure_getenv(const char *n) { return hk_getenv(n); }
HK int hk_isatty(int fd) { return on() && H->tty && fd >= 0 && fd <= 2 ? 1 : isatty(fd); }
HK int hk_lstat(const char *p, struct stat *st)
{
    if (!on()) return lstat(p, st);
    S b; const char *q = redir(p, b);
    if (int e = point("lstat", p, nullptr, F_STAT)) { errno = e; return -1; }
    S f; if (H->casefold) { f = fold(q); q = f.c_str(); }
    int rc = lstat(q, st);
    if (rc == 0) edit(st);
    if (rc == 0)
        for (int i = 0; i < H->n_dev_alias; i++)
            if (!strcmp(basename_of(p), H->dev_alias[i][0])) {
                struct stat o;
                if (lstat((dirname_of(p) + "/" + H->dev_alias[i][1]).c_str(), &o) == 0) { st->st_ino = o.st_ino; st->st_dev = o.st_dev + 1; st->st_nlink = 1; }
            }
    note("lstat", p, nullptr, rc);
    return rc;
}
HK int hk_stat(const char *p, struct stat *st)
{
    if (!on()) return stat(p, st);
    S b; const char *q = redir(p, b);
    if (int e = point("stat", p, nullptr, F_STAT)) { errno = e; return -1; }
    S f; if (H->casefold) { f = fold(q); q = f.c_str(); }
    int rc = stat(q, st);
    if (rc == 0) edit(st);
    note("stat", p, nullptr, rc);
    return rc;
}
HK int hk_fstatat(int d, const char *p, struct stat *st, int fl)
{
    if (!on()) return fstatat(d, p, st, fl);
    S b; const char *q = redir(p, b);
    if (int e = point("fstatat", p, nullptr, F_STAT)) { errno = e; return -1; }
    S f; if (H->casefold && d == AT_FDCWD) { f = fold(q); q = f.c_str(); }
    int rc = fstatat(d, q, st, fl);
    if (rc == 0) edit(st);
    note("fstatat", p, nullptr, rc);
    return rc;
}
HK int hk_access(const char *p, int m)
{
    if (!on()) return access(p, m);
    S b; const char *q = redir(p, b);
    if (int e = point("access", p, nullptr, F_STAT)) { errno = e; return -1; }
    S f; if (H->casefold) { f = fold(q); q = f.c_str(); }
    int rc = access(q, m);
    note("access", p, nullptr, rc);
    return rc;
}
HK int hk_faccessat(int d, const char *p, int m, int fl)
{
    if (!on() || d != AT_FDCWD) return faccessat(d, p, m, fl);
    return hk_access(p, m);
}

static int rename_common(int od, const char *a, int nd, const char *b, unsigned flags, const char *op)
{
    if (int e = point(op, a, b, F_RENAME)) { errno = e; return -1; }
    if (!allowed(op, od, a) || !allowed(op, nd, b)) return -1;
    int rc;
    H->nmut++;
    if (flags && H->norep_errno) { errno = H->norep_errno; note(op, a, b, -1); errno = H->norep_errno; return -1; }
    if (H->casefold && od == AT_FDCWD && nd == AT_FDCWD) {
        S fa = fold(a), fb = fold(b), wb = dirname_of(fb.c_str()) + "/" + basename_of(b);
        struct stat sa, sb;
        if (lstat(fb.c_str(), &sb) == 0 && lstat(fa.c_str(), &sa) == 0) {
            bool same = sa.st_ino == sb.st_ino && dirname_of(fa.c_str()) == dirname_of(fb.c_str()) && foldcase(basename_of(fa.c_str())) == foldcase(basename_of(fb.c_str()));
            if (flags & 1) { errno = EEXIST; rc = -1; }
            else if (same) rc = rename(fa.c_str(), wb.c_str());
            else rc = rename(fa.c_str(), fb.c_str());       // replaces, the name keeps its case
        } else rc = flags ? renameat2(AT_FDCWD, fa.c_str(), AT_FDCWD, b, flags) : rename(fa.c_str(), b);
    } else rc = flags ? renameat2(od, a, nd, b, flags) : renameat(od, a, nd, b);
    if (rc == 0) H->nrename_ok++;
    note(op, a, b, rc);
    return rc;
}
HK int hk_rename(const char *a, const char *b) { return on() ? rename_common(AT_FDCWD, a, AT_FDCWD, b, 0, "rename") : rename(a, b); }
HK int hk_renameat(int d, const char *a, int e, const char *b) { return on() ? rename_common(d, a, e, b, 0, "renameat") : renameat(d, a, e, b); }
HK int hk_renameat2(int d, const char *a, int e, const char *b, unsigned f) { return on() ? rename_common(d, a, e, b, f, f ? "renameat2+" : "renameat2") : renameat2(d, a, e, b, f); }

#define MUT1(name, args, dfd, path, call) \
    HK int hk_##name args { \
        if (!on()) return call; \
        if (int e = point(#name, path, nullptr, F_RENAME)) { errno = e; return -1; } \
        if (!allowed(#name, dfd, path)) return -1; \
        H->nmut++; int rc = call; note(#name, path, nullptr, rc); return rc; }
MUT1(unlink, (const char *p), AT_FDCWD, p, unlink(p))
MUT1(unlinkat, (int d, const char *p, int f), d, p, unlinkat(d, p, f))
MUT1(rmdir, (const char *p), AT_FDCWD, p, rmdir(p))
MUT1(remove, (const char *p), AT_FDCWD, p, remove(p))
MUT1(mkdir, (const char *p, mode_t m), AT_FDCWD, p, mkdir(p, m))
MUT1(mkdirat, (int d, const char *p, mode_t m), d, p, mkdirat(d, p, m))
MUT1(symlink, (const char *t, const char *p), AT_FDCWD, p, symlink(t, p))
MUT1(link, (const char *t, const char *p), AT_FDCWD, p, link(t, p))
MUT1(linkat, (int td, const char *t, int d, const char *p, int f), d, p, linkat(td, t, d, p, f))
MUT1(chmod, (const char *p, mode_t m), AT_FDCWD, p, chmod(p, m))
MUT1(truncate, (const char *p, off_t l), AT_FDCWD, p, truncate(p, l))
MUT1(creat, (const char *p, mode_t m), AT_FDCWD, p, creat(p, m))
MUT1(mkfifo, (const char *p, mode_t m), AT_FDCWD, p, mkfifo(p, m))
MUT1(utimes, (const char *p, const struct timeval tv[2]), AT_FDCWD, p, utimes(p, tv))

HK FILE *hk_fopen(const char *p, const char *m)
{
    if (!on()) return fopen(p, m);
    if (!strcmp(p, "/dev/null")) return fopen(p, m);
    S b; const char *q = redir(p, b);
    if (int e = point("fopen", p, nullptr, F_OPEN)) { errno = e; return nullptr; }
    if (strpbrk(m, "wa+")) { if (!allowed("fopen for writing", AT_FDCWD, q)) return nullptr; H->nmut++; }
    FILE *f = fopen(q, m);
    note("fopen", p, m, f ? 0 : -1);
    return f;
}
HK int hk_open(const char *p, int fl, ...)
{
    va_list ap; va_start(ap, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    if (!on() || !strcmp(p, "/dev/null")) return open(p, fl, m);
    S b; const char *q = redir(p, b);
    if (int e = point("open", p, nullptr, F_OPEN)) { errno = e; return -1; }
    if ((fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC))) { if (!allowed("open for writing", AT_FDCWD, q)) return -1; H->nmut++; }
    S f; if (H->casefold) { f = fold(q); q = f.c_str(); }
    if (foreign(AT_FDCWD, q)) return -1;
    int rc = open(q, fl, m);
    note("open", p, nullptr, rc);
    return rc;
}
HK int hk_openat(int d, const char *p, int fl, ...)
{
    va_list ap; va_start(ap, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    if (!on()) return openat(d, p, fl, m);
    S b; const char *q = redir(p, b);
    if (int e = point("openat", p, nullptr, F_OPEN)) { errno = e; return -1; }
    if ((fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC))) { if (!allowed("openat for writing", d, q)) return -1; H->nmut++; }
    if (foreign(d, q)) return -1;
    int rc = openat(d, q, fl, m);
    note("openat", p, nullptr, rc);
    return rc;
}

static HDir *wrapdir(DIR *d, const char *p)
{
    HDir *h = new HDir;
    h->real = d; h->path = p ? p : "";
    static std::map<std::pair<dev_t, ino_t>, int> listed;
    struct stat st;
    if (fstat(dirfd(d), &st) == 0) { int &n = listed[{st.st_dev, st.st_ino}]; if (++n > H->max_listed) H->max_listed = n; }
    while (dirent *e = readdir(d)) h->ents.push_back({e->d_name, e->d_ino, e->d_type, false});
    auto dot = [](const HDir::Ent &e) { return e.name == "." || e.name == ".."; };
    std::sort(h->ents.begin(), h->ents.end(), [&](const HDir::Ent &a, const HDir::Ent &b) {
        if (dot(a) != dot(b)) return dot(a);
        return a.name < b.name; });
    if (H->order == ORDER_REVERSE) std::reverse(h->ents.begin(), h->ents.end());
    if (H->order == ORDER_ROT && h->ents.size() > 3) std::rotate(h->ents.begin() + 2, h->ents.begin() + 2 + H->rot % (h->ents.size() - 2), h->ents.end());
    return h;
}
HK DIR *hk_opendir(const char *p)
{
    if (!on()) return opendir(p);
    if (int e = point("opendir", p, nullptr, F_OPENDIR)) { errno = e; return nullptr; }
    S f = H->casefold ? fold(p) : S(p);
    if (foreign(AT_FDCWD, f.c_str())) return nullptr;
    DIR *d = opendir(f.c_str());
    note("opendir", p, nullptr, d ? 0 : -1);
    if (!d) return nullptr;
    return (DIR *)wrapdir(d, p);
}
HK DIR *hk_fdopendir(int fd)
{
    DIR *d = fdopendir(fd);
    if (!on() || !d) return d;
    return (DIR *)wrapdir(d, nullptr);
}
HK struct dirent *hk_readdir(DIR *dp)
{
    if (!on()) return readdir(dp);
    HDir *h = (HDir *)dp;
    int keep = errno;       // the end of a listing leaves errno alone
    if (H->sched || H->nact || H->crash || H->faults) { if (int e = point("readdir", h->path.c_str(), nullptr, F_READDIR)) { errno = e; return nullptr; } }
    else tick();
    size_t pick = (size_t)-1;
    if (H->order == ORDER_ALL) {
        V<size_t> left;
        for (size_t i = 0; i < h->ents.size(); i++) if (!h->ents[i].used) left.push_back(i);
        if (!left.empty()) {
            bool dot = h->ents[left[0]].name == "." || h->ents[left[0]].name == "..";
            pick = left[dot ? 0 : choose(CK_ORDER, left.size())];
        }
    } else if (h->pos < h->ents.size()) pick = h->pos++;
    HDir::Ent *e = nullptr, extra;
    if (pick != (size_t)-1) { e = &h->ents[pick]; e->used = true; }
    else if (H->again) {
        // entries that were not in the listing when it was opened: a filesystem may return them or not
        rewinddir(h->real);
        V<HDir::Ent> fresh;
        while (dirent *x = readdir(h->real)) {
            bool known = false;
            for (auto &k : h->ents) if (k.name == x->d_name) { known = true; break; }
            if (!known) fresh.push_back({x->d_name, x->d_ino, x->d_type, true});
        }
        std::sort(fresh.begin(), fresh.end(), [](const HDir::Ent &a, const HDir::Ent &b) { return a.name < b.name; });
        if (!fresh.empty() && h->ents.size() < 500 && (H->again == 2 || !choose(CK_AGAIN, 2))) { h->ents.push_back(fresh[0]); h->pos = h->ents.size(); e = &h->ents.back(); }
    }
    errno = keep;
    if (!e) { note("readdir", h->path.c_str(), "", 0); return nullptr; }
    memset(&h->cur, 0, sizeof h->cur);
    h->cur.d_ino = e->ino;
    h->cur.d_type = H->dtype_unknown ? DT_UNKNOWN : e->type;
    if (!H->dtype_unknown) for (int i = 0; i < H->n_edit; i++) if (H->edit[i].ino == e->ino && H->edit[i].fmt) h->cur.d_type = IFTODT(H->edit[i].fmt);
    h->cur.d_reclen = sizeof h->cur;
    snprintf(h->cur.d_name, sizeof h->cur.d_name, "%s", e->name.c_str());
    note("readdir", h->path.c_str(), e->name.c_str(), 0);
    return &h->cur;
}
HK void hk_rewinddir(DIR *dp)
{
    if (!on()) { rewinddir(dp); return; }
    HDir *h = (HDir *)dp, *n;
    rewinddir(h->real);
    n = wrapdir(h->real, h->path.c_str());
    h->ents = n->ents; h->pos = 0;
    delete n;
}
HK int hk_closedir(DIR *dp)
{
    if (!on()) return closedir(dp);
    HDir *h = (HDir *)dp;
    int rc = closedir(h->real);
    delete h;
    return rc;
}
HK int hk_dirfd(DIR *dp) { return on() ? dirfd(((HDir *)dp)->real) : dirfd(dp); }

// nothing of this kind belongs in detox
#define NEVER(name, args) HK int hk_##name args { if (H) { H->escapes++; snprintf(H->escape_path, sizeof H->escape_path, #name); } errno = EACCES; return -1; }
NEVER(system, (const char *))
NEVER(execv, (const char *, char *const *))
NEVER(execve, (const char *, char *const *, char *const *))
NEVER(execvp, (const char *, char *const *))
NEVER(chown, (const char *, uid_t, gid_t))
NEVER(lchown, (const char *, uid_t, gid_t))
NEVER(fork, (void))
NEVER(vfork, (void))
NEVER(kill, (pid_t, int))
NEVER(mknod, (const char *, mode_t, dev_t))
NEVER(chroot, (const char *))
HK FILE *hk_popen(const char *, const char *) { if (H) { H->escapes++; snprintf(H->escape_path, sizeof H->escape_path, "popen"); } errno = EACCES; return nullptr; }

// ---- account of memory: blocks that detox got and did not give back
struct Block { size_t n; void *by; };
static std::unordered_map<void *, Block> *blocks;
static void *got(void *p, size_t n, void *by)
{
    if (!p || !on() || !H->heap) return p;
    if (!blocks) blocks = new std::unordered_map<void *, Block>;
    (*blocks)[p] = {n, by};
    H->live_blocks++; H->live_bytes += n;
    if (H->live_bytes > H->peak_bytes) H->peak_bytes = H->live_bytes;
    return p;
}
static void gone(void *p)
{
    if (!p || !blocks) return;
    auto b = blocks->find(p);
    if (b == blocks->end()) return;
    H->live_blocks--; H->live_bytes -= b->second.n;
    blocks->erase(b);
}
void heap_report()
{
    if (!H) return;
    H->active = 0;
    for (int f = 3; f < 128; f++) if (fcntl(f, F_GETFD) >= 0) H->open_fds++;
    std::map<S, long> by;
    if (blocks) for (auto &b : *blocks) { Dl_info di; by[dladdr(b.second.by, &di) && di.dli_sname ? di.dli_sname : "?"]++; }
    S t;
    for (auto &x : by) t += x.first + ": " + std::to_string(x.second) + "  ";
    snprintf(H->heap_text, sizeof H->heap_text, "%s", t.c_str());
}
static void track_line(char *was, char *is, size_t n, void *by) { if (was != is) { gone(was); got(is, n, by); } }

// ---- reading streams
static bool read_fails(FILE *f, const char *op)
{
    if (!on() || H->used_faults >= H->read_faults) return false;
    char l[64], p[512] = "";
    snprintf(l, sizeof l, "/proc/self/fd/%d", fileno(f));
    ssize_t n = readlink(l, p, sizeof p - 1);
    if (n > 0) p[n] = 0;
    if (!choose(CK_FAULT, 2)) { note(op, p, nullptr, 0); return false; }
    if (H->nfault < 4) { auto &x = H->fault[H->nfault++]; snprintf(x.op, sizeof x.op, "%s", op); snprintf(x.path, sizeof x.path, "%s", p); x.err = EIO; }
    H->used_faults++;
    f->_flags |= 0x20;      // what ferror() looks at
    errno = EIO; note((S("FAIL ") + op).c_str(), p, nullptr, -1); errno = EIO;
    return true;
}
HK char *hk_fgets(char *s, int n, FILE *f) { return read_fails(f, "fgets") ? nullptr : fgets(s, n, f); }
HK int hk_fgetc(FILE *f) { return read_fails(f, "fgetc") ? EOF : fgetc(f); }
HK int hk_getc(FILE *f) { return read_fails(f, "getc") ? EOF : getc(f); }
HK size_t hk_fread(void *p, size_t a, size_t b, FILE *f) { return read_fails(f, "fread") ? 0 : fread(p, a, b, f); }
HK ssize_t hk_getline(char **l, size_t *n, FILE *f) { if (read_fails(f, "getline")) return -1; char *was = *l; ssize_t r = getline(l, n, f); track_line(was, *l, *n, __builtin_return_address(0)); return r; }
HK ssize_t hk_getdelim(char **l, size_t *n, int d, FILE *f) { if (read_fails(f, "getdelim")) return -1; char *was = *l; ssize_t r = getdelim(l, n, d, f); track_line(was, *l, *n, __builtin_return_address(0)); return r; }
HK int hk_getc_a(FILE *f) { return hk_getc(f); }
HK int hk_getc_b(FILE *f) { return hk_getc(f); }
HK ssize_t hk_getdelim_a(char **l, size_t *n, int d, FILE *f) { return hk_getdelim(l, n, d, f); }
HK ssize_t hk_getdelim_b(char **l, size_t *n, int d, FILE *f) { return hk_getdelim(l, n, d, f); }

// ---- memory
static bool alloc_fails(void *caller)
{
    if (!on()) return false;
    H->nalloc++;
    if (H->used_alloc >= H->alloc_faults) return false;
    if (!choose(CK_ALLOC, 2)) return false;
    H->used_alloc++;
    Dl_info di;
    const char *n = "?";
    if (dladdr(caller, &di) && di.dli_sname) n = di.dli_sname;
    snprintf(H->alloc_caller, sizeof H->alloc_caller, "%s", n);
    note("NO MEMORY in", n, nullptr, 0);
    errno = ENOMEM;
    return true;
}
#define CALLER __builtin_return_address(0)
HK void *hk_malloc(size_t n) { return alloc_fails(CALLER) ? nullptr : got(malloc(n), n, CALLER); }
HK void *hk_calloc(size_t a, size_t b) { return alloc_fails(CALLER) ? nullptr : got(calloc(a, b), a * b, CALLER); }
HK void *hk_realloc(void *p, size_t n) { if (alloc_fails(CALLER)) return nullptr; void *q = realloc(p, n); if (q || !n) gone(p); return got(q, n, CALLER); }
HK void *hk_reallocarray(void *p, size_t a, size_t b) { if (alloc_fails(CALLER)) return nullptr; void *q = reallocarray(p, a, b); if (q || !(a * b)) gone(p); return got(q, a * b, CALLER); }
HK char *hk_strdup(const char *s) { return alloc_fails(CALLER) ? nullptr : (char *)got(strdup(s), strlen(s) + 1, CALLER); }
HK char *hk_strndup(const char *s, size_t n) { if (alloc_fails(CALLER)) return nullptr; char *p = strndup(s, n); return (char *)got(p, p ? strlen(p) + 1 : 0, CALLER); }
HK void hk_free(void *p) { gone(p); free(p); }
HK void *hk_malloc(size_t);
HK int hk_vasprintf(char **out, const char *f, va_list ap)
{
    va_list ap2; va_copy(ap2, ap); int n = vsnprintf(nullptr, 0, f, ap2); va_end(ap2);
    if (n < 0 || !(*out = (char *)hk_malloc(n + 1))) return -1;
    return vsnprintf(*out, n + 1, f, ap);
}
HK int hk_asprintf(char **out, const char *f, ...)
{
    va_list ap; va_start(ap, f); int n = hk_vasprintf(out, f, ap); va_end(ap);
    return n;
}
HK int hk_scandir(const char *p, struct dirent ***out, int (*filter)(const struct dirent *), int (*compare)(const struct dirent **, const struct dirent **))
{
    DIR *d = hk_opendir(p);
    if (!d) return -1;
    struct dirent **v = nullptr; size_t n = 0; bool bad = false;
    for (;;) {
        errno = 0;
        struct dirent *x = hk_readdir(d);
        if (!x) { bad = errno; break; }
        if (filter && !filter(x)) continue;
        void *m = hk_realloc(v, (n + 1) * sizeof *v), *c = m ? hk_malloc(sizeof *x) : nullptr;
        if (m) v = (struct dirent **)m;
        if (!c) { bad = true; errno = ENOMEM; break; }
        memcpy(c, x, sizeof *x); v[n++] = (struct dirent *)c;
    }
    int e = errno; hk_closedir(d); errno = e;
    if (bad) { while (n) hk_free(v[--n]); hk_free(v); errno = e; return -1; }
    if (compare && n) qsort(v, n, sizeof *v, (int (*)(const void *, const void *))compare);
    if (!v) v = (struct dirent **)hk_malloc(sizeof *v);
    *out = v;
    return n;
}

#define ALIAS64(n) extern __typeof__(hk_##n) hk_##n##64 __attribute__((alias("hk_" #n)));
ALIAS64(lstat) ALIAS64(stat) ALIAS64(fstatat) ALIAS64(open) ALIAS64(openat) ALIAS64(fopen) ALIAS64(creat) ALIAS64(truncate) ALIAS64(readdir) ALIAS64(scandir)
}
