#include <poll.h>
#include <sys/ioctl.h>
#include "mc.hpp"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <malloc.h>
#include <algorithm>
#include <time.h>
#include <unistd.h>

HookArea *H;
Shared *G;
uint64_t *GSET;
Opt O;
double T0;
S RULE;
bool EXHAUSTIVE = false;
V<S> BOUNDS;
static S rfamily; static uint64_t rindex_; static V<uint16_t> rchoices; static bool rhave = false;

extern "C" int detox_main(int argc, char **argv);

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
V<Prop> &props() { static V<Prop> p; return p; }

bool seen_new(uint64_t h)
{
    if (h == 0) h = 1;
    if (G->set_used.load(std::memory_order_relaxed) > GSET_N / 10 * 9) return false;
    uint64_t i = h & (GSET_N - 1);
    for (;;) {
        uint64_t v = __atomic_load_n(&GSET[i], __ATOMIC_RELAXED);
        if (v == h) return false;
        if (v == 0) {
            uint64_t z = 0;
            if (__atomic_compare_exchange_n(&GSET[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                G->set_used++;
                return true;
            }
            if (z == h) return false;
        }
        i = (i + 1) & (GSET_N - 1);
    }
}

S qs(std::string_view s)
{
    S r = "\"";
    char b[8];
    size_t n = 0;
    for (unsigned char c : s) {
        if (++n > 3000) { r += "..."; break; }
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}
S joinargs(const V<S> &v) { S r; for (auto &x : v) { if (!r.empty()) r += ' '; r += qs(x); } return r; }

// ---------------------------------------------------------------- files
void mkdirs(const S &p)
{
    for (size_t i = 1; i <= p.size(); i++)
        if (i == p.size() || p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755);
}
void write_file(const S &path, const S &data)
{
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
    if (fd < 0) { fprintf(stderr, "harness: cannot write %s: %s\n", path.c_str(), strerror(errno)); _exit(3); }
    size_t o = 0;
    while (o < data.size()) { ssize_t n = write(fd, data.data() + o, data.size() - o); if (n <= 0) { fprintf(stderr, "harness: write failed\n"); _exit(3); } o += n; }
    close(fd);
}
S read_file(const S &path)
{
    S r; char b[65536];
    int fd = open(path.c_str(), O_RDONLY | O_CLOEXEC | O_NOFOLLOW | O_NONBLOCK);
    if (fd < 0) return r;
    ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n);
    close(fd);
    return r;
}
static void wipe_at(int dfd, const char *name)
{
    int fd = openat(dfd, name, O_RDONLY | O_DIRECTORY | O_CLOEXEC | O_NOFOLLOW);
    if (fd < 0 && errno == EACCES) { fchmodat(dfd, name, 0755, 0); fd = openat(dfd, name, O_RDONLY | O_DIRECTORY | O_CLOEXEC | O_NOFOLLOW); }
    if (fd < 0) return;
    struct stat st;
    if (fstat(fd, &st) == 0 && (st.st_mode & 0700) != 0700) fchmod(fd, 0755);
    DIR *d = fdopendir(dup(fd));
    V<std::pair<S, int>> names;
    while (dirent *e = readdir(d)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        names.push_back({e->d_name, e->d_type});
    }
    closedir(d);
    for (auto &n : names) {
        if (n.second == DT_DIR) { wipe_at(fd, n.first.c_str()); unlinkat(fd, n.first.c_str(), AT_REMOVEDIR); }
        else unlinkat(fd, n.first.c_str(), 0);
    }
    close(fd);
}
void wipe(const S &dir) { wipe_at(AT_FDCWD, dir.c_str()); }
void rm_rf(const S &dir) { wipe(dir); rmdir(dir.c_str()); }

// the directory that a path is in, however long the path is; names are relative to it then
static int parent_of(const S &p, S &name)
{
    int fd = AT_FDCWD; size_t o = 0;
    while (p.size() - o > 3000) {
        size_t e = p.rfind('/', o + 3000);
        if (e == S::npos || e <= o) break;
        int n = openat(fd, p.substr(o, e - o).c_str(), O_PATH | O_DIRECTORY | O_CLOEXEC);
        if (fd != AT_FDCWD) close(fd);
        if (n < 0) return -1;
        fd = n; o = e + 1;
    }
    name = p.substr(o);
    return fd;
}
void build_world(const S &at, const V<Ent> &es)
{
    for (auto &e : es) {
        S p = at + "/" + e.path, n; const char *c;
        int d = parent_of(p, n), rc = 0;
        c = n.c_str();
        if (d == -1) rc = -1;
        else switch (e.t) {
            case 'f': { int fd = openat(d, c, O_WRONLY | O_CREAT | O_EXCL | O_CLOEXEC, 0644); rc = fd; if (fd >= 0) { if (!e.data.empty()) rc = write(fd, e.data.data(), e.data.size()); close(fd); } break; }
            case 'd': rc = mkdirat(d, c, 0755); break;
            case 'l': rc = symlinkat(e.data.c_str(), d, c); break;
            case 'p': rc = mkfifoat(d, c, 0644); break;
            case 's': rc = mknodat(d, c, S_IFSOCK | 0644, 0); break;
            case 'h': rc = linkat(AT_FDCWD, (at + "/" + e.data).c_str(), d, c, 0); break;
            case 'm': rc = fchmodat(d, c, strtol(e.data.c_str(), nullptr, 8), 0); break;
            default: rc = -1;
        }
        if (d != AT_FDCWD && d >= 0) close(d);
        if (rc < 0) { fprintf(stderr, "harness: cannot build %c %s: %s\n", e.t, qs(p).c_str(), strerror(errno)); _exit(3); }
    }
}

bool Snap::same_info(const Snap &o) const
{
    if (info.size() != o.info.size()) return false;
    auto a = info.begin(), b = o.info.begin();
    for (; a != info.end(); ++a, ++b)
        if (a->first != b->first || a->second.t != b->second.t || a->second.mode != b->second.mode || a->second.nlink != b->second.nlink || a->second.content != b->second.content) return false;
    return true;
}
static void snap_dir(Snap &s, int dfd, const char *name, uint64_t ino)
{
    int fd = openat(dfd, name, O_RDONLY | O_DIRECTORY | O_CLOEXEC | O_NOFOLLOW);
    struct stat st; bool fix = false; unsigned om = 0;
    if (fd < 0 && errno == EACCES) {
        fstatat(dfd, name, &st, AT_SYMLINK_NOFOLLOW); om = st.st_mode & 07777; fix = true;
        fchmodat(dfd, name, 0755, 0);
        fd = openat(dfd, name, O_RDONLY | O_DIRECTORY | O_CLOEXEC | O_NOFOLLOW);
    } else if (fd >= 0) { fstat(fd, &st); if ((st.st_mode & 0100) == 0) { fix = true; om = st.st_mode & 07777; fchmod(fd, 0755); } }
    auto &m = s.dirs[ino];
    if (fd < 0) return;
    DIR *d = fdopendir(dup(fd));
    while (dirent *e = readdir(d)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        m[e->d_name] = 0;
    }
    closedir(d);
    for (auto &x : m) {
        const char *n = x.first.c_str();
        if (fstatat(fd, n, &st, AT_SYMLINK_NOFOLLOW) < 0) continue;
        x.second = st.st_ino;
        auto &i = s.info[st.st_ino];
        i.mode = st.st_mode & 07777; i.nlink = st.st_nlink;
        if (S_ISDIR(st.st_mode)) { i.t = 'd'; i.nlink = 0; snap_dir(s, fd, n, st.st_ino); }
        else if (S_ISLNK(st.st_mode)) { char b[4096]; ssize_t k = readlinkat(fd, n, b, sizeof b); i.t = 'l'; i.content.assign(b, k > 0 ? k : 0); }
        else if (S_ISREG(st.st_mode)) {
            i.t = 'f';
            if (st.st_size > 0) {
                int f = openat(fd, n, O_RDONLY | O_CLOEXEC | O_NOFOLLOW);
                char b[4096]; ssize_t k;
                i.content.clear();
                while ((k = read(f, b, sizeof b)) > 0) i.content.append(b, k);
                close(f);
            }
        } else i.t = S_ISFIFO(st.st_mode) ? 'p' : 's';
    }
    if (fix) fchmod(fd, om);
    close(fd);
}
Snap snapshot(const S &dir)
{
    Snap s; struct stat st;
    if (lstat(dir.c_str(), &st) < 0) return s;
    s.root = st.st_ino;
    snap_dir(s, AT_FDCWD, dir.c_str(), st.st_ino);
    return s;
}
static void snap_text(const Snap &s, uint64_t d, const S &pre, S &r)
{
    auto it = s.dirs.find(d);
    if (it == s.dirs.end()) return;
    for (auto &x : it->second) {
        auto i = s.info.find(x.second);
        if (i == s.info.end()) continue;
        r += "  "; r += i->second.t; r += " " + qs(pre + x.first) + " #" + std::to_string(x.second);
        if (!i->second.content.empty()) r += " " + qs(i->second.content.substr(0, 40));
        r += "\n";
        if (i->second.t == 'd') snap_text(s, x.second, pre + x.first + "/", r);
        if (r.size() > 20000) return;
    }
}
S Snap::text() const { S r; snap_text(*this, root, "", r); return r; }
static void snap_hash(const Snap &s, uint64_t d, uint64_t &h)
{
    auto it = s.dirs.find(d);
    if (it == s.dirs.end()) return;
    for (auto &x : it->second) {
        auto i = s.info.find(x.second);
        if (i == s.info.end()) continue;
        h = mix(h, hstr(x.first)); h = mix(h, i->second.t); h = mix(h, hstr(i->second.content));
        if (i->second.t == 'd') { h = mix(h, 77); snap_hash(s, x.second, h); h = mix(h, 78); }
    }
}
uint64_t Snap::hash_names() const { uint64_t h = 99; snap_hash(*this, root, h); return h; }

// ---------------------------------------------------------------- running detox
static int new_memfd(const char *n) { return memfd_create(n, MFD_CLOEXEC); }
static S slurp(int fd)
{
    struct stat st; S r;
    if (fstat(fd, &st) < 0) return r;
    r.resize(st.st_size);
    size_t o = 0;
    while (o < r.size()) { ssize_t n = pread(fd, &r[o], r.size() - o, o); if (n <= 0) break; o += n; }
    r.resize(o);
    return r;
}
static void reset_area(HookArea *h, const V<uint16_t> &prefix)
{
    size_t off = offsetof(HookArea, go);
    memset(h, 0, off);
    sem_init(&h->go, 1, 0); sem_init(&h->ready, 1, 0);
    h->blocked = h->done = 0;
    h->nch = h->diverged = h->overflow = 0;
    h->nprefix = prefix.size();
    if (!prefix.empty()) memcpy(h->prefix, prefix.data(), prefix.size() * 2);
    h->ncalls = h->nrename_ok = h->nmut = h->escapes = h->used_faults = h->used_acts = h->used_alloc = h->nalloc = h->max_listed = h->nasked = h->crashed = h->nfault = h->nlog = 0;
    h->escape_path[0] = h->alloc_caller[0] = 0;
    h->live_blocks = h->live_bytes = h->peak_bytes = h->open_fds = 0; h->heap_text[0] = 0;
    h->ntrace = 0; h->trace_hash = 1;
    h->trace[0] = 0;
}
static void child_done() { if (H && H->sched) { H->done = 1; sem_post(&H->ready); } }

// writes pieces to a pipe, one after the other is taken
static pid_t feed(const V<S> &pieces, int rd, int wr)
{
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(3); }
    if (p) return p;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(rd);
    signal(SIGPIPE, SIG_DFL);
    for (auto &s : pieces) {
        for (size_t o = 0; o < s.size();) { ssize_t n = ::write(wr, s.data() + o, s.size() - o); if (n < 0) _exit(0); o += n; }
        // gone when no one reads any more
        for (int left = 1;;) {
            if (ioctl(wr, FIONREAD, &left) < 0 || !left) break;
            struct pollfd f = {wr, 0, 0};
            if (poll(&f, 1, 0) > 0 && (f.revents & POLLERR)) _exit(0);
            usleep(20);
        }
    }
    _exit(0);
}
static pid_t feeder;
static pid_t spawn(Worker &w, HookArea *h, const Run &r, int fdin, int fdout, int fderr)
{
    if (ftruncate(fdin, 0) || ftruncate(fdout, 0) || (r.out_limit < 0 && ftruncate(fderr, 0))) _exit(3);
    if (!r.stdin_data.empty()) { size_t o = 0; while (o < r.stdin_data.size()) { ssize_t n = pwrite(fdin, r.stdin_data.data() + o, r.stdin_data.size() - o, o); if (n <= 0) _exit(3); o += n; } }
    lseek(fdin, 0, SEEK_SET); lseek(fdout, 0, SEEK_SET); lseek(fderr, 0, SEEK_SET);
    snprintf(h->top, sizeof h->top, "%s", w.top.c_str());
    h->base = w.base;
    if (r.hooks) r.hooks(*h);
    int pin[2] = {-1, -1};
    if (!r.pieces.empty()) { if (pipe2(pin, O_CLOEXEC)) _exit(3); feeder = feed(r.pieces, pin[0], pin[1]); close(pin[1]); }
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(3); }
    if (p == 0) {
        H = h;
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        struct itimerval it = {}; it.it_value.tv_sec = (long)r.timeout;
        setitimer(ITIMER_REAL, &it, nullptr);
        dup2(fdin, 0); dup2(fdout, 1); dup2(fderr, 2);
        if (chdir(r.cwd.empty() ? w.tree.c_str() : r.cwd.c_str()) < 0) _exit(3);
        if (pin[0] >= 0) dup2(pin[0], 0);
        if (!r.stdin_path.empty()) { int f = open(r.stdin_path.c_str(), O_RDONLY); if (f < 0) _exit(3); dup2(f, 0); close(f); }
        if (r.out_limit == -2) close(1);
        if (r.closed & 8) { int f = open("/dev/full", O_WRONLY); if (f < 0) _exit(3); dup2(f, 2); close(f); }
        for (int k = 0; k < 3; k++) if (r.closed >> k & 1) close(k);
        clearenv();
        for (auto &e : r.env) setenv(e.first.c_str(), e.second.c_str(), 1);
        V<char *> av;
        for (auto &a : r.argv) av.push_back(strdup(a.c_str()));
        av.push_back(nullptr);
        if (h->sched) atexit(child_done);
        if (h->heap) atexit(heap_report);
        mallopt(M_PERTURB, 0x5a);      // nothing is zero by chance
        close_range(3, ~0u, 0);        // only what detox opens counts
        struct rlimit nf = {128, 128};
        setrlimit(RLIMIT_NOFILE, &nf); // directories and files are to be closed
        if (r.out_limit >= 0) {
            signal(SIGXFSZ, SIG_IGN);
            struct rlimit fs = {(rlim_t)r.out_limit, (rlim_t)r.out_limit};
            setrlimit(RLIMIT_FSIZE, &fs);
        }
        if (!r.exec.empty()) { execv(r.exec.c_str(), av.data()); _exit(127); }
        h->active = 1;
        int rc = detox_main((int)r.argv.size(), av.data());
        h->active = 0;
        exit(rc);
    }
    if (pin[0] >= 0) close(pin[0]);
    return p;
}
static void collect(HookArea *h, int st, int fdout, int fderr, Result &R)
{
    if (WIFSIGNALED(st)) { R.signaled = true; R.status = 128 + WTERMSIG(st); R.timed_out = WTERMSIG(st) == SIGALRM; }
    else R.status = WEXITSTATUS(st);
    R.out = slurp(fdout); R.err = slurp(fderr);
    R.ch.assign(h->ch, h->ch + h->nch);
    R.trace.assign(h->trace, h->ntrace);
    R.ncalls = h->ncalls; R.max_listed = h->max_listed; for (int i = 0; i < h->nasked; i++) R.asked.push_back(h->asked[i]); R.nrename_ok = h->nrename_ok; R.nmut = h->nmut; R.escapes = h->escapes;
    R.used_faults = h->used_faults; R.used_acts = h->used_acts; R.used_alloc = h->used_alloc; R.crashed = h->crashed;
    R.diverged = h->diverged; R.overflow = h->overflow; R.nalloc = h->nalloc;
    R.live_blocks = h->live_blocks; R.live_bytes = h->live_bytes; R.peak_bytes = h->peak_bytes; R.open_fds = h->open_fds; R.heap_text = h->heap_text;
    R.escape_path = h->escape_path; R.alloc_caller = h->alloc_caller; R.trace_hash = h->trace_hash;
    for (int i = 0; i < h->nfault; i++) R.faults.push_back({h->fault[i].op, h->fault[i].path, h->fault[i].err});
    R.did.assign(h->log, h->log + h->nlog);
    G->transitions += h->ncalls;
}
Result Worker::run(const Run &r, const V<uint16_t> &prefix)
{
    Result R;
    for (int attempt = 0; attempt < 2; attempt++) {
        reset_area(ha, prefix);
        R = Result();
        Run rr = r;
        if (attempt) rr.timeout = 120;
        // where files are limited in size, errors go through a pipe
        int pp[2] = {-1, -1};
        if (r.out_limit >= 0 && pipe2(pp, O_CLOEXEC)) _exit(3);
        pid_t p = spawn(*this, ha, rr, fd_in, fd_out, pp[1] >= 0 ? pp[1] : fd_err);
        int st;
        if (pp[1] >= 0) close(pp[1]);
        S perr; if (pp[0] >= 0) { char b[4096]; ssize_t n; while ((n = ::read(pp[0], b, sizeof b)) > 0) perr.append(b, n); close(pp[0]); }
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (!r.pieces.empty()) { int fs; kill(feeder, SIGKILL); while (waitpid(feeder, &fs, 0) < 0 && errno == EINTR) {} }
        collect(ha, st, fd_out, fd_err, R);
        if (pp[0] >= 0) R.err = perr;
        G->execs++;
        // a run that timed out is repeated alone with a longer limit, if nothing in the tree could have been changed
        if (!R.timed_out || R.nmut || R.ncalls > RUNAWAY) break;
    }
    return R;
}

Worker::Duo Worker::duo(const Run &ra, const Run &rb, const V<uint16_t> &prefix, int preemptions)
{
    static int in2 = new_memfd("in2"), out2 = new_memfd("out2"), err2 = new_memfd("err2");
    Duo D;
    reset_area(ha, {}); reset_area(hb, {});
    Run a = ra, b = rb;
    auto wrap = [](std::function<void(HookArea &)> f) { return [f](HookArea &h) { if (f) f(h); h.sched = 1; }; };
    a.hooks = wrap(ra.hooks); b.hooks = wrap(rb.hooks);
    HookArea *h[2] = {ha, hb};
    pid_t p[2];
    p[0] = spawn(*this, ha, a, fd_in, fd_out, fd_err);
    p[1] = spawn(*this, hb, b, in2, out2, err2);
    bool alive[2] = {true, true}, reaped[2] = {false, false};
    int st[2] = {0, 0};
    auto wait_ready = [&](int i) {
        for (;;) {
            timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 20000000; if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ts.tv_sec++; }
            if (sem_timedwait(&h[i]->ready, &ts) == 0) break;
            pid_t q = waitpid(p[i], &st[i], WNOHANG);
            if (q == p[i]) { reaped[i] = true; h[i]->done = 1; break; }
        }
        if (h[i]->done) alive[i] = false;
    };
    wait_ready(0); wait_ready(1);
    int cur = 0, used = 0; size_t k = 0;
    while (alive[0] || alive[1]) {
        int pick;
        if (alive[0] && alive[1]) {
            bool first = D.sched.empty();
            int n = (first || used < preemptions) ? 2 : 1;
            if (n > 1) {
                int v = k < prefix.size() ? prefix[k] : 0;
                k++;
                D.sched.push_back({(uint16_t)v, (uint16_t)n, CK_SCHED});
                pick = v ? 1 - cur : cur;
                if (v && !first) used++;
            } else pick = cur;
        } else pick = alive[0] ? 0 : 1;
        cur = pick;
        sem_post(&h[pick]->go);
        wait_ready(pick);
    }
    for (int i = 0; i < 2; i++) if (!reaped[i]) while (waitpid(p[i], &st[i], 0) < 0 && errno == EINTR) {}
    collect(ha, st[0], fd_out, fd_err, D.a);
    collect(hb, st[1], out2, err2, D.b);
    G->execs++;
    return D;
}

// ---------------------------------------------------------------- exploring
bool stopping()
{
    if (G->stop) return true;
    if (now() - T0 > O.budget) { G->capped = 1; return true; }
    return false;
}
void sample(const S &s)
{
    while (G->slock.exchange(1)) usleep(10);
    if (G->nsamples < 12) { snprintf(G->samples[G->nsamples], sizeof G->samples[0], "%s", s.c_str()); G->nsamples++; }
    G->slock = 0;
}
void violation(Worker &w, const S &what, const V<uint16_t> &choices)
{
    while (G->vlock.exchange(1)) usleep(10);
    if (G->nviol == 0) {
        S t = "property: " + O.prop + "\ntier: " + (O.thorough ? "thorough" : "quick") + "\nfamily: " + w.family + "\nindex: " + std::to_string(w.index) + "\nchoices:";
        for (auto c : choices) t += " " + std::to_string(c);
        t += "\n\n" + what + "\n";
        snprintf(G->vtext, sizeof G->vtext, "%s", t.c_str());
        G->nviol = 1;
    }
    G->stop = 1;
    G->vlock = 0;
}
static V<uint16_t> picks(const V<Choice> &c) { V<uint16_t> v; for (auto &x : c) v.push_back(x.pick); return v; }

void explore(Worker &w, const Run &r, const std::function<void()> &setup, const std::function<S(const Result &)> &check,
             const std::function<S()> &describe, uint64_t max_execs)
{
    V<V<uint16_t>> stack;
    stack.push_back(rhave ? rchoices : V<uint16_t>{});
    uint64_t n = 0, base = mix(hstr(w.family), w.index);
    for (auto &a : r.argv) base = mix(base, hstr(a));
    w.base = base;
    while (!stack.empty()) {
        if (stopping()) return;
        if (n++ > max_execs) { G->capped = 1; return; }
        V<uint16_t> pre = std::move(stack.back());
        stack.pop_back();
        setup();
        Result R = w.run(r, pre);
        S bad = R.diverged ? "" : check(R);
        if (R.overflow) { G->capped = 1; }
        if (R.diverged) {
            // must not happen: the replayed prefix did not fit; once more, then it is an error of the harness
            setup(); R = w.run(r, pre);
            if (R.diverged) { fprintf(stderr, "harness: replaying a prefix diverged in %s %llu\n", w.family.c_str(), (unsigned long long)w.index); G->skipped++; continue; }
            bad = check(R);
        }
        if (!bad.empty()) {
            V<uint16_t> full = picks(R.ch);
            setup();
            Result R2 = w.run(r, full);
            S bad2 = check(R2);
            if (bad2.empty()) { setup(); R2 = w.run(r, full); bad2 = check(R2); }
            if (bad2.empty()) { fprintf(stderr, "harness: not reproduced: %s\n", bad.c_str()); G->skipped++; continue; }
            S t = bad2 + "\n\n" + describe() + "\ncommand: " + joinargs(r.argv) + "\nenvironment:";
            for (auto &e : r.env) t += " " + e.first + "=" + qs(e.second);
            if (!r.stdin_data.empty()) t += "\nstdin: " + qs(r.stdin_data);
            t += "\nstatus: " + std::to_string(R2.status) + (R2.signaled ? " (signal)" : "") + "\nstdout: " + qs(R2.out) + "\nstderr: " + qs(R2.err) + "\ncalls:\n" + R2.trace.substr(0, 20000);
            violation(w, t, full);
            return;
        }
        G->validated++;
        if (rhave) return;
        for (size_t i = R.ch.size(); i-- > pre.size();) {
            for (uint16_t alt = R.ch[i].n; alt-- > 1;) {
                V<uint16_t> np; np.reserve(i + 1);
                for (size_t j = 0; j < i; j++) np.push_back(R.ch[j].pick);
                np.push_back(alt);
                stack.push_back(std::move(np));
            }
        }
    }
}
void explore_duo(Worker &w, const Run &a, const Run &b, int preemptions, const std::function<void()> &setup,
                 const std::function<S(const Worker::Duo &)> &check, const std::function<S()> &describe)
{
    V<V<uint16_t>> stack;
    stack.push_back(rhave ? rchoices : V<uint16_t>{});
    w.base = mix(hstr(w.family), w.index);
    while (!stack.empty()) {
        if (stopping()) return;
        V<uint16_t> pre = std::move(stack.back());
        stack.pop_back();
        setup();
        auto D = w.duo(a, b, pre, preemptions);
        S bad = check(D);
        if (!bad.empty()) {
            V<uint16_t> full = picks(D.sched);
            setup();
            auto D2 = w.duo(a, b, full, preemptions);
            S bad2 = check(D2);
            if (bad2.empty()) { fprintf(stderr, "harness: not reproduced: %s\n", bad.c_str()); G->skipped++; continue; }
            S t = bad2 + "\n\n" + describe() + "\ncommand 1: " + joinargs(a.argv) + "\ncommand 2: " + joinargs(b.argv);
            t += "\nstderr 1: " + qs(D2.a.err) + "\nstderr 2: " + qs(D2.b.err) + "\ncalls 1:\n" + D2.a.trace.substr(0, 8000) + "calls 2:\n" + D2.b.trace.substr(0, 8000);
            violation(w, t, full);
            return;
        }
        G->validated++;
        if (rhave) return;
        for (size_t i = D.sched.size(); i-- > pre.size();)
            for (uint16_t alt = D.sched[i].n; alt-- > 1;) {
                V<uint16_t> np;
                for (size_t j = 0; j < i; j++) np.push_back(D.sched[j].pick);
                np.push_back(alt);
                stack.push_back(std::move(np));
            }
    }
}

static void worker_main(int id, const S &fam, uint64_t n, const ItemFn &fn, int limit_s = 0, uint64_t only = ~0ull)
{
    Worker w;
    w.id = id;
    w.dir = O.scratch + "/w" + std::to_string(id);
    w.top = w.dir + "/top";
    w.tree = w.top + "/pad1/pad2/T";
    w.root = w.dir + "/root";
    w.family = fam;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getuid() == 0) {
        gid_t g = 65534;
        if (setgroups(1, &g) || setgid(65534) || setuid(65534)) { perror("harness: setuid"); _exit(3); }
        prctl(PR_SET_DUMPABLE, 0);
    }
    umask(022);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    wipe(w.dir);
    mkdirs(w.tree); mkdirs(w.root);
    if (chdir(w.tree.c_str()) < 0) { perror("harness: chdir"); _exit(3); }
    w.fd_in = new_memfd("in"); w.fd_out = new_memfd("out"); w.fd_err = new_memfd("err");
    w.ha = (HookArea *)mmap(nullptr, sizeof(HookArea), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    w.hb = (HookArea *)mmap(nullptr, sizeof(HookArea), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    H = w.ha;
    fflush(nullptr);
    S errf = O.scratch + "/err" + std::to_string(id);
    if (limit_s) {
        H->active = 0;
        unlink(errf.c_str());
        int fd = open(errf.c_str(), O_RDWR | O_CREAT | O_APPEND, 0644);
        if (fd < 0) { perror("harness: stderr"); _exit(3); }
        dup2(fd, 2); close(fd);
    }
    uint64_t block = n > 100000 ? 64 : n > 4000 ? 8 : 1;
    for (;;) {
        uint64_t i = only != ~0ull ? only : G->next.fetch_add(block);
        if (i >= n) break;
        for (uint64_t j = i; j < i + block && j < n; j++) {
            if (rhave && j != rindex_) continue;
            if (only != ~0ull && j != only) continue;
            if (stopping()) goto out;
            w.index = j;
            if (limit_s) {
                G->cur[id].item = j + 1;
                struct itimerval it = {}; it.it_value.tv_sec = limit_s;
                setitimer(ITIMER_REAL, &it, nullptr);
                if (ftruncate(2, 0)) {}
            }
            fn(w, j);
            if (limit_s) { struct itimerval it = {}; setitimer(ITIMER_REAL, &it, nullptr); G->cur[id].item = 0; }
            G->done_items++;
        }
        if (only != ~0ull) break;
    }
out:
    if (chdir("/") < 0) {}
    wipe(w.dir);
    fflush(nullptr);
    _exit(0);
}

static void run_family(const S &name, uint64_t n, const ItemFn &fn, int limit_s)
{
    if (stopping()) { if (!G->stop) BOUNDS.push_back(name + ": not reached within the time budget"); return; }
    if (rhave && name != rfamily) return;
    if (getenv("MC_ONLY") && name.find(getenv("MC_ONLY")) == S::npos) return;
    G->next = 0;
    G->done_items = 0;
    uint64_t e0 = G->execs, v0 = G->evals;
    double t = now();
    fflush(nullptr);
    int jobs = (uint64_t)O.jobs > n ? (int)n : O.jobs;
    if (rhave) jobs = 1;
    V<pid_t> pids;
    for (int i = 0; i < jobs; i++) {
        pid_t p = fork();
        if (p == 0) { worker_main(i, name, n, fn, limit_s); _exit(0); }
        pids.push_back(p);
    }
    bool err = false;
    for (int i = 0; i < jobs; i++) {
        int st;
        while (waitpid(pids[i], &st, 0) < 0 && errno == EINTR) {}
        if (WIFEXITED(st) && !WEXITSTATUS(st)) continue;
        Cur &c = G->cur[i];
        if (limit_s && c.item && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) && !(WIFEXITED(st) && WEXITSTATUS(st) == 3)) {
            if (G->nviol) continue;
            G->stop = 1;        // the others may finish their item
            uint64_t item = c.item - 1;
            auto how = [](int s) { return WIFSIGNALED(s) ? (WTERMSIG(s) == SIGALRM ? S("did not end in time") : S("was ended by signal ") + std::to_string(WTERMSIG(s))) : "ended the process with status " + std::to_string(WEXITSTATUS(s)); };
            S err1 = read_file(O.scratch + "/err" + std::to_string(i)), tag1(c.tag, c.ntag), in1((char *)c.data, c.len);
            for (int k = i + 1; k < jobs; k++) { kill(pids[k], SIGKILL); }
            G->stop = 0;
            double left = O.budget; O.budget = 1e9;
            c.item = 0;
            pid_t p = fork();
            if (p == 0) { worker_main(i, name, n, fn, limit_s * 2, item); _exit(0); }
            int st2;
            while (waitpid(p, &st2, 0) < 0 && errno == EINTR) {}
            O.budget = left;
            bool again = !(WIFEXITED(st2) && WEXITSTATUS(st2) == 0) && !(WIFSIGNALED(st2) && WTERMSIG(st2) == SIGKILL);
            S err2 = read_file(O.scratch + "/err" + std::to_string(i));
            bool report = err1.find("AddressSanitizer") != S::npos || err1.find("runtime error") != S::npos;
            if (!G->nviol && (again || report)) {
                Worker w; w.family = name; w.index = item;
                S tag = again ? S(c.tag, c.ntag) : tag1, in = again ? S((char *)c.data, c.len) : in1, e = again ? err2 : err1;
                int how_st = again ? st2 : st;
                size_t z = e.find("ERROR: AddressSanitizer"); if (z == S::npos) z = e.find("runtime error"); if (z != S::npos) e = e.substr(z > 200 ? z - 200 : 0, 3000); else if (e.size() > 600) e = e.substr(e.size() - 600);
                violation(w, tag + ": " + how(how_st) + (again ? "" : " (not when repeated alone)") + "\ninput (" + std::to_string(in.size()) + " bytes): " + qs(in) + "\nstderr: " + e);
            }
            if (G->nviol) continue;
            // only slow: what was left of this family is not covered
            if (!again && WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { G->capped = 1; BOUNDS.push_back(name + ": a case took too long among others"); for (int k = i + 1; k < jobs; k++) waitpid(pids[k], &st, 0); break; }
        }
        if (G->nviol && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) continue;
        err = true; fprintf(stderr, "harness: worker ended with status %x\n", st);
    }
    char b[512];
    snprintf(b, sizeof b, "%s: %llu of %llu cases, %llu runs, %llu evaluations, %.1f s", name.c_str(), (unsigned long long)G->done_items.load(), (unsigned long long)n,
             (unsigned long long)(G->execs - e0), (unsigned long long)(G->evals - v0), now() - t);
    BOUNDS.push_back(b);
    fprintf(stderr, "  %s\n", b);
    if (err && G->nviol == 0) { fprintf(stderr, "harness: error\n"); exit(3); }
}

void family(const S &name, uint64_t n, const ItemFn &fn) { run_family(name, n, fn, 0); }
void family_api(const S &name, uint64_t n, const ItemFn &fn, int limit_s) { run_family(name, n, fn, limit_s); }

static S json(std::string_view s)
{
    S r = "\""; char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}

int main(int argc, char **argv)
{
    T0 = now();
    for (int i = 1; i < argc; i++) {
        S a = argv[i];
        auto val = [&]() -> S { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--thorough") O.thorough = true;
        else if (a == "--out") O.out = val();
        else if (a == "--replays") O.replay_dir = val();
        else if (a == "--replay") O.replay_file = val();
        else if (a == "--golden") O.golden = val();
        else if (a == "--scratch") O.scratch = val();
        else if (a == "--tools") O.tools = val();
        else if (a == "--locpath") O.locpath = val();
        else if (a == "--repo") O.repo = val();
        else if (a == "--jobs") O.jobs = atoi(val().c_str());
        else if (a == "--budget") O.budget = atof(val().c_str());
        else O.prop = a;
    }
    if (!O.replay_file.empty()) {
        FILE *f = fopen(O.replay_file.c_str(), "r");
        if (!f) { perror("replay"); return 3; }
        char line[1 << 16];
        while (fgets(line, sizeof line, f)) {
            if (!strncmp(line, "property: ", 10)) { O.prop = S(line + 10); O.prop.pop_back(); }
            else if (!strncmp(line, "family: ", 8)) { rfamily = S(line + 8); rfamily.pop_back(); }
            else if (!strncmp(line, "index: ", 7)) rindex_ = strtoull(line + 7, nullptr, 10);
            else if (!strncmp(line, "choices:", 8)) { char *p = line + 8, *q; for (;;) { unsigned long v = strtoul(p, &q, 10); if (q == p) break; rchoices.push_back(v); p = q; } break; }
        }
        fclose(f);
        rhave = true;
    }
    G = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    GSET = (uint64_t *)mmap(nullptr, GSET_N * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    bool known = false;
    for (auto &p : props()) if (O.prop == p.id) { known = true; p.fn(); }
    if (!known) { fprintf(stderr, "unknown property %s\n", O.prop.c_str()); return 3; }
    S viol;
    if (G->nviol) {
        S path = O.replay_dir + "/" + O.prop + ".txt";
        if (O.replay_file.empty()) write_file(path, G->vtext);
        printf("%s\n", G->vtext);
        printf("VIOLATION property=%s replay=%s\n", O.prop.c_str(), O.replay_file.empty() ? path.c_str() : O.replay_file.c_str());
        fflush(stdout);
    }
    S j = "{";
    auto num = [&](const char *k, uint64_t v) { j += S(j.size() > 1 ? ", " : "") + "\"" + k + "\": " + std::to_string(v); };
    num("execs", G->execs); num("transitions", G->transitions); num("states", G->states); num("evals", G->evals);
    num("nontrivial", G->nontrivial); num("validated", G->validated); num("outcomes", G->outcomes); num("skipped", G->skipped);
    num("capped", G->capped); num("violations", G->nviol); num("exhaustive", EXHAUSTIVE && !G->capped && !G->skipped);
    j += ", \"rule\": " + json(RULE) + ", \"bounds\": [";
    for (size_t i = 0; i < BOUNDS.size(); i++) j += (i ? ", " : "") + json(BOUNDS[i]);
    j += "], \"samples\": [";
    for (int i = 0; i < G->nsamples; i++) j += S(i ? ", " : "") + json(G->samples[i]);
    j += "]}";
    if (!O.out.empty()) write_file(O.out, j + "\n");
    if (G->skipped && !G->nviol) fprintf(stderr, "harness: %llu runs could not be judged\n", (unsigned long long)G->skipped.load());
    return G->nviol ? 1 : 0;
}
