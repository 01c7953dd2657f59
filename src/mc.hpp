// Engine: exhaustive enumeration of executions of the real detox code.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include <semaphore.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>

typedef std::string S;
template <class T> using V = std::vector<T>;

// ---------------------------------------------------------------- shared between harness and hooked child
enum ChoiceKind : uint8_t { CK_ORDER = 1, CK_FAULT, CK_CRASH, CK_ENV, CK_ALLOC, CK_SCHED, CK_AGAIN };
struct Choice { uint16_t pick, n; uint8_t kind; };

struct Action { char op; char a[200]; char b[200]; };  // c: create file, d: mkdir, l: symlink, u: unlink, r: rename a->b, R: rmdir

enum OrderMode { ORDER_SORTED, ORDER_REVERSE, ORDER_ALL, ORDER_ROT };

struct HookArea {
    // configuration
    int active;
    int order;          // OrderMode
    int rot;            // for ORDER_ROT
    int again;          // listing may return entries that appeared after it was opened: 0 no, 1 as a choice, 2 always
    int dtype_unknown;
    int tty;            // 0, 1 and 2 are said to be terminals
    int faults;         // how many calls may fail
    int more_errnos;    // with more errors
    int sticky;         // a call that failed fails the same way when it is made again: 1: for the same path, 2: for every path
    int crash;          // 1: may die before any hooked call
    int alloc_faults;   // how many allocations may fail
    int read_faults;    // how many reads from streams may fail
    int casefold;
    int heap;           // keep account of memory
    int norep_errno;    // renameat2 with flags always fails with this errno (0: works)
    int nact;           // environment actions
    int act_budget;
    Action act[8];
    char root[256];     // where /etc, /usr, /opt/dtx are redirected to ("" = not)
    char top[256];      // everything that may be changed lies below
    char dev_alias[4][2][128];  // lstat of base name [0] claims the inode of base name [1] on another device
    int n_dev_alias;
    // what lstat, stat and listings claim about an inode, besides the truth
    struct StatEdit { uint64_t ino; unsigned fmt, perm; int uid, nlink; long long dev, inode, rdev, size, mtime; bool has_perm, has_uid, has_size, has_mtime; } edit[8];
    int n_edit;
    int sched;          // this run is scheduled from outside
    uint64_t base;
    // scheduling
    sem_t go, ready;
    volatile int blocked, done;
    // choices
    int nprefix, nch, diverged, overflow;
    Choice ch[20000];
    uint16_t prefix[20000];
    // observations
    int ncalls, nrename_ok, nmut, escapes, used_faults, used_acts, used_alloc, nalloc, crashed, max_listed;
    int nlog; struct Did { char op; uint64_t ino, d1, d2; char name[100]; } log[8];
    int nfault; struct { char op[24]; char path[600]; int err; } fault[4];
    int nasked; char asked[16][100];    // environment variables that were asked for
    char escape_path[512];
    char alloc_caller[256];
    long live_blocks, live_bytes, peak_bytes, open_fds;
    char heap_text[1500];
    size_t ntrace;
    uint64_t trace_hash;
    char trace[1 << 20];
};
extern HookArea *H;       // of the current run
extern "C" void heap_report();

// what a filesystem that ignores case does to a name: A-Z and the capitals of Latin-1 in UTF-8
inline S foldcase(S s)
{
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        if (c >= 'A' && c <= 'Z') s[i] = c + 32;
        else if (c == 0xc3 && i + 1 < s.size()) { unsigned char d = s[i + 1]; if (d >= 0x80 && d < 0x9f && d != 0x97) s[i + 1] = (char)(d + 32); i++; }
    }
    return s;
}

// ---------------------------------------------------------------- statistics
struct Cur { volatile uint64_t item; volatile uint32_t ntag, len; char tag[1024]; unsigned char data[4096]; };
struct Shared {
    Cur cur[64];        // what each worker is evaluating in its own process
    std::atomic<uint64_t> next, execs, transitions, states, evals, nontrivial, validated, outcomes, skipped;
    std::atomic<int> stop, capped;
    std::atomic<uint64_t> done_items;
    std::atomic<int> vlock, nviol, nsamples, slock;
    char vtext[1 << 16];
    char samples[12][2048];
    std::atomic<uint64_t> set_used;
    std::atomic<uint64_t> extra[16];
};
extern Shared *G;
extern uint64_t *GSET;
constexpr uint64_t GSET_N = 1ull << 24;
bool seen_new(uint64_t h);      // true when h was not in the global set

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
inline uint64_t hstr(std::string_view s, uint64_t h = 1469598103934665603ull) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

// ---------------------------------------------------------------- options of this invocation
struct Opt {
    S prop, out, replay_dir, replay_file, golden, scratch, flavour, tools, locpath, repo;
    bool thorough = false;
    int jobs = 8;
    double budget = 200;
};
extern Opt O;
double now();
extern double T0;

// ---------------------------------------------------------------- runs
struct Run {
    V<S> argv;
    V<std::pair<S, S>> env;
    S stdin_data;
    S cwd;
    std::function<void(HookArea &)> hooks;
    double timeout = 20;
    V<S> pieces;            // standard input is a pipe, and each piece is written when the last one has been read
    S stdin_path;           // file or directory as standard input instead of stdin_data
    S exec;                 // another program instead of detox itself
    int closed = 0;         // descriptors that are closed (bits); 8: standard error takes nothing
    long out_limit = -1;    // standard output takes this many bytes; -2: it is closed
};
struct Fault { S op, path; int err; };
constexpr int RUNAWAY = 1000000;
struct Result {
    int status = 0;         // exit status, or 128+signal
    bool signaled = false, timed_out = false;
    S out, err, trace;
    V<Choice> ch;
    int ncalls = 0, nrename_ok = 0, nmut = 0, escapes = 0, used_faults = 0, used_acts = 0, used_alloc = 0, crashed = 0, diverged = 0, overflow = 0, nalloc = 0, max_listed = 0;
    long live_blocks = 0, live_bytes = 0, peak_bytes = 0, open_fds = 0;     // with HookArea::heap
    S escape_path, alloc_caller, heap_text; V<S> asked;
    V<Fault> faults;
    V<HookArea::Did> did;     // what the other process managed to do
    uint64_t trace_hash = 0;
};

struct Worker {
    int id = 0;
    S dir;          // scratch directory of this worker
    S top;          // dir/top: everything in it is watched
    S tree;         // dir/top/pad/pad/T: default cwd
    S root;         // dir/top/root: stands for /, only for redirected paths
    int fd_in = -1, fd_out = -1, fd_err = -1;
    HookArea *ha = nullptr, *hb = nullptr;
    S family; uint64_t index = 0;   // for replay
    // in-process families: what is being evaluated, for when it ends the process
    void tag(std::string_view t) { Cur &c = G->cur[id]; c.ntag = t.size() < sizeof c.tag ? t.size() : sizeof c.tag; memcpy(c.tag, t.data(), c.ntag); c.len = 0; }
    void rec(std::string_view d) { Cur &c = G->cur[id]; uint32_t n = d.size() < sizeof c.data ? d.size() : sizeof c.data; memcpy(c.data, d.data(), n); c.len = n; }
    uint64_t base = 0;
    Result run(const Run &, const V<uint16_t> &prefix = {});
    // two scheduled runs; returns the schedule taken
    struct Duo { Result a, b; V<Choice> sched; bool deadlock = false; };
    Duo duo(const Run &, const Run &, const V<uint16_t> &prefix, int preemptions);
};
typedef std::function<void(Worker &, uint64_t)> ItemFn;

// Enumerate items 0..n-1 of a family over all workers.
void family(const S &name, uint64_t n, const ItemFn &fn);
// The same with detox called in the workers themselves: a worker that dies is a violation when the item does it again.
void family_api(const S &name, uint64_t n, const ItemFn &fn, int limit_s = 60);

// Explore all choice sequences of a run. setup() is called before each run; check() after it and returns
// an empty string or what is wrong.
struct Exec { const V<uint16_t> &prefix; const Result &r; };
void explore(Worker &w, const Run &r, const std::function<void()> &setup, const std::function<S(const Result &)> &check,
             const std::function<S()> &describe, uint64_t max_execs = 2000000);
void explore_duo(Worker &w, const Run &a, const Run &b, int preemptions, const std::function<void()> &setup,
                 const std::function<S(const Worker::Duo &)> &check, const std::function<S()> &describe);

void violation(Worker &w, const S &what, const V<uint16_t> &choices = {});
void sample(const S &);
bool stopping();
S qs(std::string_view);     // printable form
S joinargs(const V<S> &);

// ---------------------------------------------------------------- registry
struct Prop { const char *id; std::function<void()> fn; };
V<Prop> &props();
struct Reg { Reg(const char *id, std::function<void()> f) { props().push_back({id, f}); } };
extern S RULE;          // how cases are made
extern bool EXHAUSTIVE; // finite space enumerated completely (unless capped)
extern V<S> BOUNDS;     // what was covered, text

// ---------------------------------------------------------------- worlds
struct Ent { S path; char t; S data; };     // f file, d dir, l symlink, p fifo, s socket, h hard link to data, m mode of path
void build_world(const S &at, const V<Ent> &);
void wipe(const S &dir);    // empty a directory
void rm_rf(const S &dir);
void mkdirs(const S &);
void write_file(const S &path, const S &data);
S read_file(const S &path);

struct Node { uint64_t ino; char t; unsigned mode; unsigned nlink; S content; uint64_t dir; S name; S path; };
struct Snap {
    uint64_t root = 0;
    std::map<uint64_t, std::map<S, uint64_t>> dirs;     // directory inode -> name -> inode
    struct Info { char t; unsigned mode; unsigned nlink; S content; };
    std::map<uint64_t, Info> info;
    bool operator==(const Snap &o) const { return dirs == o.dirs && same_info(o); }
    bool same_info(const Snap &) const;
    uint64_t hash_names() const;        // structure with names, inodes numbered canonically
    S text() const;
};
Snap snapshot(const S &dir);
