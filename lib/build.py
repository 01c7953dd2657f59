#!/usr/bin/env python3
"""Builds the model checker: /repo's sources as they are now, plus the harness in /verif/src."""
import concurrent.futures, hashlib, os, shutil, subprocess, sys, tempfile

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# the grammar of the pinned commit, as in the build of the project (sync.py): while it is unchanged, the committed C is compiled
PINNED = {
    "config_file_yacc.y": "1a6a8cb9815ec2bc3114a3b4fd2e42c097fe54a3d3e658ae091b3ff152f39823",
    "config_file_lex.l": "29040c7332d82598d35ad4dcc558916e79f52df505c815e976d2e911077a39df",
}
HOOKED = """lstat stat fstatat access faccessat rename renameat renameat2 unlink unlinkat rmdir remove mkdir mkdirat
symlink link linkat chmod truncate creat mkfifo utimes fopen open openat opendir fdopendir readdir rewinddir closedir dirfd
system execv execve execvp chown lchown fork vfork kill mknod chroot popen malloc calloc realloc reallocarray strdup strndup free
fgets fgetc getc fread getline getdelim isatty getenv secure_getenv
scandir asprintf vasprintf""".split()
CONFIG_H = """#define HAVE_GETOPT_LONG 1
#define HAVE_INTTYPES_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_STRUCT_STAT_ST_BLOCKS 1
#define HAVE_ST_BLOCKS 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define PACKAGE "detox"
#define PACKAGE_BUGREPORT "detox.dharple at gmail.com"
#define PACKAGE_NAME "detox"
#define PACKAGE_STRING "detox %(v)s"
#define PACKAGE_TARNAME "detox"
#define PACKAGE_URL "https://github.com/dharple/detox"
#define PACKAGE_VERSION "%(v)s"
#define STDC_HEADERS 1
#define VERSION "%(v)s"
#define YYTEXT_POINTER 1
"""


class BuildError(Exception):
    pass


def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout))
    return r.stdout


def make_vars(src):
    """The program source lists of src/Makefile.am."""
    text = open(os.path.join(src, "Makefile.am")).read().replace("\\\n", " ")
    v = {}
    for line in text.split("\n"):
        for op in ("+=", "="):
            if op in line and not line.startswith(("\t", "#")):
                k, _, val = line.partition(op)
                k = k.strip()
                v[k] = (v.get(k, "") + " " if op == "+=" else "") + val.strip()
                break
    return v


def prepare(work):
    """Copies the sources into work/src and applies the grammar rule of the project's build."""
    src = os.path.join(work, "src")
    shutil.copytree(os.path.join(REPO, "src"), src, ignore=shutil.ignore_patterns("*.o", ".deps", ".libs"))
    ver = "3.0.0-beta2"
    try:
        import re
        m = re.search(r"AC_INIT\(\[[^]]*\], *\[([^]]*)\]", open(os.path.join(REPO, "configure.ac")).read())
        if m:
            ver = m.group(1)
    except OSError:
        pass
    open(os.path.join(src, "config.h"), "w").write(CONFIG_H % {"v": ver})
    for g, pin in PINNED.items():
        p = os.path.join(src, g)
        if not os.path.exists(p):
            continue
        if hashlib.sha256(open(p, "rb").read()).hexdigest() == pin:
            continue
        base = g.rsplit(".", 1)[0]
        if g.endswith(".y"):
            run(["bison", "-y", "-d", "-o", base + ".c", g], src)
        else:
            run(["flex", "-i", "-o", base + ".c", g], src)
    return src


def sources(src, prog="detox"):
    v = make_vars(src)
    names = v.get(prog + "_SOURCES", "").split()
    out = []
    for n in names:
        if n.endswith((".y", ".l")):
            n = n.rsplit(".", 1)[0] + ".c"
        if n.endswith(".c") and os.path.exists(os.path.join(src, n)) and n not in out:
            out.append(n)
    return out


LOCALES = ["de_DE.ISO-8859-1", "tr_TR.ISO-8859-9", "tr_TR.UTF-8", "el_GR.ISO-8859-7", "ru_RU.KOI8-R", "pl_PL.ISO-8859-2", "ja_JP.EUC-JP",
           "en_US.UTF-8", "en_US.ISO-8859-1", "de_AT.UTF-8"]


def locales(work):
    """Locales to run detox in; those that cannot be made are left out."""
    d = os.path.join(work, "locales")
    os.makedirs(d, exist_ok=True)

    def one(n):
        lang, cs = n.split(".", 1)
        subprocess.run(["localedef", "--no-archive", "-i", lang, "-f", cs, os.path.join(d, n)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

    if shutil.which("localedef"):
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            list(ex.map(one, LOCALES))
    # locales with long names
    for k in (9, 40, 230):
        to = os.path.join(d, "de_DE.ISO-8859-1@" + ("modifier_" * 30)[:k])
        if os.path.isdir(os.path.join(d, "de_DE.ISO-8859-1")) and not os.path.islink(to):
            os.symlink("de_DE.ISO-8859-1", to)
    return d


CFLAGS = ["-w", "-g", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-DHAVE_CONFIG_H", "-DYY_NO_INPUT", "-DYY_NO_UNPUT",
          '-DDATADIR="/opt/dtx/share"', '-DSYSCONFDIR="/opt/dtx/etc"']
SAN = {"plain": ["-O1"], "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]}


def build(work, flavour, modules, prog_tools=()):
    """Returns the path of the checker. modules: harness sources; those named api_* see the project's headers."""
    src = prepare(work)
    san = SAN[flavour]
    out = os.path.join(work, "obj")
    os.makedirs(out, exist_ok=True)
    csrc = sources(src)
    redefs = os.path.join(work, "redef")
    with open(redefs, "w") as f:
        f.write("main detox_main\n")
        for h in HOOKED:
            f.write("%s hk_%s\n" % (h, h))
            if h in ("getc", "getdelim"):
                f.write("_IO_%s hk_%s_a\n__%s hk_%s_b\n" % (h, h, h, h))
            if h in ("lstat", "stat", "fstatat", "open", "openat", "fopen", "creat", "truncate", "readdir", "scandir"):
                f.write("%s64 hk_%s64\n" % (h, h))
    objs, jobs = [], []

    def cc(name):
        o = os.path.join(out, name[:-2] + ".o")
        run(["gcc", "-c", name, "-o", o] + CFLAGS + san, src)
        run(["objcopy", "--redefine-syms=" + redefs, o])
        return o

    def cxx(name):
        o = os.path.join(out, "h_" + name[:-4] + ".o")
        api = name.startswith("api_")
        h = hashlib.sha256(b"O2")
        for x in sorted(os.listdir(os.path.join(VERIF, "src"))):
            if x.endswith((".hpp", ".h")) or x == name:
                h.update(x.encode() + b"\0" + open(os.path.join(VERIF, "src", x), "rb").read())
        cache = os.path.join(VERIF, "build", name[:-4] + "-" + h.hexdigest()[:20] + ".o")
        if not api and os.path.exists(cache):
            return cache
        run(["g++", "-std=c++20", "-c", os.path.join(VERIF, "src", name), "-o", o, "-I", src, "-g1", "-w", "-DHAVE_CONFIG_H", "-O2"])
        if not api:
            try:
                os.makedirs(os.path.dirname(cache), exist_ok=True)
                tmp = cache + ".%d" % os.getpid()
                shutil.copyfile(o, tmp)
                os.replace(tmp, cache)
            except OSError:
                pass
        return o

    tools = {}

    def tool(prog):
        b = os.path.join(work, prog)
        run(["gcc", "-o", b] + sources(src, prog) + CFLAGS + SAN["asan"] + ["-lm"], src)
        return b

    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        fs = [ex.submit(cxx, m) for m in ["engine.cpp", "hooks.cpp"] + [m for m in modules if not m.startswith("api_")]] + [ex.submit(cc, c) for c in csrc]
        ts = {p: ex.submit(tool, p) for p in prog_tools}
        apis = [ex.submit(cxx, m) for m in modules if m.startswith("api_")]
        objs = [f.result() for f in fs]
        # the functions that the unit tests call are called directly, too; without them the program itself must do
        optional = []
        for a in apis:
            try:
                optional.append(a.result())
            except BuildError as e:
                if len(apis) == len(modules):
                    raise
                print("note: a module that calls detox's functions does not build, going on without:\n%s" % str(e)[:1500], file=sys.stderr)
        tools = {p: t.result() for p, t in ts.items()}
    exe = os.path.join(work, "mc")
    link = lambda o: run(["g++", "-o", exe] + o + san + ["-rdynamic", "-lpthread", "-ldl"])
    try:
        link(objs + optional)
    except BuildError as e:
        if not optional or len(apis) == len(modules):
            raise
        print("note: a module that calls detox's functions does not link, going on without:\n%s" % str(e)[:1500], file=sys.stderr)
        link(objs)
    return exe


if __name__ == "__main__":
    w = tempfile.mkdtemp(prefix="dtx-build-")
    try:
        print(build(w, sys.argv[1] if len(sys.argv) > 1 else "plain", sys.argv[2:]))
    except BuildError as e:
        print(e)
