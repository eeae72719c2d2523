"""Builds the symbolic program from /repo's current source, runs the solver-based executor, replays counterexamples."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
OSYM = os.path.join(BUILD, "osym")
CLANG, LINK, OPT = "clang-18", "llvm-link-18", "opt-18"
NCPU = os.cpu_count() or 8
CFLAGS = ["-std=gnu11", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-w", "-fno-stack-protector"]
# Heap calls of the code under test are counted in the native replay.
HEAPDEFS = ["-Dmalloc=vn_malloc", "-Dcalloc=vn_calloc", "-Drealloc=vn_realloc", "-Dfree=vn_free", "-Dstrdup=vn_strdup", "-Dstrndup=vn_strndup"]
# Calls that leave the process go to the harness's environment model, in both executions.
ENVFNS = ("fopen fclose fread fseek ftell rewind fgets feof opendir readdir closedir lstat stat fstat mkstemp write read close unlink popen pclose open access "
          "magic_open magic_close magic_error magic_file magic_load magic_buffer pcre_compile pcre_exec pcre_free pcre_fullinfo").split()
ENVDEFS = ["-D%s=vs_%s" % (f, f) for f in ENVFNS]


class Broken(Exception):
    """The check itself could not be carried out."""


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return r.returncode, r.stdout


def ensure_engine():
    if os.path.exists(OSYM) and os.path.getmtime(OSYM) >= max(os.path.getmtime(os.path.join(ROOT, "engine", f)) for f in ("osym.cpp", "expr.h")):
        return
    os.makedirs(BUILD, exist_ok=True)
    rc, out = sh(["make", "-B", "-C", os.path.join(ROOT, "engine")])
    if rc:
        raise Broken("engine build failed:\n" + out)


class Tree:
    """A scratch copy of the repository's sources with the generated headers, compiled on demand."""

    def __init__(self):
        ensure_engine()
        base = os.path.join(BUILD, "work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="t%d_" % os.getpid(), dir=base)
        self.t0 = time.time()
        self.src = os.path.join(self.dir, "src")
        shutil.copytree(os.path.join(REPO, "src"), self.src, ignore=shutil.ignore_patterns("*.o", "*.so"))
        for g in glob.glob(self.src + "/parsers/*.h") + glob.glob(self.src + "/hash/*_hash.h") + glob.glob(self.src + "/hash/language_hash.c"):
            os.unlink(g)
        env = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8")
        procs = [subprocess.Popen(["bash", "./" + s], cwd=os.path.join(self.src, d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
                 for d, s in (("hash", "generate_headers"), ("parsers", "compile"))]
        outs = [p.communicate()[0] for p in procs]
        if any(p.returncode for p in procs):
            raise Broken("header generation failed:\n" + "\n".join(outs))
        self.csrc = sorted(f for f in os.listdir(self.src) if f.endswith(".c"))
        self.bc, self.nat = {}, {}
        self.incs = ["-I", self.src, "-I", os.path.join(ROOT, "model"), "-I", os.path.join(ROOT, "harness"), "-I", self.dir]
        self.languages = self._langs()
        with open(os.path.join(self.dir, "v_langs.h"), "w") as f:
            f.write("static const char *const V_LANGS[] = {%s};\nenum { V_NLANGS = %d };\n" % (", ".join('"%s"' % l for l in self.languages), len(self.languages)))
            f.write("static const char *const V_LANGNAMES[] = {%s};\nenum { V_NLANGNAMES = %d };\n" % (", ".join('"%s"' % l for l in self.allnames), len(self.allnames)))
        import templates
        h, self.templates, self.constructs = templates.header(self.languages)
        with open(os.path.join(self.dir, "v_tmpl.h"), "w") as f:
            f.write(h)
        self.build_s = time.time() - self.t0

    def gperf(self, name):
        """key -> value text of a .gperf table of the current source"""
        t = open(os.path.join(self.src, "hash", name + ".gperf"), errors="replace").read()
        parts = t.split("%%")
        body = parts[1] if len(parts) > 1 else t
        out = []
        for line in body.splitlines():
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            m = re.match(r'("(?:[^"\\]|\\.)*"|[^,]+)\s*(?:,\s*(.*))?$', line)
            if m:
                out.append((m.group(1).strip().strip('"'), (m.group(2) or "").strip()))
        return out

    def _langs(self):
        names = json.load(open(os.path.join(ROOT, "lib", "languages.json")))
        cur = [k for k, _ in self.gperf("parsers")]
        self.allnames = sorted(set(names["names"]) | set(k for k, _ in self.gperf("languages")))
        return sorted(set(names["parsers"]) | set(cur))

    def _cc_all(self, kind, files, cmdfor):
        todo = [f for f in files if (kind, f) not in self.bc]
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for f, (rc, out) in zip(todo, ex.map(lambda f: sh(cmdfor(f), cwd=self.dir), todo)):
                if rc:
                    raise Broken("compiling %s failed:\n%s" % (f, out))
                self.bc[(kind, f)] = True

    def path(self, f):
        return f if os.path.isabs(f) else os.path.join(self.src, f)

    def ir(self, harness, units=None, defs=(), env=True, envfns=None):
        """link the harness with the repository's units; returns the bitcode file"""
        units = [u for u in (units or self.csrc) if u in self.csrc]
        if not hasattr(self, "hash_c"):
            self.hash_c = [f for f in ("hash/language_hash.c",) if os.path.exists(os.path.join(self.src, f)) and '#include "hash/language_hash.c"' not in self._alltext()]
        key = hashlib.sha1(repr((harness, units, sorted(defs), env)).encode()).hexdigest()[:10]
        out = os.path.join(self.dir, "m_%s.bc" % key)
        if os.path.exists(out):
            return out
        hpath = os.path.join(ROOT, "harness", harness)
        files = units + self.hash_c
        udir = os.path.join(self.dir, "u" + key)
        os.makedirs(udir, exist_ok=True)
        base = [CLANG, "-c", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-builtin", "-fno-vectorize", "-ffp-contract=off"] + CFLAGS + self.incs + list(defs)
        jobs = [(self.path(f), os.path.join(udir, f.replace("/", "_") + ".bc"), (ENVDEFS if env else []) + ["-Dmain=ohcount_cli_main"]) for f in files]
        jobs += [(hpath, os.path.join(udir, "harness.bc"), []), (os.path.join(ROOT, "model", "vlibc.c"), os.path.join(udir, "vlibc.bc"), [])]
        if env:
            jobs.append((os.path.join(ROOT, "model", "vstubs.c"), os.path.join(udir, "vstubs.bc"), []))

        def one(j):
            rc, o = sh(base + j[2] + [j[0], "-o", j[1]])
            if rc == 0:
                rc, o = sh([OPT, "-passes=mem2reg", j[1], "-o", j[1] + ".m"])
            return rc, o
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for j, (rc, o) in zip(jobs, ex.map(one, jobs)):
                if rc:
                    raise Broken("compiling %s to IR failed:\n%s" % (j[0], o))
        rc, o = sh([LINK] + [j[1] + ".m" for j in jobs] + ["-o", out])
        if rc:
            raise Broken("linking the symbolic program failed:\n" + o)
        shutil.rmtree(udir)
        return out

    def _alltext(self):
        return "\n".join(open(os.path.join(self.src, f), errors="replace").read() for f in self.csrc)

    def native(self, harness, entry, units=None, defs=(), env=True, msan=False, plain=False):
        units = [u for u in (units or self.csrc) if u in self.csrc]
        self.ir_hash()
        key = hashlib.sha1(repr(("nat", harness, entry, units, sorted(defs), env, msan, plain)).encode()).hexdigest()[:10]
        out = os.path.join(self.dir, "n_" + key)
        if os.path.exists(out):
            return out
        if plain:
            cc = ["gcc", "-O0"]
        elif msan:
            cc = ["clang-18", "-fsanitize=memory", "-fno-omit-frame-pointer", "-O0"]
        else:
            cc = ["gcc", "-fsanitize=address,undefined", "-fno-sanitize=alignment,shift,signed-integer-overflow,nonnull-attribute,pointer-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-O0"]
        ud = os.path.join(self.dir, "d" + key)
        os.makedirs(ud, exist_ok=True)
        jobs = [(self.path(f), (ENVDEFS if env else []) + HEAPDEFS + ["-Dmain=ohcount_cli_main"]) for f in units + self.hash_c]
        jobs += [(os.path.join(ROOT, "harness", harness), HEAPDEFS), (os.path.join(ROOT, "model", "vnative.c"), ["-DV_ENTRY=" + entry])]
        if env:
            jobs.append((os.path.join(ROOT, "model", "vstubs.c"), []))
        objs = [os.path.join(ud, "%d.o" % i) for i in range(len(jobs))]
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for j, (rc, o) in zip(jobs, ex.map(lambda a: sh(cc + ["-g", "-c", "-DV_NATIVE"] + CFLAGS + self.incs + list(defs) + a[0][1] + [a[0][0], "-o", a[1]]), list(zip(jobs, objs)))):
                if rc:
                    raise Broken("native compile of %s failed:\n%s" % (j[0], o))
        libs = [] if env else ["-lpcre", "-lmagic"]
        rc, o = sh(cc + objs + ["-o", out] + libs)
        if rc:
            raise Broken("native link failed:\n" + o)
        shutil.rmtree(ud)
        return out

    def ir_hash(self):
        if not hasattr(self, "hash_c"):
            self.hash_c = [f for f in ("hash/language_hash.c",) if os.path.exists(os.path.join(self.src, f)) and '#include "hash/language_hash.c"' not in self._alltext()]

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def osym(bc, entry, params=(), time_s=100, merge=None, prio=None, steps=None, maxviol=4, extra=()):
    fd, out = tempfile.mkstemp(suffix=".json", dir=os.path.dirname(bc))
    os.close(fd)
    cmd = [OSYM, bc, "-entry", entry, "-time", str(time_s), "-out", out, "-maxviol", str(maxviol)]
    for i, p in enumerate(params):
        cmd += ["-set", "v_param%s=%d" % ("" if i == 0 else str(i + 1), p)]
    if merge:
        cmd += ["-merge", merge]
    if prio:
        cmd += ["-prio", prio]
    if steps:
        cmd += ["-steps", str(steps)]
    cmd += list(extra)
    t = time.time()
    try:
        rc, o = sh(cmd, timeout=time_s + 200)
    except subprocess.TimeoutExpired:
        os.unlink(out)
        return {"fatal": "the solver did not stop in time", "violations": [], "incomplete": True, "seconds": time.time() - t, "timeout": True, "cmd": cmd}
    try:
        r = json.load(open(out))
    except Exception:
        r = {"fatal": "executor failed (%s): %s" % (rc, o[-2000:]), "violations": [], "incomplete": True, "seconds": time.time() - t}
    os.unlink(out)
    r["cmd"] = cmd
    return r


def osym_batch(bc, jobs, merge, prio, extra, deadline, par):
    """runs (entry, params, time, maxviol) jobs in children of one process that has loaded the program; yields (index, result or None if not run)"""
    d = tempfile.mkdtemp(prefix="b", dir=os.path.dirname(bc))
    lines = []
    for i, (entry, params, t, mv) in enumerate(jobs):
        sets = " ".join("v_param%s=%d" % ("" if k == 0 else str(k + 1), p) for k, p in enumerate(params))
        lines.append("%d %s/%d.json %g %d %s %s" % (i, d, i, max(5, min(t, deadline - time.time())), mv, entry, sets))
    with open(d + "/batch", "w") as f:
        f.write("\n".join(lines) + "\n")
    cmd = [OSYM, bc, "-batch", d + "/batch", "-par", str(par)] + (["-merge", merge] if merge else []) + (["-prio", prio] if prio else []) + ["-witness"] + list(extra)
    with open(d + "/err", "w") as err:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=err, text=True)
    timer = threading.Timer(max(1, deadline - time.time()), p.kill)
    timer.start()
    left = set(range(len(jobs)))
    try:
        for line in p.stdout:
            _, i, rc = line.split()
            i = int(i)
            left.discard(i)
            path = "%s/%d.json" % (d, i)
            try:
                r = json.load(open(path))
                os.unlink(path)
            except Exception:
                r = {"fatal": "executor ended with %s: %s" % (rc, open(d + "/err").read()[-500:]), "violations": [], "incomplete": True, "seconds": 0}
            yield i, r
        if p.wait() not in (0, -9):
            raise Broken("executor failed: " + open(d + "/err").read()[-2000:])
        for i in sorted(left):
            yield i, None
    finally:
        timer.cancel()
        p.kill()
        p.wait()
        shutil.rmtree(d, ignore_errors=True)


def replay(exe, params, inputs, timeout=20):
    """run the real code natively on a witness: returns (failed?, text)"""
    fd, w = tempfile.mkstemp(suffix=".wit", dir=os.path.dirname(exe))
    with os.fdopen(fd, "w") as f:
        for k, v in inputs.items():
            f.write("%s %d\n" % (k, v))
    env = dict(os.environ, V_WITNESS=w, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1:exitcode=99", UBSAN_OPTIONS="print_stacktrace=1", MSAN_OPTIONS="exitcode=99")
    for i, p in enumerate(params):
        env["V_PARAM%s" % ("" if i == 0 else str(i + 1))] = str(p)
    try:
        r = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        txt = r.stderr.decode("latin1")[-6000:]
        if r.returncode == 55:
            return False, "assumption false on replay\n" + txt
        return r.returncode != 0, "exit %d\n%s" % (r.returncode, txt)
    except subprocess.TimeoutExpired:
        return True, "no answer in %d s (hang)" % timeout
