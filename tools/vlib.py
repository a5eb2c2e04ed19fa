"""Shared machinery of all checks: building the code under test, running harness jobs, judging what they report.

Harness protocol (lines on stdout): V <key> <text> violation; K ... KEND crash of a rank with its log; I inconclusive;
E harness error; N counter; S signature of a distinct non-trivial case; X sample; D complete.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LAIK_REPO", "/repo")
BUILD = os.environ.get("LAIK_VERIF_BUILD") or os.path.join(VERIF, "build")
EVID = os.environ.get("LAIK_VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
NPROC = os.cpu_count() or 8
CORE = "action backend-mpi backend-single backend core data debug external kvs layout layout_lex logging partitioner partitioning profiling program rangelist revinfo space type".split()
SAN = {
    "asan": "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment,nonnull-attribute -fno-sanitize-recover=all",
    "tsan": "-O1 -g -fno-omit-frame-pointer -fsanitize=thread",
    "plain": "-O1 -g",
}
LINK = {"asan": "-fsanitize=address,undefined", "tsan": "-fsanitize=thread", "plain": ""}


class HarnessError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\1")
    return h.hexdigest()[:20]


def walk(d, exts):
    r = []
    for root, dirs, files in os.walk(d):
        dirs[:] = [x for x in dirs if x not in (".git", "_build")]
        for f in files:
            if f.endswith(exts):
                r.append(os.path.join(root, f))
    return r


def mpi_flags():
    cf_ = sh("mpicc --showme:compile").stdout.strip()
    ld = sh("mpicc --showme:link").stdout.strip()
    return cf_, ld


def glib_flags():
    return sh("pkg-config --cflags glib-2.0 gio-2.0 gthread-2.0").stdout.strip(), sh("pkg-config --libs glib-2.0 gio-2.0 gthread-2.0").stdout.strip()


def build(name, harness, san="asan", mpi="shim", extra_defs="", tcp=False, tcp2=False, extra_src=(), extra_link="", drop=(), incl_src=True, quiet=False, cc="gcc", shared=False):
    """Compile the library sources of the current working tree plus harness files into one executable.
    mpi: 'shim' (monitoring stand-in), 'real' (installed MPI), None."""
    src = [s for s in CORE if s not in drop]
    if mpi is None:
        src = [s for s in src if s != "backend-mpi"]
    files = [os.path.join(REPO, "src", s + ".c") for s in src]
    if tcp2:
        files.append(os.path.join(REPO, "src", "backend-tcp2.c"))
    if tcp:
        files += sorted(walk(os.path.join(REPO, "src/backends/tcp"), (".c",)))
    files = [f for f in files if os.path.exists(f)]
    hfiles = [os.path.join(VERIF, h) if not h.startswith("/") else h for h in list(harness) + list(extra_src)]
    if mpi == "shim":
        hfiles.append(os.path.join(VERIF, "shim/mpishim.c"))
    defs = f"-D_GNU_SOURCE -std=gnu99 -w -DLAIK_VERIF_PACKBUFSIZE=32000 {extra_defs}"
    incl = f"-I{REPO}/include -I{REPO}/src"
    link = f"{LINK[san]} {extra_link} -ldl -lpthread -lm"
    if mpi == "shim":
        defs += " -DUSE_MPI"; incl = f"-I{VERIF}/shim " + incl
    elif mpi == "real":
        a, b = mpi_flags(); defs += " -DUSE_MPI"; incl += " " + a; link += " " + b
    if tcp2:
        defs += " -DUSE_TCP2"
    if tcp:
        a, b = glib_flags(); defs += " -DUSE_TCP"; incl += " " + a; link += " " + b
    flags = f"{SAN[san]} {defs} {incl}"
    if shared:
        flags += " -fPIC"; link += " -shared"
    dep = files + hfiles + walk(os.path.join(REPO, "include"), (".h",)) + walk(os.path.join(REPO, "src"), (".h",)) + walk(os.path.join(VERIF, "harness"), (".h", ".inc")) + walk(os.path.join(VERIF, "shim"), (".h",))
    key = hashlib.sha256((tree_hash(set(dep)) + flags + link + cc + name).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, f"{name}-{key}")
    exe = os.path.join(d, name)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    for old in os.listdir(BUILD):
        if re.fullmatch(re.escape(name) + r"-[0-9a-f]{16}", old):
            shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
    tmp = d + f".tmp{os.getpid()}"
    os.makedirs(tmp)
    with open(os.path.join(tmp, "git-version.h"), "w") as f:
        f.write('#define GIT_VERSION "verif"\n')

    def one(i_f):
        i, f = i_f
        o = os.path.join(tmp, f"{i}_{os.path.basename(f)}.o")
        r = sh(f"{cc} {flags} -I{tmp} -I{VERIF}/harness -c {f} -o {o}")
        return o, f, r
    with cf.ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(one, enumerate(files + hfiles)))
    for o, f, r in res:
        if r.returncode:
            shutil.rmtree(tmp, ignore_errors=True)
            raise HarnessError(f"compiling {f} failed:\n{r.stdout[-3000:]}")
    r = sh(f"{cc} -o {os.path.join(tmp, name)} " + " ".join(o for o, _, _ in res) + " " + link)
    if r.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        raise HarnessError(f"linking {name} failed:\n{r.stdout[-3000:]}")
    for o, _, _ in res:
        os.unlink(o)
    if os.path.exists(d):
        shutil.rmtree(tmp)
    else:
        os.rename(tmp, d)
    return exe


def build_prog(name, src, lib, san="asan"):
    """an application program (e.g. an example of the repository), linked to a library made by build(..., shared=True)"""
    cxx = src.endswith(".cpp")
    cmd = f"{'g++' if cxx else 'gcc -std=gnu99'} -w {SAN[san]} -I{REPO}/include -D_GNU_SOURCE"
    key = hashlib.sha256((tree_hash([src] + walk(os.path.join(REPO, "include"), (".h",))) + cmd + lib).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, f"{name}-{key}.exe")
    if not os.path.exists(exe):
        for old in os.listdir(BUILD):
            if re.fullmatch(re.escape(name) + r"-[0-9a-f]{16}\.exe", old):
                os.unlink(os.path.join(BUILD, old))
        r = sh(f"{cmd} {src} -o {exe}.tmp{os.getpid()} {lib} -Wl,-rpath,{os.path.dirname(lib)} {LINK[san]} -lm")
        if r.returncode:
            raise HarnessError(f"building {src} failed:\n{r.stdout[-3000:]}")
        os.rename(f"{exe}.tmp{os.getpid()}", exe)
    return exe


def build_so(name, files, flags="-g -O1"):
    """a shared library outside of the instrumented program (e.g. an agent loaded at run time)"""
    dep = list(files) + walk(os.path.join(REPO, "include"), (".h",)) + [f[:-2] + ".h" for f in files if os.path.exists(f[:-2] + ".h")]
    so = os.path.join(BUILD, f"{name}-{tree_hash(set(dep))[:16]}.so")
    if not os.path.exists(so):
        os.makedirs(BUILD, exist_ok=True)
        for old in os.listdir(BUILD):
            if re.fullmatch(re.escape(name) + r"-[0-9a-f]{16}\.so", old):
                os.unlink(os.path.join(BUILD, old))
        r = sh(f"gcc -w {flags} -fPIC -shared -I{REPO}/include -o {so}.tmp{os.getpid()} " + " ".join(files))
        if r.returncode:
            raise HarnessError(f"building {name} failed:\n{r.stdout[-3000:]}")
        os.rename(f"{so}.tmp{os.getpid()}", so)
    return so


BASE_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:print_legend=0:exitcode=99",
    "UBSAN_OPTIONS": "print_stacktrace=1",
    "LC_ALL": "C", "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": os.environ.get("HOME", "/root"), "TMPDIR": os.environ.get("TMPDIR", "/tmp"),
}
MPI_ENV = {"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
           "OMPI_MCA_pml": "ob1", "OMPI_MCA_plm": "isolated", "OMPI_MCA_hwloc_base_binding_policy": "none"}
MPIEXEC = "mpiexec --oversubscribe --mca btl_base_warn_component_unused 0"


class Job:
    def __init__(self, cmd, env=None, timeout=150, label=None, fn=None, weight=1):
        self.cmd, self.env, self.timeout, self.fn, self.weight = cmd, env or {}, timeout, fn, weight
        self.label = label or " ".join(str(c) for c in cmd)


def kill_tree(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def run_cmd(cmd, env, timeout, cwd=None, stdin=None):
    """returns (rc or None on timeout, output)"""
    e = dict(BASE_ENV); e.update({k: str(v) for k, v in env.items()})
    own = None
    if "mpiexec" in str(cmd[0]):   # jobs started at the same time must not share a session directory
        own = e["OMPI_MCA_orte_tmpdir_base"] = tempfile.mkdtemp(prefix="mpi", dir="/tmp")
    p = subprocess.Popen([str(c) for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e, cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        kill_tree(p); out, _ = p.communicate(); rc = None
    kill_tree(p)
    if own:
        shutil.rmtree(own, ignore_errors=True)
    return rc, out.decode("utf-8", "replace")


def norm(s):
    s = re.sub(r"0x[0-9a-f]+", "ADDR", s)
    return re.sub(r"-?\d+", "#", s)


def crash_key(lines):
    """stable identification of a crash from its log lines (no line numbers)"""
    for l in lines:
        m = re.search(r"([\w\-./]+\.c):\d+: (\w+): Assertion `(.*)' failed", l)
        if m and m.group(2) != "log_flush":
            return f"assert:{os.path.basename(m.group(1))}:{m.group(2)}:{m.group(3)}"[:200]
    for l in lines:
        m = re.search(r"PANIC\s*: (.*)", l)
        if m:
            return "panic:" + norm(m.group(1)).strip()[:120]
    for i, l in enumerate(lines):
        m = re.search(r"([\w\-./]+\.[ch]):\d+:\d+: runtime error: (.*)", l)
        if m:
            fn = "?"
            for k in lines[i + 1:i + 6]:
                q = re.search(r"#\d+ \S+ in (\w+)", k)
                if q:
                    fn = q.group(1); break
            return f"ubsan:{os.path.basename(m.group(1))}:{fn}:{norm(m.group(2))}"[:200]
    for i, l in enumerate(lines):
        m = re.search(r"ERROR: (\w+Sanitizer): ([\w\-]+)", l)
        if m:
            frames = []
            for k in lines[i + 1:]:
                q = re.search(r"#\d+ \S+ in (\S+) (\S+)", k)
                if q and ("/src/" in q.group(2) and "/verif/" not in q.group(2)):
                    frames.append(q.group(1))
                if "SUMMARY" in k or len(frames) >= 2:
                    break
            return f"{m.group(1)}:{m.group(2)}:" + "<".join(frames[:2])
        m = re.search(r"WARNING: ThreadSanitizer: ([\w\- ]+)", l)
        if m:
            frames = []
            for k in lines[i + 1:]:
                q = re.search(r"#\d+ (\S+) (\S+)", k)
                if q and "/src/" in q.group(2) and len(frames) < 2:
                    frames.append(q.group(1))
            return f"tsan:{m.group(1).strip()}:" + "|".join(frames)
    for l in lines:
        m = re.search(r"(ended with (signal|exit code) \d+)", l)
        if m:
            return m.group(1).replace(" ", "-")
    return "crash"


class Result:
    def __init__(self):
        self.viol = []   # (key, text, job, output tail)
        self.counters = {}
        self.sigs = set()
        self.samples = []
        self.inconcl = []
        self.errors = []
        self.jobs = 0

    def add_output(self, job, rc, out):
        self.jobs += 1
        lines = out.splitlines()
        done = False; i = 0; bad = False
        while i < len(lines):
            l = lines[i]; t = l[:2]
            if t == "V ":
                m = re.match(r"V (\S+) (.*)", l)
                if m:
                    self.viol.append((m.group(1), m.group(2), job, out[-20000:])); bad = True
            elif t == "K ":
                blk = [l]
                while i + 1 < len(lines) and lines[i] != "KEND":
                    i += 1; blk.append(lines[i])
                self.viol.append((crash_key(blk[1:] + [blk[0]]), l[2:] + " | " + " / ".join(x for x in blk[1:6]), job, "\n".join(blk)[-20000:])); bad = True
            elif t == "I ":
                self.inconcl.append((l[2:], job, out[-6000:])); bad = True
            elif t == "E ":
                self.errors.append((l[2:], job, out[-6000:])); bad = True
            elif t == "N ":
                p = l.split()
                if len(p) == 3:
                    try:
                        self.counters[p[1]] = self.counters.get(p[1], 0) + int(p[2])
                    except ValueError:
                        pass
            elif t == "S ":
                self.sigs.add(l[2:])
            elif t == "X " and len(self.samples) < 400:
                self.samples.append(l[2:][:700])
            elif l == "D":
                done = True
            i += 1
        if rc is None:
            self.inconcl.append((f"time limit of {job.timeout} s", job, out[-6000:]))
        elif not bad and (rc != 0 or not done):
            # the harness process itself died: decide from its own output
            k = crash_key(lines)
            if k != "crash":
                self.viol.append((k, f"exit {rc}: " + " / ".join(lines[-6:])[:600], job, out[-20000:]))
            elif rc is not None and rc < 0:
                self.viol.append((f"ended-with-signal-{-rc}", " / ".join(lines[-6:])[:600], job, out[-20000:]))
            else:
                self.errors.append((f"exit {rc} without result", job, out[-6000:]))


def run_jobs(jobs, res=None, par=None):
    res = res or Result()
    par = par or NPROC

    def one(j):
        if j.fn:
            return j, j.fn(j)
        return j, run_cmd(j.cmd, j.env, j.timeout)
    with cf.ThreadPoolExecutor(par) as ex:
        pending = []
        it = iter(jobs); stop = False
        running = set()
        while True:
            while not stop and len(running) < par:
                try:
                    j = next(it)
                except StopIteration:
                    stop = True; break
                running.add(ex.submit(one, j))
            if not running:
                break
            dn, running = cf.wait(running, return_when=cf.FIRST_COMPLETED)
            for f in dn:
                j, (rc, out) = f.result()
                res.add_output(j, rc, out)
            if len(res.viol) >= 12 or len(res.inconcl) >= 8:
                stop = True   # enough witnesses
    return res


# ---- known findings -------------------------------------------------------------------------------------------------
def known_findings(prop):
    r = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=\{(.*?)\} (.*)", l.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    return r


def finish(prop, tier, seed, res, rule, evaluations, t0, require=(), assumptions=(), extra=None, nontrivial=None, hang_is_violation=True):
    """judge, write evidence, print verdict, exit"""
    known = known_findings(prop)
    # re-run inconclusive jobs alone, with a larger limit
    if res.inconcl and not any(k not in [x[0] for x in known] for k, *_ in res.viol):
        redo, res.inconcl = res.inconcl[:3], []
        for why, job, _ in redo:
            job.timeout = int(job.timeout * 1.3) + 20
            rc, out = job.fn(job) if job.fn else run_cmd(job.cmd, job.env, job.timeout)
            r2 = Result(); r2.add_output(job, rc, out)
            res.viol += r2.viol; res.errors += r2.errors
            for k, v in r2.counters.items():
                res.counters[k] = res.counters.get(k, 0) + v
            for w2, j2, o2 in r2.inconcl:
                if hang_is_violation:
                    res.viol.append(("hang", f"no progress within the limit twice ({why}; {w2})", j2, o2))
                else:
                    res.inconcl.append((w2, j2, o2))
    new, seen_known = [], {}
    for key, text, job, out in res.viol:
        hit = [w for k, w in known if k == key]
        if hit:
            seen_known[key] = hit[0]
        else:
            new.append((key, text, job, out))
    ev = evaluations(res) if callable(evaluations) else res.counters.get(evaluations, 0)
    nt = nontrivial if nontrivial is not None else len(res.sigs)
    cov = {"evaluations": int(ev), "distinct_nontrivial": int(nt), "rule": rule, "samples": res.samples[:: max(1, len(res.samples) // 6)][:6] or ["(none)"],
           "observed": dict(sorted(res.counters.items())), "jobs": res.jobs, "inconclusive": [w for w, _, _ in res.inconcl], "known_findings_seen": sorted(seen_known)}
    if extra:
        cov.update(extra)
    evd = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(EVID, exist_ok=True)
    p = os.path.join(EVID, f"{prop}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(evd, f, indent=1)
    os.replace(p + ".tmp", p)
    for k, w in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {w}")
    if new:
        uniq = {}
        for n in new:
            uniq.setdefault(n[0], n)
        rd = os.path.join(EVID, "replay"); os.makedirs(rd, exist_ok=True)
        for i, (key, text, job, out) in enumerate(list(uniq.values())[:5]):
            rp = os.path.join(rd, f"{prop}-{i}.txt")
            with open(rp, "w") as f:
                f.write(f"property {prop}\nkey {key}\nwhat {text}\nseed {seed} tier {tier}\ncommand {' '.join(str(c) for c in job.cmd)}\nenvironment {json.dumps(job.env)}\n\n{out}\n")
            print(f"VIOLATION property={prop} replay={rp}")
            print(f"  key={key}\n  {text[:1200]}")
        sys.exit(1)
    if res.errors:
        for w, j, o in res.errors[:3]:
            print(f"harness error: {w}: {j.label}\n{o[-1500:]}", file=sys.stderr)
        sys.exit(2)
    if res.inconcl:
        for w, j, o in res.inconcl[:3]:
            print(f"inconclusive: {w}: {j.label}\n{o[-1500:]}", file=sys.stderr)
        if len(res.inconcl) > max(2, res.jobs // 10):
            sys.exit(2)
    for name, lo in require:
        if res.counters.get(name, 0) < lo:
            print(f"observed too little: {name}={res.counters.get(name, 0)} < {lo}", file=sys.stderr)
            sys.exit(2)
    print(f"OK property={prop} tier={tier} seed={seed} evaluations={ev} distinct={nt} wall={time.time() - t0:.1f}s")
    sys.exit(0)
