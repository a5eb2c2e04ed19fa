"""Example programs of the repository: random settings, what they must print (from harness/exref.c or closed forms), comparison."""
import hashlib, os, re, shutil, tempfile
from vlib import *

EXAMPLES = "README-example jac1d jac2d jac3d markov markov2 min ping_pong propagation1d propagation2d resize spmv spmv2 vsum vsum2 vsum3 c++/raytracer".split()


def example_lib():
    return build("liblaikexamples.so", ["harness/sleep.c"], mpi="real", tcp=True, tcp2=True, shared=True)


def build_examples():
    lib = example_lib(); r = {}
    with cf.ThreadPoolExecutor(NPROC) as ex:
        fs = {}
        for e in EXAMPLES:
            src = os.path.join(REPO, "examples", e + (".cpp" if "c++" in e else ".c")); n = os.path.basename(e)
            fs[n] = ex.submit(build_prog, "ex_" + n, src, lib)
        for n, f in fs.items():
            r[n] = f.result()
    return r


def build_exref():
    src = os.path.join(VERIF, "harness/exref.c")
    exe = os.path.join(BUILD, f"exref-{tree_hash([src])[:16]}.exe")
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        r = sh(f"gcc -O2 -o {exe}.tmp{os.getpid()} {src} -lm")
        if r.returncode:
            raise HarnessError("building exref failed: " + r.stdout)
        os.rename(f"{exe}.tmp{os.getpid()}", exe)
    return exe


def numbers(pat, out):
    return [tuple(m.groups()) for m in re.finditer(pat, out)]


def close(a, b, rel):
    a, b = float(a), float(b)
    return abs(a - b) <= 2e-6 + rel * max(abs(a), abs(b))


def same(got, want, rel, what, errs):
    if len(got) != len(want):
        errs.append(f"{what}: {len(got)} results instead of {len(want)}: {got[:6]} / {want[:6]}"); return
    for g, w in zip(got, want):
        for x, y in zip(g, w):
            if not close(x, y, rel):
                errs.append(f"{what}: {g} instead of {w}"); return


def ref(*a):
    p = sh([build_exref()] + [str(x) for x in a])
    if p.returncode:
        raise HarnessError("exref " + " ".join(map(str, a)))
    return p.stdout


def check_jac(name, size, iters, want_sum):
    def f(out, n, errs):
        r = ref(name, size, iters)
        got = sorted(numbers(r"Residuum after\s+(\d+) iters: (\S+)", out), key=lambda t: int(t[0]))
        same(got, numbers(r"residuum (\d+) (\S+)", r), 1e-8, "residuum", errs)
        same(numbers(r"Global value sum after (\d+) iterations: (\S+)", out), numbers(r"sum (\d+) (\S+)", r) if want_sum else [], 1e-8, "sum", errs)
        return 1 + len(got)
    return f


def check_markov(name, args):
    def f(out, n, errs):
        r = ref(name, *args)
        same(numbers(r"esult probs: p0 = (\S+), p1 = (\S+), p2 = (\S+), Sum: (\S+)", out), numbers(r"probs (\S+) (\S+) (\S+) (\S+)", r), 1e-5, "probabilities", errs)
        return 3
    return f


def check_spmv(size):
    def f(out, n, errs):
        w = numbers(r"res (\S+)", ref("spmv", size))
        same(numbers(r"Res sum \(regular\): (\S+)", out), w, 1e-9, "regular sum", errs)
        same(numbers(r"Res sum \(reduce\): (\S+)", out), w, 1e-9, "reduced sum", errs)
        return 2
    return f


def check_spmv2(iters, size):
    def f(out, n, errs):
        r = ref("spmv2", iters, size)
        got = sorted(numbers(r"Sum at iter\s+(\d+): (\S+)", out), key=lambda t: int(t[0]))
        same(got, numbers(r"iter (\d+) (\S+)", r), 1e-8, "sum", errs)
        same(numbers(r"Result sum: (\S+)", out), numbers(r"result (\S+)", r), 1e-8, "result sum", errs)
        same(numbers(r"Input sum: (\S+)", out), [("1.0",)], 1e-8, "input sum", errs)
        return 2 + len(got)
    return f


def check_vsum(size, shrunk):
    def f(out, n, errs):
        tot = str(size * (size - 1) // 2)
        ids = sorted(numbers(r"Id (\d+): partitial sums (\d+), (\d+), (\d+), (\d+)", out), key=lambda t: int(t[0]))
        if [int(t[0]) for t in ids] != list(range(n)):
            errs.append(f"processes {[t[0] for t in ids]} reported")
        elif any(sum(int(t[c]) for t in ids) != int(tot) for c in range(1, 5)):
            errs.append(f"partial sums {ids} do not sum up to {tot}")
        same(numbers(r"Total sums: (\d+), (\d+), (\d+), (\d+)", out), [(tot,) * 4], 0, "total sums", errs)
        if shrunk and n > 1:
            g = sorted(numbers(r"My world ID (\d+), in shrinked group: (-?\d+)", out), key=lambda t: int(t[0]))
            if [(int(a), int(b)) for a, b in g] != [(i, i - 1) for i in range(n)]:
                errs.append(f"ids in the shrinked group: {g}")
        return 4 + n
    return f


def check_hello(out, n, errs):
    g = sorted(numbers(r"Hello from process (\d+) \(from (\d+)\)", out))
    if sorted((int(a), int(b)) for a, b in g) != [(i, n) for i in range(n)]:
        errs.append(f"greetings {g}")
    return n


def check_text(pat, what):
    def f(out, n, errs):
        if len(re.findall(pat, out)) != 1:
            errs.append(f"{what} missing")
        return 1
    return f


def check_resize(phases):
    def f(out, n, errs):
        g = sorted((int(b), int(c), int(d), int(a)) for a, b, c, d in numbers(r"Epoch (\d+) / Phase (\d+): Hello from process (\d+) of (\d+)", out))
        if g != [(p, i, n, 0) for p in range(phases + 1) for i in range(n)]:
            errs.append(f"greetings (phase, process, size, epoch) {g}")
        return n
    return f


def check_vsum3(size, phases):
    def f(out, n, errs):
        tot = str(size * (size - 1) // 2)
        same(sorted(numbers(r"Phase (\d+): total sum: (\d+)", out)), [(str(p), tot) for p in range(phases + 1)], 0, "total sums", errs)
        g = numbers(r"Phase (\d+), Epoch 0, Proc (\d+)/(\d+): sum of (\d+) values at (\d+) - (-?\d+) : (\d+)", out)
        for p in range(phases + 1):
            q = [t for t in g if int(t[0]) == p]
            if sorted(int(t[1]) for t in q) != list(range(n)) or sum(int(t[3]) for t in q) != size or sum(int(t[6]) for t in q) != int(tot):
                errs.append(f"phase {p}: {q}")
        return 2 + n
    return f


def check_image(args):
    def f(out, n, errs, img):
        d = tempfile.mkdtemp(dir=BUILD)
        try:
            rc, o = run_cmd([build_examples()["raytracer"]] + list(args), {"LAIK_BACKEND": "single"}, 120, cwd=d)
            if rc or not os.path.exists(d + "/untitled.ppm"):
                errs.append("serial run failed: " + o[-500:]); return 0
            with open(d + "/untitled.ppm", "rb") as h:
                w = h.read()
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if img != w:
            errs.append("image differs from the one of a serial run")
        return len(w) // 3
    return f


def none(out, n, errs):
    return 1


def gen_example(name, r, n):
    """random arguments and oracle for an example to run with n processes; None if it does not support n"""
    if name == "README-example":
        return [], check_text(r"Result: 1000000\.0000", "result")
    if name == "jac1d":
        k, it = r.randint(1, 3), r.randint(1, 60); a = [k, it]
        if r.random() < .6:
            a.append(r.choice([1, 2, 3, 7, 10, -1, -5]))
        return a, check_jac(name, k * 1000, it, True)
    if name == "jac2d":
        size, it = r.choice([2, 3, 5, r.randint(4, 70)]), r.randint(1, 45); a, s = [], r.random() < .8
        if s:
            a.append("-s")
        if r.random() < .5:
            a.append("-n")
        if r.random() < .2:
            a.append("-p")
        return a + [size, it], check_jac(name, size, it, s)
    if name == "jac3d":
        size, it = r.choice([2, 3, r.randint(3, 22)]), r.randint(1, 25); a, s = [], r.random() < .8
        if s:
            a.append("-s")
        grid = r.random() < .35
        if grid:
            a += ["-g"] if r.random() < .5 else ["-x", r.choice([1, 1, 2, n])]
        for o in "n", "r", "l":
            if r.random() < .4:
                a.append("-" + o)
        o = r.choice(["", "", "-e", "-a", "-a"])
        if o:
            a.append(o)
        if r.random() < .15:
            a.append("-p")
        if not grid and r.random() < .4:
            a += ["-i", r.randint(1, 7)]
            if r.random() < .4:
                a += ["-c", r.randint(1, 2)]
        return a + [size, it], check_jac(name, size, it, s)
    if name in ("markov", "markov2"):
        fine = r.random() < .5; a = ["-f"] if fine else []
        for o in "i", "c", "s":
            if r.random() < .3 and (o == "s" or n == 1):   # known finding: fails on multiple processes
                a.append("-" + o)
        if r.random() < .1:
            a.append("-p")
        k = max(n, 6) + r.choice([0, 1, r.randint(1, 300)]); deg = r.randint(1, min(6, k - 1)); it = r.randint(1, 12)
        if name == "markov":
            return a + [k, deg, it], check_markov(name, (k, deg, it, int(fine)))
        one = r.choice([-1, r.randint(0, k - 1), k - 1]) if n == 1 else r.choice([-1, 0])   # known finding
        return a + [k, deg, it] + ([one] if one >= 0 else []), check_markov(name, (k, deg, it, one, int(fine)))
    if name == "min":
        return [], check_hello
    if name == "ping_pong":
        if n < 2:
            return None
        return [o for o in ("-r", "-a", "-s") if r.random() < .5] + [r.choice([1, 7, r.randint(1, 30000)]), r.randint(1, 6)], check_text(r"Time: ", "time")
    if name == "propagation1d":
        return None   # known finding
    if name == "propagation2d":
        return (["-o"] if r.random() < .5 else []) + [r.randint(1, 12), r.randint(1, 8)], check_text(r"calculated: 1\.000000", "right sum")
    if name == "spmv":
        size = r.choice([2, 3, r.randint(2, 400)])
        return [size], check_spmv(size)
    if name == "spmv2":
        size, it = r.randint(max(n, 3), 300), r.randint(1, 9); a = []
        if r.random() < .5:
            a.append("-r")
        if r.random() < .6:
            a += ["-s", r.randint(1, 3)]
            if r.random() < .6:   # known finding: fails if just as many processes are left
                a += ["-t", r.randint(0, max(0, n - 1 - it // a[-1]))]
            if r.random() < .5:
                a.append("-i")
        return a + [it, size], check_spmv2(it, size)
    if name in ("vsum", "vsum2"):
        size = r.choice([1, 2, n, r.randint(1, 5000), 100000])
        return [size], check_vsum(size, name == "vsum")
    if name == "resize":
        return [1], check_resize(1)
    if name == "vsum3":
        size = r.randint(n, 5000)
        return [1, size], check_vsum3(size, 1)
    if name == "raytracer":
        a = ["-w", r.randint(2, 40), "-h", r.randint(2, 40), "-d", r.randint(1, 4)]
        return a, check_image(a)
    raise HarnessError(name)


# Runs known to fail (see KNOWN_FINDINGS.txt); the sources of the examples are not to be changed. They are left out of the random runs
KNOWN_RUNS = [("markov", ["-i", 12, 2, 3], 2), ("markov2", ["-i", 12, 2, 3], 2), ("markov2", [12, 2, 3, 11], 2), ("spmv2", ["-s", 1, "-t", 2, 6, 30], 3), ("propagation1d", [], 2)]


def known_run_fn(name, args, n, port):
    def run(job):
        rc, out = example_fn(name, args, lambda out, n, errs: 0, n, port)(job)
        if rc == 0:
            return rc, out
        m = re.search(r"([\w\-./]+\.c):\d+: (\w+): Assertion `(.*)' failed", out)
        how = f"{os.path.basename(m.group(1))}: {m.group(3)}" if m else f"exit {rc}"
        key = "_".join(["run:" + name] + [str(a) for a in args] + [f"x{n}"])
        return 0, f"V {key} {name} {' '.join(map(str, args))} with {n} processes fails: {how}\nN known_runs 1\nD\n"
    return run


def example_fn(name, args, oracle, n, port):
    """wraps the run of an example job: own directory, comparison of what was printed with the expectation"""
    def run(job):
        d = tempfile.mkdtemp(dir=BUILD)
        try:
            env = dict(job.env)
            if env.get("LAIK_BACKEND") == "tcp2":
                env["LAIK_TCP2_PORT"] = port()
            rc, out = run_cmd(job.cmd, env, job.timeout, cwd=d)
            if rc != 0:
                return rc, out
            errs = []
            if name == "raytracer":
                try:
                    with open(d + "/untitled.ppm", "rb") as h:
                        img = h.read()
                except OSError:
                    img = b""
                k = oracle(out, n, errs, img)
            else:
                k = oracle(out, n, errs)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        opts = "".join(sorted(str(a) for a in args if str(a).startswith("-") and not str(a)[1:].isdigit()))
        out += f"\nN example_runs 1\nN example_{name} 1\nN results_compared {k}\nN processes {n}\nS {name} {opts} {n}\nX {name} {' '.join(map(str, args))} with {n} processes: {k} results\n"
        for e in errs[:3]:
            out += f"V wrong-result:{name} {name} {' '.join(map(str, args))} with {n} processes: {e}\n"
        return rc, out + "D\n"
    return run
