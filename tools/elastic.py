"""Drives jobs with the elastic TCP backend: starts processes, lets further ones join and removes some at random times, and
checks the records of all processes against each other (harness/elastic.c) or the printed results (example programs)."""
import ctypes, mmap, os, random, re, shutil, signal, socket, struct, subprocess, tempfile, threading, time
from vlib import *


def send_text(port, txt, r, wait=True, limit=10.0):
    """send a request to the master followed by a question; return the time when the answer came (request surely seen), or None"""
    try:
        s = socket.create_connection(("127.0.0.1", port), 2)
    except OSError:
        return None
    try:
        s.settimeout(limit)
        data = txt.encode() + (b"help\n" if wait else b"")
        if r.random() < .4:
            k = r.randint(1, len(data) - 1); s.sendall(data[:k]); time.sleep(r.random() * .01); s.sendall(data[k:])
        else:
            s.sendall(data)
        if not wait:
            time.sleep(r.random() * .01); return None
        got = b""
        while b"\n" not in got:
            x = s.recv(4096)
            if not x:
                return None
            got += x
        return time.monotonic()
    except OSError:
        return None
    finally:
        s.close()


class Procs:
    def __init__(self, cmd, env, dir_):
        self.cmd, self.dir = [str(c) for c in cmd], dir_
        e = dict(os.environ); e.pop("LAIK_LOG", None)
        e.update({k: str(v) for k, v in env.items()})
        e.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1"); e.setdefault("UBSAN_OPTIONS", "print_stacktrace=1")
        self.env = e; self.p = []   # (Popen, out path, err path, start time)

    def start(self, **extra):
        i = len(self.p); o, r = os.path.join(self.dir, f"o{i}"), os.path.join(self.dir, f"e{i}")
        with open(o, "wb") as fo, open(r, "wb") as fe:
            p = subprocess.Popen(self.cmd, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=dict(self.env, **{k: str(v) for k, v in extra.items()}), start_new_session=True)
        self.p.append((p, o, r, time.monotonic())); return p

    def text(self, i, err=False):
        with open(self.p[i][2 if err else 1], errors="replace") as f:
            return f.read()

    def failed(self):
        return [i for i, x in enumerate(self.p) if x[0].poll() not in (None, 0)]

    def alive(self):
        return [i for i, x in enumerate(self.p) if x[0].poll() is None]

    def kill(self):
        for x in self.p:
            if x[0].poll() is None:
                try:
                    x[0].kill()
                except OSError:
                    pass
        for x in self.p:
            x[0].wait()

    def crashes(self):
        out = []
        for i, x in enumerate(self.p):
            rc = x[0].poll()
            if rc in (0, 77, None) or rc == -9:
                continue
            out.append(f"K process {i} (pid {x[0].pid}) ended with {'signal' if rc < 0 else 'exit code'} {abs(rc)}\n{self.text(i, True)[-12000:]}\nKEND")
        return out


def stacks(ps):
    """where the processes that still run are (for hangs)"""
    t = []
    for i in ps.alive():
        x = ps.p[i][0].pid
        r = sh(["timeout", "20", "gdb", "-p", str(x), "-batch", "-ex", "bt 12"])
        t.append(f"process {i} pid {x}: " + " | ".join(l for l in r.stdout.splitlines() if l.startswith("#")))
    return "\n".join(t)


# ------------------------------------------------------------------------------------------- arbitrary clients
WORDS = ["help", "h", "he", "status", "s", "st", "quit", "q", "cutoff", "c", "#", "allowsend", "a", "data", "d", "enterresize", "e", "getready", "g", "id", "newid", "i", "n", "kvs allow", "kvs changes", "kvs entry", "kvs data", "kvs", "ka", "kc 5", "ke 1 1", "kd %41", "myid", "m", "ok", "o", "phase", "p", "backedout", "b", "register", "r"]
ARGS = ["0", "1", "2", "-1", "255", "256", "2147483647", "-2147483648", "99999999999999999999", "x", "-", "%s", "%n%n%n", "%", "%%", "%4", "*", "[", "(", ".", "'", "\\", "\x80\xff", "a" * 30, "a" * 101, "a" * 400, "h" * 3000, "(0:1)", "00 00 00 00", "ff" * 20, "b", "bbbbbbbbbb", "\r", "\t", "L1:h:1", "localhost", "1e5", "0x10"]
# patterns that are hard for implementations of regular expressions
PATTERNS = ["[", "]", "(", ")", "*", "+", "?", "\\", "(((((((((((((((((((((", "[[:foo:]]", "[[:alpha:", "[[.", "[z-a]", "a**", "(|)", "()", "^*$", "\\1", "(a)\\2", "x{", "x{1", "x{1,", "x{2,1}", "x{99999}y", "(((a{1,99}){1,99}){1,99})zz", "((abcdefghijk|.*){1,32767})x", "(.{1,32767})zz", "(.*)(.*)(.*)(.*)(.*)(.*)\\1\\2\\3x",
            "((.*)*)*zz", "(a|b|c|d|e|f|g)*zz", "nothing", "L9999", "z" * 40, "z" * 41, "z" * 300]


class Flood:
    """floods of connections in a job (number started, number not yet over): clients may lose their connection meanwhile"""
    def __init__(self):
        self.started = self.active = 0


class Junk:
    """clients which send anything to the control ports of the processes of a job"""
    def __init__(self, seed, port, requests, nlids=None, flood=None):
        self.flood = flood or Flood(); self.r = random.Random(seed); self.port = port; self.requests = requests; self.stop = False; self.n = {}; self.errs = []; self.ports = [port]; self.held = []; self.nlids = nlids

    def count(self, k, v=1):
        self.n[k] = self.n.get(k, 0) + v

    def clean(self, data):
        """lines which would do something that is not asked for by accident"""
        out = []
        for l in data.split(b"\n"):
            l0 = l.replace(b"\x04", b"")
            if l0[:1] == b"t" or l[:1] == b"t":
                l = b"T" + l
            x = re.match(rb"m\S{0,19}+\s*([-+]?[0-9]+)", l)
            if x and 0 <= int(x[1]) < 64:   # no authentication: this claims to be a process of the computation
                l = b"myid"
            if not self.requests and l[:1] in (b"r", b"c"):
                l = b"#" + l
            out.append(l)
        return b"\n".join(out)

    def line(self):
        r = self.r; x = r.random()
        if x < .15:
            b = bytes(r.getrandbits(8) for _ in range(r.choice([1, 3, 20, 200, 2000])))
            return self.clean(b.replace(b"\x04", b"\x05"))
        if x < .3:
            p = r.choice(PATTERNS); return ("cutoff " + p).encode("latin1") if self.requests or "nothing" in p else self.clean(("c" + p).encode("latin1"))
        if x < .36:
            return self.clean(b"B" + bytes(r.getrandbits(8) for _ in range(r.randint(0, 5))))
        if x < .4:
            return r.choice([b"help", b"status", b"#" * 100, b"h" * 9000, b"s" + b" " * 7000, b"#" + b"x" * 70000])
        w = r.choice(WORDS)
        if w[0] in "q":
            w = "#q"
        l = w + "".join(r.choice([" ", " ", " ", "  ", "\t", ""]) + r.choice(ARGS) for _ in range(r.choice([0, 1, 1, 2, 3, 4, 5, 6])))
        if r.random() < .1:
            b = bytearray(l.encode("latin1")); b[r.randrange(len(b))] = r.getrandbits(8); l = bytes(b).replace(b"\x04", b"").decode("latin1")
        return self.clean(l.encode("latin1"))

    def connect(self, port=None, rcv=None):
        s = socket.socket(); s.settimeout(4)
        if rcv:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcv)
        s.connect(("127.0.0.1", port or self.r.choice(self.ports))); self.count("clients"); return s

    def ask(self, what, pre=b""):
        """a request for information on a good connection must be answered"""
        f0 = self.flood.started + (self.flood.active > 0)
        got = self.ask1(what, pre)
        return got if f0 == self.flood.started and not self.flood.active else None

    def ask1(self, what, pre):
        s = self.connect(self.port)
        try:
            data = pre + what + b"\n"; k = self.r.randint(0, len(data)) if self.r.random() < .3 else 0
            s.sendall(data[:k]); time.sleep(.002 if k else 0); s.sendall(data[k:]); got = b""; t = time.monotonic()
            last = b"process accepts binary data format" if what[:1] == b"h" else None
            while not self.stop:
                try:
                    s.settimeout(.3); x = s.recv(65536)
                except socket.timeout:
                    x = None
                if x == b"":
                    return None if self.stop else b""
                got += x or b""
                if last and last in got or not last and b"# Known peers:" in got and x is None:
                    break
                if time.monotonic() > t + 40:
                    return got
            self.count("answers"); return got
        except OSError:
            return None
        finally:
            s.close()

    def status(self):
        got = self.ask(self.r.choice([b"status", b"s", b"st all"]))
        if got is None or self.stop:
            return
        peers = re.findall(rb"#  LID ?(\d+) loc '([^']*)' at host '([^']*)' port (-?\d+)", got)
        if b"# Known peers:" not in got or not peers:
            self.errs.append(f"request for the status answered with {got[:200]!r}"); return
        if self.nlids and len(peers) != self.nlids:
            self.errs.append(f"status lists {len(peers)} processes of {self.nlids}")
        self.ports = [self.port] + [int(p[3]) for p in peers[1:] if int(p[3]) > 0]

    def once(self):
        r = self.r; x = r.random()
        if x < .12:
            self.status(); return
        if x < .18:
            pre = b"".join(l for l in (self.line() + b"\n" for _ in range(r.randint(0, 4))) if len(l) < 6000 and b"\x04" not in l and not re.search(rb"^q", l, re.M))
            g = self.ask(r.choice([b"help", b"h", b"help me"]), pre)
            if g is not None and not self.stop and b"Interactive usage" not in g:
                self.errs.append(f"request for help, after {pre[:600]!r}, answered with {g[:200]!r}")
            return
        if x < .2:
            n = r.choice([10, 60, 330, 1000]); l = []; self.flood.started += n >= 60; self.flood.active += n >= 60
            for _ in range(n):
                s = socket.socket(); s.setblocking(False); s.connect_ex(("127.0.0.1", r.choice(self.ports))); l.append(s)
            self.count("clients", n); time.sleep(r.choice([0, .01, .05, .5, 1.5])); self.count("floods")
            for s in l:
                s.close()
            if n >= 60:
                time.sleep(.2); self.flood.active -= 1
            return
        if x < .23:   # asks a lot, but does not read
            s = self.connect(rcv=2048); s.settimeout(.05)
            try:
                for _ in range(r.choice([50, 400])):
                    s.sendall(b"help\nstatus\n" * 10)
            except OSError:
                pass
            self.count("non_readers"); self.held.append(s)
            if len(self.held) > 3:
                self.held.pop(0).close()
            return
        s = self.connect()
        try:
            for _ in range(r.choice([0, 1, 1, 3, 10, 50])):
                b = self.line()
                if r.random() < .9 or b[:1] == b"m":
                    b += b"\n"
                elif r.random() < .5:
                    b += b"\r\n"
                else:   # the end of the line comes later or never
                    b += b" "
                if r.random() < .03:
                    b += b"\x04" if r.random() < .5 else b"quit\n"
                self.count("lines")
                if r.random() < .2:
                    k = r.randint(0, len(b)); s.sendall(b[:k]); time.sleep(r.random() * .003); s.sendall(b[k:])
                else:
                    s.sendall(b)
            if r.random() < .2:
                s.sendall(self.clean(self.line()))
            y = r.random()
            if y < .2:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            elif y < .4:
                s.shutdown(socket.SHUT_WR)
            elif y < .5:
                s.settimeout(.02); s.recv(100)
        except OSError:
            pass
        finally:
            s.close()

    def run(self):
        while not self.stop:
            try:
                self.once()
            except OSError:
                time.sleep(.01)
        for s in self.held:
            s.close()


BOARD = struct.Struct("4i64i")
PATS = ["L{lid}:", "^L{lid}:.*$", ":{pid}$", "(:{pid}|nothing)$", "L{lid}:[^:]*:{pid}", "[L]{lid}:"]


def elastic_job(exe, seed, free_port, limit=90, junk=None):
    """junk: None, "static" (world never changes) or "elastic": arbitrary clients disturb"""
    def run(job):
        r = random.Random(seed * 1000003 + 17); d = tempfile.mkdtemp(prefix="elastic"); port = free_port(); out = []
        n0 = r.choice([1, 1, 2, 2, 3, 4, 5]); env = dict(LAIK_BACKEND="tcp2", LAIK_TCP2_PORT=port, LAIK_SIZE=n0, VH_BOARD=os.path.join(d, "board"))
        if r.random() < .3:
            env["VH_HOSTNAME"] = r.choice(["h" * 64, "a.b-c.example.org", "x", "node-" + "0" * 45])
        if r.random() < .25:
            env["LAIK_LAYOUT_GENERIC"] = 1
        if junk == "static":
            env["VH_NORESIZE"] = 1; n0 = env["LAIK_SIZE"] = r.choice([2, 2, 3, 4])
        with open(env["VH_BOARD"], "wb") as f:
            f.write(b"\0" * BOARD.size)
        with open(env["VH_BOARD"], "r+b") as f:
            mm = mmap.mmap(f.fileno(), BOARD.size)
        ps = Procs([exe, "--seed", seed], env, d)
        def opts():
            e = {"VH_DELAY": r.choice([0, 0, 300, 3000, 10000])}
            if r.random() < .3:
                e["LAIK_TCP2_BIN"] = 0
            if r.random() < .4:
                e["VH_SHORTIO"] = r.choice([5, 30, 80])
            return e
        def board():
            b = BOARD.unpack(mm[:BOARD.size]); return dict(stop=b[0], iter=b[1], changes=b[2], n=b[3], pids=list(b[4:4 + max(0, min(64, b[3]))]))
        cuts = []      # (sent, answered or None, pattern, members seen before it was sent)
        flood = Flood(); bad = None; clients = [Junk(seed * 10 + i, port, junk == "static", n0 if junk == "static" else None, flood) for i in range(r.choice([1, 1, 2, 3]))] if junk else []; threads = []
        def clients_start():
            for c in clients:
                t = threading.Thread(target=c.run, daemon=True); t.start(); threads.append(t)
        try:
            first = ps.start(**opts())
            if r.random() < .5:
                time.sleep(r.random() * .2)
            early_join = r.choice([0, 0, 0, 1, 2]) if junk != "static" else 0
            early = junk and r.random() < .4   # also while the world is not complete yet
            if early:
                for c in clients:
                    c.requests, c.nlids = False, None
                clients_start(); time.sleep(r.random() * .5)
            hold = []
            if junk and r.random() < .25:   # many idle connections while the processes connect to each other
                time.sleep(.4); flood.started += 1; flood.active += 1
                for _ in range(r.choice([120, 260, 400])):
                    s = socket.socket(); s.setblocking(False); s.connect_ex(("127.0.0.1", port)); hold.append(s); time.sleep(.001)
                out.append("N held_floods 1"); time.sleep(r.choice([0, .3]))
            for _ in range(n0 - 1 + early_join):
                ps.start(**opts())
                if r.random() < .3:
                    time.sleep(r.random() * .1)
            events = r.randint(2, 8)
            if r.random() < .15 and junk != "static":
                send_text(port, "cutoff " + r.choice(["L1:", "L2:", ".*", "L[0-9]+:"]) + "\n", r, wait=False); cuts.append((0, None, ".*", set()))
            def wait(cond, what):
                nonlocal bad
                it0 = None; t0 = time.monotonic()
                while True:
                    if ps.failed():
                        bad = "failed"; return False
                    if cond():
                        return True
                    b = board()
                    if it0 is None and b["n"]:
                        it0 = b["iter"]
                    if time.monotonic() > t0 + limit / 2:
                        ended = len(ps.p) - len(ps.alive())
                        bad = f"I {what}: nothing for {limit / 2:.0f} s, iteration {b['iter']} (was {it0}), world of {b['n']}, {len(ps.alive())} processes run, {ended} ended" if it0 is None or b["iter"] < it0 + 60 else \
                              f"V not-served [seed={seed}] {what}: not done after {b['iter'] - it0} iterations, each with a resize point at least every 4"
                        return False
                    time.sleep(.004)
            ok = wait(lambda: board()["n"] > 0, "start of the initial processes")
            k = 0
            if hold:
                for s in hold:
                    s.close()
                time.sleep(.2); flood.active -= 1
            if junk and not early:
                clients_start()
            if junk == "static":
                t_end = time.monotonic() + r.choice([1.5, 2.5])
                wait(lambda: time.monotonic() > t_end, "computation"); events = 0; ok = ok and not bad
                it1 = board()["iter"]; ok = ok and wait(lambda: board()["iter"] > it1 + 3, "progress of the computation"); out.append(f"N iterations_disturbed {board()['iter']}")
            while ok and k < events and board()["changes"] < 30:
                k += 1; x = r.random()
                if x < .5 and len(ps.alive()) < 9 and len(ps.p) < 18:
                    for _ in range(r.choice([1, 1, 2, 3])):
                        ps.start(**opts())
                        if r.random() < .4:
                            time.sleep(r.random() * .05)
                else:
                    # location ids as the processes tell them
                    lid = {}
                    for i in range(len(ps.p)):
                        m = re.search(r"^T world \S+ (\d+) \S+ \S+ \S+ \S+ (\d+)", ps.text(i), re.M)
                        if m:
                            lid[int(m[1])] = int(m[2])
                    b = board(); cand = [p for p in b["pids"] if p in lid]; y = r.random(); seen = set(cand)
                    if y < .7 and cand:
                        p = r.choice(cand); pat = r.choice(PATS).format(lid=lid[p], pid=p)
                    elif y < .8:
                        pat = ".*"
                    elif y < .9:
                        pat = r.choice(["nothing", "L999:", "^$", "[", "(", "*", "L(1|3|5):", "L[1-2]:"])
                    else:
                        pat = r.choice(["L[02468]:", "L1?[1-9]:", "L0:"])
                    t = time.monotonic(); a = send_text(port, ("cutoff " if r.random() < .5 else "c ") + pat + "\n", r, wait=r.random() < .8)
                    cuts.append((t, a, pat, {(p, lid[p]) for p in seen}))
                time.sleep(r.random() * r.choice([0, .02, .1, .3]))
                if r.random() < .4:   # everything asked for so far must be served before going on
                    ok = ok and settle(ps, board, cuts, env, wait)
            ok = ok and settle(ps, board, cuts, env, wait)
            for c in clients:
                c.stop = True
            for t in threads:
                t.join(60)
            if ok:
                mm[0:4] = struct.pack("i", 1)
                wait(lambda: not ps.alive(), "end of all processes")
            if bad and bad.startswith("I "):
                out.append("I hang " + bad[2:] + " " + stacks(ps).replace("\n", " ; "))
            elif bad and bad.startswith("V"):
                out.append(bad)
            if bad == "failed":
                time.sleep(.3)
        finally:
            for c in clients:
                c.stop = True
            ps.kill(); mm.close()
        for c in clients:
            out += [f"V no-answer [seed={seed}] {e}" for e in c.errs[:2]] + [f"N {k} {v}" for k, v in c.n.items()]
        out += ps.crashes(); texts = [ps.text(i) for i in range(len(ps.p))]
        for t in texts:
            out += [l for l in t.splitlines() if l[:2] in ("V ", "N ", "S ", "E ")]
        if junk and not any(l.startswith(("V ", "K ", "I ")) for l in out):
            out.append(f"S junk {junk} {n0} {sorted(c.n.items() for c in clients)}"[:300])
        if not any(l.startswith(("V ", "K ", "I ")) for l in out):
            out += audit(texts, [x[0].pid for x in ps.p], cuts, seed, n0, ps.p[0][0].pid, env)
            out += ["N jobs 1", f"N processes {len(ps.p)}", "D"]
        shutil.rmtree(d, ignore_errors=True)
        return 0, "\n".join(out) + "\n"
    return Job([exe, "--seed", seed], {}, limit * 3, label=f"elastic seed {seed}", fn=run)


def matches(pat, lid, host, pid):
    try:
        return re.search(pat.replace("[[", "["), f"L{lid}:{host}:{pid}") is not None
    except re.error:
        return False


def settle(ps, board, cuts, env, wait):
    """wait until every started process is (or was) in the world and every process asked to leave has left"""
    def done():
        b = board(); host = env.get("VH_HOSTNAME") or socket.gethostname()
        for i, x in enumerate(ps.p):
            if "T world" not in ps.text(i):
                return False
        for t, a, pat, members in cuts:
            if a is None:
                continue
            for p, l in members:
                if l > 0 and p in b["pids"] and matches(pat, l, host, p):
                    return False
        return True
    return wait(done, "service of all requests to join or leave")


def audit(texts, pids, cuts, seed, n0, master, env):
    """compare the records of all processes"""
    out = []; w = {}; allow = []; host = env.get("VH_HOSTNAME") or socket.gethostname()
    def V(key, s):
        out.append(f"V {key} [seed={seed}] {s}")
    mpid = None
    for t in texts:
        for l in t.splitlines():
            f = l.split()
            if l.startswith("T world"):
                rec = dict(t=float(f[2]), pid=int(f[3]), it=int(f[4]), phase=int(f[5]), epoch=int(f[6]), changed=int(f[7]), lid=int(f[8]), size=int(f[9]), me=int(f[10]), lids=tuple(map(int, f[11].split(","))), par=None if f[12] == "-" else tuple(map(int, f[12].split(","))))
                if rec["lid"] == 0:
                    mpid = rec["pid"]
                w.setdefault(rec["it"], []).append(rec)
            elif l.startswith("T allow"):
                allow.append((float(f[2]), int(f[3]), int(f[4])))
    lid_of = {}
    for it, rs in w.items():
        for x in rs:
            if lid_of.setdefault(x["pid"], x["lid"]) != x["lid"]:
                V("lid", f"process {x['pid']} has location ids {lid_of[x['pid']]} and {x['lid']}")
    if len(set(lid_of.values())) != len(lid_of):
        V("lid", f"location ids not unique: {lid_of}")
    pid_of = {v: k for k, v in lid_of.items()}
    cur = None; ep = 0; served = {}; nworlds = 0; joins = leaves = 0; known = set(); left = set(); sig = []
    mallow = {it: t for t, p, it in allow if p == mpid}
    for it in sorted(w):
        rs = w[it]; a = rs[0]
        for x in rs[1:]:
            for k in ("phase", "epoch", "changed", "size", "lids"):
                if x[k] != a[k]:
                    V("agreement", f"iteration {it}: process {x['pid']} (LID {x['lid']}) says {k} {x[k]}, process {a['pid']} (LID {a['lid']}) says {a[k]}")
            if x["changed"] and x["par"] != a["par"]:
                V("agreement", f"iteration {it}: process {x['pid']} has parent group {x['par']}, process {a['pid']} has {a['par']}")
        part = {x["lid"] for x in rs}; want = set(a["lids"]) | set(a["par"] if a["changed"] and a["par"] else cur or ())
        if part != want:
            V("participation", f"iteration {it}: processes with LIDs {sorted(want)} take part, but {sorted(part)} report")
        if len(a["lids"]) != a["size"]:
            V("size", f"iteration {it}: size {a['size']}, but locations {a['lids']}")
        if cur is None:
            if a["epoch"] != 0 or a["par"] is not None or a["size"] != n0 or a["lids"] != tuple(range(n0)):
                V("initial", f"first world {a}, {n0} processes were asked for")
        else:
            if a["epoch"] != ep + a["changed"]:
                V("epoch", f"iteration {it}: epoch {a['epoch']} after {ep}, world {'changed' if a['changed'] else 'unchanged'}")
            if not a["changed"] and a["lids"] != cur:
                V("unchanged", f"iteration {it}: world {a['lids']} reported as unchanged, was {cur}")
            if a["changed"]:
                if a["par"] != cur:
                    V("parent", f"iteration {it}: parent group {a['par']}, the world before was {cur}")
                if a["lids"] == cur:
                    V("epoch", f"iteration {it}: same members {cur}, but reported as changed")
                keep = [l for l in a["lids"] if l in cur]; new = [l for l in a["lids"] if l not in cur]; gone = [l for l in cur if l not in a["lids"]]
                if list(a["lids"]) != keep + new or keep != sorted(keep):
                    V("order", f"iteration {it}: {a['lids']} after {cur}")
                for l in new:
                    if l in known:
                        V("rejoin", f"iteration {it}: LID {l} joined, was used before")
                for l in gone:
                    p = pid_of.get(l)
                    if not any(matches(pat, l, host, p) for _, _, pat, _ in cuts):
                        V("removed", f"iteration {it}: LID {l} was removed without being asked to leave")
                    left.add(l)
                joins += len(new); leaves += len(gone); nworlds += 1; sig.append((len(cur), len(new), len(gone)))
        for x in rs:
            if x["changed"] and cur is not None and (x["me"] < 0) != (x["lid"] not in a["lids"]):
                V("membership", f"iteration {it}: LID {x['lid']} has id {x['me']} in world {a['lids']}")
            if x["me"] >= 0 and a["lids"][x["me"]] != x["lid"]:
                V("membership", f"iteration {it}: LID {x['lid']} has id {x['me']} in world {a['lids']}")
        # requests known to have been seen before this resize point began
        if it in mallow:
            for t, ans, pat, members in cuts:
                if ans is None or ans > mallow[it]:
                    continue
                for p, l in members:
                    if l > 0 and l in a["lids"] and matches(pat, l, host, p):
                        V("late", f"iteration {it}: LID {l} is still a member, though its removal ('{pat}') was known {mallow[it] - ans:.3f} s before the resize point")
        known |= set(a["lids"]); cur = a["lids"]; ep = a["epoch"]
    for p in pids:
        if p not in lid_of:
            V("not-served", f"process {p} never became a member")
    out += [f"N world_changes {nworlds}", f"N joined {joins}", f"N removed {leaves}", f"N resize_points {len(w)}", f"N removal_requests_confirmed {sum(1 for c in cuts if c[1])}"]
    h = hashlib.sha256(repr(sig).encode()).hexdigest()[:16]
    if nworlds:
        out.append("S " + h); out.append("X " + " ".join(f"{a}+{b}-{c}" for a, b, c in sig)[:300])
    return out


def check_phases(out, last, size, errs):
    """greetings of the resize example / sums of vsum3: for every phase exactly the processes 0..n-1 of the world of that phase"""
    rows = [(int(p), int(e), int(i), int(n)) for e, p, i, n in re.findall(r"Epoch (\d+) / Phase (\d+): Hello from process (\d+) of (\d+)", out)] if size is None else \
        [(int(p), int(e), int(i), int(n)) for p, e, i, n in re.findall(r"Phase (\d+), Epoch (\d+), Proc (\d+)/(\d+): sum of", out)]
    sums = [(int(p), int(c), int(f), int(t), int(s)) for p, c, f, t, s in re.findall(r"Phase (\d+), Epoch \d+, Proc \d+/\d+: sum of (\d+) values at (\d+) - (-?\d+) : (\d+)", out)]
    ep = 0; worlds = []
    for p in range(last + 1):
        q = sorted(x for x in rows if x[0] == p); es = {x[1] for x in q}; ns = {x[3] for x in q}
        if len(es) != 1 or len(ns) != 1 or [x[2] for x in q] != list(range(q[0][3])):
            errs.append(f"phase {p}: (phase, epoch, process, size) {q}"); return worlds
        e = es.pop()
        if e not in (ep, ep + 1):
            errs.append(f"phase {p}: epoch {e} after {ep}")
        if worlds and e == ep and worlds[-1] != q[0][3]:
            errs.append(f"phase {p}: world of {q[0][3]} processes after {worlds[-1]} in the same epoch")
        ep = e; worlds.append(q[0][3])
        if size is not None:
            s = [x for x in sums if x[0] == p]; at = 0
            for _, c, f, t, v in sorted(s, key=lambda x: (x[2], x[3])):
                if c == 0:
                    continue
                if f != at or t != f + c - 1 or v != (f + t) * c // 2:
                    errs.append(f"phase {p}: sum of {c} values at {f} - {t} is {v}")
                at = t + 1
            if at != size:
                errs.append(f"phase {p}: values up to {at} of {size} summed up")
    if size is not None:
        tot = sorted((int(a), int(b)) for a, b in re.findall(r"Phase (\d+): total sum: (\d+)", out))
        if tot != [(p, size * (size - 1) // 2) for p in range(last + 1)]:
            errs.append(f"total sums {tot[:5]}, expected {size * (size - 1) // 2} for each phase up to {last}")
    return worlds


def elastic_example(exes, name, seed, free_port, jac, limit=60):
    """an example program while processes join and are removed"""
    def run(job):
        r = random.Random(seed * 7919 + 5); d = tempfile.mkdtemp(prefix="elexample"); port = free_port(); out = []; errs = []
        n0 = r.choice([1, 2, 2, 3, 4]); pause = r.choice([2000, 20000, 60000]); size = None
        if name == "jac1d":
            k, it, rep = r.randint(1, 4), r.randint(1500, 6000), -r.choice([1, 2, 3, 5, 8]); args = [k, it, rep]
        elif name == "vsum3":
            size, last = r.randint(20, 3000), r.randint(8, 30); args = [last, size]
        else:
            last = r.randint(8, 30); args = [last]
        ps = Procs([exes[name]] + args, dict(LAIK_BACKEND="tcp2", LAIK_TCP2_PORT=port, LAIK_SIZE=n0, VH_SLEEP_US=pause), d)
        try:
            for _ in range(n0):
                ps.start()
            t0 = time.monotonic()
            while time.monotonic() < t0 + limit / 2:   # a process which asks to join needs a world: otherwise it would be the first one itself
                try:
                    socket.create_connection(("127.0.0.1", port), 1).close(); break
                except OSError:
                    time.sleep(.005)
            t0 = time.monotonic()
            for _ in range(r.randint(1, 6)):
                time.sleep(r.random() * r.choice([.05, .2, .4]))
                if ps.p[0][0].poll() is not None or ps.failed():
                    break
                if r.random() < .6:
                    for _ in range(r.choice([1, 1, 2])):
                        ps.start(LAIK_SIZE=200)   # comes too late: must not start a world of its own
                else:
                    send_text(port, "cutoff " + r.choice([f":{r.choice(ps.p)[0].pid}$", "L%d:" % r.randint(0, len(ps.p)), "L[1-3]:", ".*"]) + "\n", r, wait=False)
            # the first world ends with the program; processes which asked to join too late never get an answer
            idle = None
            while time.monotonic() < t0 + limit:
                if ps.failed() or not ps.alive():
                    break
                if name != "jac1d" or "Global value sum" in "".join(ps.text(i) for i in range(n0)):
                    done = name == "jac1d" or any(re.search(rf"Phase {last}\b", ps.text(i)) for i in range(n0))
                    if done:
                        idle = idle or time.monotonic()
                        if time.monotonic() > idle + (5 if any(ps.text(i) for i in ps.alive()) or len(ps.alive()) > len(ps.p) - n0 else .5):
                            break
                time.sleep(.01)
            hung = [i for i in ps.alive() if ps.text(i) or i < n0]; late = len(ps.alive())
            finished = idle is not None or not ps.alive()
            if ps.alive() and not ps.failed() and (hung or not finished):
                out.append(f"I hang {name} {args} x{n0}: " + stacks(ps).replace("\n", " ; "))
        finally:
            ps.kill()
        texts = [ps.text(i) for i in range(len(ps.p))]; alltext = "".join(texts)
        joined = sum(1 for i, x in enumerate(ps.p) if i >= n0 and x[0].poll() == 0)
        for c in ps.crashes():
            i = int(c.split()[2])
            if i >= n0 and not texts[i] and not re.search(r"Sanitizer|runtime error|Assertion", c):
                late += 1   # the program ended before this process could join
            else:
                out.append(c)
        if not out:
            if name == "jac1d":
                jac(k * 1000, it)(alltext, n0, errs); worlds = []
            else:
                worlds = check_phases(alltext, last, size, errs)
            for e in errs[:3]:
                out.append(f"V wrong-result:{name} {name} {args} started with {n0} processes: {e}")
            ch = sum(1 for a, b in zip(worlds, worlds[1:]) if a != b)
            out += ["N elastic_example_runs 1", f"N elastic_{name} 1", f"N example_world_changes {ch}", f"N example_joined {joined}", f"N late_joiners {late}", f"S {name} {worlds}", "D"]
        shutil.rmtree(d, ignore_errors=True)
        return 0, "\n".join(out) + "\n"
    return Job([exes[name]], {}, limit * 3, label=f"elastic {name} seed {seed}", fn=run)
