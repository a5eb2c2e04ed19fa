import hashlib, os, random, sys, time
from vlib import *
from exlib import *
from elastic import *

CHECKS = {}


def check(*props):
    def deco(f):
        for p in props:
            CHECKS[p] = f
        return f
    return deco


# ---------------------------------------------------------------------------------- data switches over the MPI stand-in
def b_dswitch():
    return build("dswitch", ["harness/vh.c", "harness/gen.c", "harness/logmon.c", "harness/dswitch.c"], extra_link=LOGWRAP.replace(" -Wl,--wrap=gettimeofday", ""))


def dswitch_jobs(seed, plan, cases=12):
    exe = b_dswitch()
    for mode, n in plan:
        # several worlds per process start: fork is cheap, exec of an instrumented binary is not
        step = 4
        for w in range(0, n, step):
            yield Job([exe, "--mode", mode, "--seed", seed, "--n", w, "--worlds", min(step, n - w), "--cases", cases], timeout=240)


DSRULE = ("random worlds of 1..7 ranks, random 1/2/3-d spaces, partitionings (generated range lists and built-in partitioners), element types, flows and reductions; "
          "every owned element is compared with a reference model after each switch; signature = (partitionings, flow, operation, way of execution, ranks, type), "
          "counted as non-trivial when the container already had a partitioning and the space more than one index")
DSASSUME = ["MPI is replaced by a monitoring implementation with forked ranks (shim/mpishim.c); the installed MPI is used by C06 and C24",
            "values and schedules are sampled, not enumerated"]
DSPLAN = {  # property: (plan quick, plan thorough, required counters)
    "C01": ([("preserve", 1200), ("", 400), ("cross", 240)], [("preserve", 20000), ("", 6000), ("cross", 6000)], [("switch_preserve", 5000), ("elements_checked", 100000)]),
    "C02": ([("reduce", 1500), ("cross", 240)], [("reduce", 24000), ("cross", 6000)], [("switch_reduce", 5000), ("elements_checked", 100000)]),
    "C03": ([("init", 1200)], [("init", 20000)], [("switch_init", 3000), ("switch_none", 3000)]),
    "C04": ([("", 700), ("reduce", 400), ("preserve", 400), ("cross", 300)], [("", 10000), ("cross", 5000), ("reduce", 8000), ("preserve", 8000)], [("mpi_calls", 50000)]),
    "C05": ([("pre", 800), ("res", 800)], [("pre", 13000), ("res", 13000)], [("exec_actions", 5000), ("exec_transition", 3000), ("reservations", 1500), ("precomputed_reused", 1000)]),
}


@check(*DSPLAN)
def c_dswitch(prop, tier, seed, t0):
    q, th, req = DSPLAN[prop]
    res = run_jobs(dswitch_jobs(seed, q if tier == "quick" else th))
    finish(prop, tier, seed, res, DSRULE, "switches", t0, require=req, assumptions=DSASSUME)


# ------------------------------------------------------------------ single-process monitors (partitionings, layouts, memory, types)
def b_units():
    return build("units", ["harness/vh.c", "harness/gen.c", "harness/units.c", "harness/units_part.c", "harness/units_data.c", "harness/units_group.c"])


UNITS = {  # property: (mode, worlds quick, worlds thorough (100 cases each), counters required per 1000 cases)
    "C07": ("cover", 3000, 40000, [("block", 60), ("reassign", 20), ("halo", 20), ("grid", 5), ("indexes_checked", 20000)], "random spaces (1-3 d, shifted bounds), 1..40 processes, every built-in partitioner and chains of two; multiplicity and owners of every index are counted"),
    "C08": ("shape", 6000, 40000, [("block", 100), ("halo", 50), ("cornerhalo", 50), ("copy", 30), ("reassign", 50), ("bisection", 10)], "random spaces, weights, cycles and depths; shapes, balance and moved indexes are recomputed by an independent model"),
    "C09": ("list", 6000, 40000, [("map_queries", 500), ("unequal_pairs", 300), ("not_covering", 20), ("single_index_lists", 20), ("all", 30)], "random range lists in random order; every query is compared with the ownership relation counted index by index"),
    "C10": ("alg", 1200, 30000, [("range_pairs", 10000), ("overlapping", 3000), ("empty_ranges", 3000), ("contained", 2000)], "random pairs of ranges incl. 64-bit extremes, empty and degenerate ones; results compared with set semantics"),
    "C11": ("filter", 2000, 16000, [("own_filters", 2000), ("intersection_filters", 1500), ("intersection_filters_dropping", 500), ("transitions_compared", 1000)], "every process id of a random group computes own and intersection-filtered versions of random and built-in partitionings, compared with the complete one; transitions from filtered and complete lists compared"),
    "C12": ("canon", 6000, 40000, [("tagged_lists", 200), ("merged_lists", 150), ("single_index_lists", 50)], "random range lists in random order with tags, merging and single-index mode; the canonical form is recomputed from the inserted ranges"),
    "C13": ("layout", 4000, 20000, [("packs", 1500), ("split_packs", 500), ("split_unpacks", 400), ("copies", 400), ("embedded", 800), ("generic_layouts", 1000), ("custom_layouts", 400), ("reused", 200)], "random areas, element sizes 1..33, lexicographic/generic/user-defined layouts, embedded areas; ranges are packed and unpacked in random pieces or copied; every byte of both memories is compared"),
    "C14": ("access", 3000, 24000, [("addresses", 20000), ("conversions", 10000), ("several_areas", 100), ("embedded_areas", 20), ("with_reservation", 50)], "switch sequences over random partitionings with one or more areas, reused and reserved memory; each element is written through one access path and read through all others"),
    "C15": ("alloc", 2500, 24000, [("allocations", 2000), ("frees", 2000), ("reserved_switches", 400), ("areas_in_provided_memory", 1000), ("containers_freed", 100), ("switches_without_allocation", 1000)], "random operation sequences on up to 3 containers with logging allocators; after each step every area must lie in live memory of its container, areas must not overlap, and the balance must agree with the statistics"),
    "C17": ("migrate", 8000, 40000, [("migrations", 500), ("to_child", 300), ("to_parent", 100), ("own_ranges_only", 50)], "random range lists migrated between random parent/child groups; ranges, ids, areas and queries before and after are compared"),
    "C27": ("types", 2400, 60000, [("reductions", 3000), ("aliased", 2000), ("absent_input", 500)], "all types x operations with random and extreme values, lengths 0..70, absent and aliased inputs, guard bytes"),
}


@check(*UNITS)
def c_units(prop, tier, seed, t0):
    mode, q, th, req, rule = UNITS[prop]
    exe = b_units(); n = q if tier == "quick" else th; step = 100 if tier == "quick" else 400
    jobs = [Job([exe, "--mode", mode, "--seed", seed, "--from", w, "--worlds", min(step, n - w), "--cases", 100], timeout=300) for w in range(0, n, step)]
    res = run_jobs(jobs)
    k = n * 100 / 1000
    finish(prop, tier, seed, res, rule + "; a case is non-trivial when it has more than one index/range; signature = its shape", "cases", t0, require=[(c, int(v * k * 0.5)) for c, v in req],
           assumptions=["one process plays all process ids in turn (single-process backend, groups built by hand); multi-process behaviour is covered by C01-C06", "inputs are sampled, not enumerated"])


# -------------------------------------------------------------- groups, key-value stores, published spaces over the MPI stand-in
def b_world():
    return build("world", ["harness/vh.c", "harness/gen.c", "harness/world.c"])


def world_jobs(seed, mode, n, cases, step=8):
    exe = b_world()
    for w in range(0, n, step):
        yield Job([exe, "--mode", mode, "--seed", seed, "--n", w, "--worlds", min(step, n - w), "--cases", cases], timeout=300)


WASSUME = ["MPI is replaced by a monitoring implementation with forked ranks (shim/mpishim.c)", "conflicting changes of the same key by several processes between two synchronisations are outside of the property (LAIK stops the program by design)", "values, operation sequences and schedules are sampled, not enumerated"]
KVRULE = "random worlds of 1..14 ranks; random scripts of set/change/remove/clean on 1-2 stores with text and binary keys (0..350 bytes) and values (1..6000 bytes), 2-6 synchronisations each; every rank holds the model of all ranks and compares content, counts, enumeration and callbacks; a synchronisation is non-trivial with more than one rank and at least one change; signature = sequence of change counts"


@check("C18", "C19")
def c_kvs(prop, tier, seed, t0):
    n = 480 if tier == "quick" else 8000
    off = 0 if prop == "C18" else 50000
    res = run_jobs(world_jobs(seed + off, "kvs", n, 6))
    finish(prop, tier, seed, res, KVRULE, "syncs", t0, require=[("changes_synchronised", 50000), ("empty_syncs", 800), ("callbacks_created", 50000), ("callbacks_changed", 8000), ("callbacks_removed", 4000), ("overwrites", 20000), ("removals", 8000), ("cleans", 30), ("values_compared", 1000000)], assumptions=WASSUME)


@check("C20")
def c_spaces(prop, tier, seed, t0):
    k = 1 if tier == "quick" else 16
    jobs = list(world_jobs(seed, "spaces", 640 * k, 10)) + list(world_jobs(seed, "groups", 160 * k, 3))
    res = run_jobs(jobs)
    finish(prop, tier, seed, res, "random worlds of 1..14 ranks; spaces (1-3 d, bounds up to the 64-bit limits) published by one or all ranks and changed by any rank, looked up and used on all ranks after each synchronisation; location strings gathered through a container are compared with the location information of world and derived groups; signature = all bounds seen so far",
           "space_syncs", t0, require=[("spaces_published", 4000), ("spaces_changed", 3000), ("spaces_compared", 40000), ("spaces_used", 4000), ("group_checks", 5000)], assumptions=WASSUME)


@check("C16")
def c_groups(prop, tier, seed, t0):
    k = 1 if tier == "quick" else 16
    exe = b_units()
    jobs = [Job([exe, "--mode", "groups", "--seed", seed, "--from", w, "--worlds", 100, "--cases", 100], timeout=300) for w in range(0, 1200 * k, 100)]
    jobs += list(world_jobs(seed, "groups", 640 * k, 8)) + list(dswitch_jobs(seed, [("cross", 320 * k)]))
    res = run_jobs(jobs)
    finish(prop, tier, seed, res, "(a) one process playing all process and location ids: random trees of shrunk, cloned and united groups compared with a model; (b) random worlds of 1..14 ranks with nested shrinks, clones and unions, sums over randomly interleaved groups by their members only; (c) switches of containers between the world and groups derived from it; signature = members of all groups",
           "cases", t0, require=[("group_checks", 1000000), ("real_shrinks", 200000), ("clones", 50000), ("union_new", 10000), ("leaver_view", 100000), ("nested_shrinks", 500), ("subgroup_work", 5000), ("collective_work", 10000), ("switch_to_subgroup", 1000), ("switch_from_subgroup", 300)], assumptions=WASSUME[:1] + ["unions of groups of which neither contains the other are judged in one process only: the MPI backends support shrinking only", "inputs and schedules are sampled, not enumerated"])


@check("C25")
def c_stats(prop, tier, seed, t0):
    k = 1 if tier == "quick" else 16
    exe = b_units()
    jobs = [Job([exe, "--mode", "alloc", "--seed", seed + 7, "--from", w, "--worlds", 100, "--cases", 100], timeout=300) for w in range(0, 800 * k, 100)]
    jobs += list(dswitch_jobs(seed, [("stats", 1200 * k)]))
    res = run_jobs(jobs)
    finish(prop, tier, seed, res, "(a) random switch sequences on 1-2 containers in worlds of 1..13 (some 33..36) ranks: after each switch the change of the container's statistics is compared with the messages, elements, bytes and reductions counted at the MPI interface; "
           "(b) random allocation sequences: numbers, bytes, current and maximal amount compared with what logging allocators saw; signature as in C01", "stat_checks", t0,
           require=[("stat_messages", 50000), ("stat_reductions", 5000), ("stat_own_reductions", 1500), ("memory_statistics", 500000), ("exec_actions", 3000)],
           assumptions=DSASSUME + ["reductions of indexes without another participating process may be counted without communication", "transfers larger than the (reduced) pack buffer may take more messages than counted"])


LOGWRAP = " ".join("-Wl,--wrap=" + f for f in "laik_log_begin laik_log_append laik_log_flush laik_log laik_panic laik_log_init laik_log_init_loc laik_log_inc laik_set_loglevel gettimeofday".split())


def b_misc():
    return build("misc", ["harness/vh.c", "harness/gen.c", "harness/logmon.c", "harness/misc.c", "harness/misc_log.c", "harness/misc_prof.c", "harness/misc_agent.c"], mpi=None, extra_link=LOGWRAP)


def b_agents():
    """libraries with agents, built like an external tool would be"""
    return build_so("agent_simple", [os.path.join(REPO, "external/simple/simple-agent.c")]), build_so("agent_test", [os.path.join(VERIF, "harness/agentlib.c")])


def misc_jobs(mode, seed, n, step=10, env=None):
    exe = b_misc()
    for w in range(0, n, step):
        yield Job([exe, "--mode", mode, "--seed", seed, "--from", w, "--worlds", min(step, n - w), "--cases", 100], env=env, timeout=300)


@check("C26")
def c_log(prop, tier, seed, t0):
    k = 1 if tier == "quick" else 16
    jobs = list(misc_jobs("log", seed, 80 * k)) + list(dswitch_jobs(seed, [("logs", 160 * k)]))
    res = run_jobs(jobs)
    finish(prop, tier, seed, res, "(a) one process: random LAIK_LOG/LAIK_LOG_FILE settings; random sequences of messages of any length (0..20000 characters, line breaks, long words), of descriptions of ranges, partitionings, transitions, and of panics; the text that came out is compared line by line with the messages as requested; "
           "(b) random switch sequences in worlds of 1..13 ranks, each executed without and twice with random log levels, filters, log files and profiling: results checked against the model, order, partners and sizes of all MPI calls and the statistics must be the same, and the log of each rank must be complete; signature as in C01 or the settings", "log_messages", t0,
           require=[("log_messages", 200000), ("log_wrapped_lines", 50000), ("log_files", 1000), ("panics", 500), ("after_finalize", 500), ("debug_transitions", 2000), ("runs_compared", 500), ("calls_compared", 20000), ("profiled_to_file", 150)],
           assumptions=DSASSUME[:1] + ["messages written with log level none or the like are not judged; times in the prefix only for their form"])


@check("C28")
def c_prof(prop, tier, seed, t0):
    k = 1 if tier == "quick" else 16
    simple, test = b_agents()
    jobs = list(misc_jobs("prof", seed, 300 * k, 20)) + list(misc_jobs("agent", seed, 160 * k, 10, {"AGENT_SIMPLE": simple, "AGENT_TEST": test}))
    res = run_jobs(jobs)
    finish(prop, tier, seed, res, "(a) random sequences of enabling, resetting, disabling and writing profiles around switches, key-value synchronisations and application work under a virtual clock, so that each time has exactly one right value; the written files are compared line by line; "
           "(b) random sequences of loading agents (functions, shared libraries), querying failed nodes with buffers of various sizes, setting iteration and phase, and detaching; signature = sequence of operations", "cases", t0,
           require=[("time_checks", 300000), ("measured_backend", 20000), ("records", 5000), ("files_compared", 10000), ("phases", 20000), ("function_agents", 20000), ("library_agents", 5000), ("failed_queries", 10000), ("failed_nodes", 40000), ("agents_detached", 10000)],
           assumptions=["a single process; the clock is virtual", "the MQTT agent is not built (no library for it)"])


# ---------------------------------------------------------------------------------------------- all real backends, real processes
import itertools, socket, threading
_port_lock = threading.Lock(); _port_next = [None]


def free_port():
    """a port nobody listens at, below the range used for outgoing connections; not handed out twice by this run"""
    with _port_lock:
        if _port_next[0] is None:
            _port_next[0] = 10000 + (os.getpid() * 131) % 20000
        for _ in range(20000):
            _port_next[0] = 10000 + (_port_next[0] - 10000 + 1) % 20000
            ok = True
            for fam, addr in ((socket.AF_INET, "0.0.0.0"), (socket.AF_INET6, "::")):
                try:
                    s = socket.socket(fam, socket.SOCK_STREAM)
                except OSError:
                    continue
                try:
                    s.bind((addr, _port_next[0]))
                except OSError as e:
                    ok = ok and e.errno in (97, 99)   # no such address family here
                finally:
                    s.close()
            if ok:
                return _port_next[0]
    raise HarnessError("no free port")


def b_launch():
    exe = os.path.join(BUILD, "launch-" + tree_hash([os.path.join(VERIF, "harness/launch.c")]))
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        r = sh(f"gcc -O1 -w -o {exe}.tmp{os.getpid()} {VERIF}/harness/launch.c")
        if r.returncode:
            raise HarnessError("building launch failed:\n" + r.stdout[-2000:])
        os.rename(f"{exe}.tmp{os.getpid()}", exe)
    return exe


SHORTIO = "-Wl,--wrap=read,--wrap=write"


def b_dsw_real():
    return build("dsw_real", ["harness/vh.c", "harness/gen.c", "harness/dswitch.c", "harness/shortio.c"], mpi="real", extra_defs="-DNOSHIM", tcp=True, tcp2=True, extra_link=SHORTIO)


def b_dsw_tcp_tsan():
    return build("dsw_tcp_tsan", ["harness/vh.c", "harness/gen.c", "harness/dswitch.c", "harness/glibsync.c"], san="tsan", mpi=None, extra_defs="-DNOSHIM " + " ".join(f"-D{x}=v{x}" for x in MMREN), tcp=True)


def b_world_real():
    return build("world_real", ["harness/vh.c", "harness/gen.c", "harness/world.c", "harness/shortio.c"], mpi="real", extra_defs="-DNOSHIM", tcp=True, tcp2=True, extra_link=SHORTIO)


TCPCONF = os.path.join(BUILD, "tcpconf")


def tcp_config(**kv):
    """settings file for the socket based message passing backend"""
    os.makedirs(TCPCONF, exist_ok=True)
    txt = "[general]\n" + "".join(f"{k}={v}\n" for k, v in sorted(kv.items()))
    p = os.path.join(TCPCONF, hashlib.sha256(txt.encode()).hexdigest()[:12] + ".txt")
    if not os.path.exists(p):
        with open(p + f".tmp{os.getpid()}", "w") as f:
            f.write(txt)
        os.rename(p + f".tmp{os.getpid()}", p)
    return p


def real_job(exe, be, n, mode, world, seed, cases, opts, timeout=200, expect_d=True):
    """one job of n real processes using backend be; opts: environment, a value may contain %d for the process number"""
    env = {k: v for k, v in opts.items() if "%d" not in str(v)}
    args = [exe, "--mode", mode, "--seed", seed, "--n", world, "--cases", cases]
    env["LAIK_BACKEND"] = be; tag = be
    if be == "mpi":
        env.update(MPI_ENV); cmd = MPIEXEC.split() + ["-n", n] + args
    else:
        lopt = []
        for k, v in opts.items():
            if "%d" in str(v):
                lopt += ["-e", f"{k}={v}"]
        if be == "tcp2":
            env["LAIK_SIZE"] = n
        if be == "tcp":
            env["OMPI_COMM_WORLD_SIZE"] = n
        cmd = [b_launch(), n] + lopt + args

    def run(job):
        if be == "tcp2":
            job.env = dict(job.env, LAIK_TCP2_PORT=free_port())
        rc, out = run_cmd(job.cmd, job.env, job.timeout)
        if rc == 0 and expect_d and sum(1 for l in out.splitlines() if l == "D") != n:
            out += f"\nE only {sum(1 for l in out.splitlines() if l == 'D')} of {n} processes finished\n"
        return rc, out + f"\nN processes_{tag} {n}\nN jobs_{tag} 1\n"
    return Job(cmd, env, timeout, fn=run)


def real_variants(r, be):
    """random settings of a backend that must not change results"""
    e = {}
    if r.random() < .25:
        e["LAIK_LAYOUT_GENERIC"] = 1
    if be == "mpi":
        e["LAIK_MPI_REDUCE"] = r.randint(0, 1); e["LAIK_MPI_ASYNC"] = r.randint(0, 1)
    elif be == "tcp2":
        e["LAIK_TCP2_BIN"] = r.choice([0, 1, 1]); e["VH_SHORTIO"] = r.choice([0, 0, 8, 60])
    elif be == "tcp":
        e["LAIK_TCP_REDUCE"] = r.randint(0, 1)
        if r.random() < .7:
            e["LAIK_TCP_CONFIG"] = tcp_config(backend_async_send=r.randint(0, 1), inbox_size=r.choice([1, 2, 16, 1000]), outbox_size=r.choice([1, 2, 16, 1000]), client_threads=r.choice([1, 2, 8]), server_threads=r.choice([1, 2, 8]),
                                              client_connections=r.choice([1, 3, 64]), server_connections=r.choice([1, 3, 64]), minimpi_async_split=r.randint(0, 1))
    return e


@check("C06")
def c_backends(prop, tier, seed, t0):
    k = 1 if tier == "quick" else 12
    r = random.Random(seed * 7919 + 6)
    dsw, wld, _ = b_dsw_real(), b_world_real(), b_launch()
    modes = [("", 10), ("reduce", 10), ("preserve", 10), ("init", 8), ("pre", 8), ("res", 8)]
    jobs = []
    for rnd in range(3 * k):
        for m, c in modes:
            w = rnd * 10 + r.randint(0, 9)   # the same world, i.e. program, for all backends
            size = r.choice([2, 2, 3, 3, 4, 5, 6]) if rnd % 6 else r.randint(7, 10)
            for be in ("single", "mpi", "tcp2", "tcp"):
                n = 1 if be == "single" else size if be != "tcp" else min(size, 6)
                jobs.append(real_job(dsw, be, n, m, w, seed, c, real_variants(r, be)))
        for m, c in (("kvs", 5), ("spaces", 8), ("groups", 5)):
            w = rnd * 10 + r.randint(0, 9); size = r.choice([2, 3, 4, 5, 6, 8])
            for be in ("single", "mpi", "tcp2", "tcp"):
                if be == "tcp2" and m == "groups" and False:
                    continue
                n = 1 if be == "single" else size if be != "tcp" else min(size, 6)
                jobs.append(real_job(wld, be, n, m, w, seed, c, real_variants(r, be)))
    res = run_jobs(jobs, par=8)
    finish(prop, tier, seed, res, "the same random programs (switch sequences with and without reductions, reservations and precomputed actions; key-value, space and group programs) run by real processes with each backend (single process, installed MPI, elastic TCP, multi-threaded TCP) and random settings "
           "(native reductions, asynchronous sends, generic layouts, text/binary transfer, queue sizes and threads); every owned element, entry, space and group is compared with the same reference model; signature as in C01", lambda x: x.counters.get("switches", 0) + x.counters.get("cases", 0), t0,
           require=[("processes_mpi", 40), ("processes_tcp2", 40), ("processes_tcp", 40), ("switch_reduce", 500), ("switch_preserve", 500), ("elements_checked", 50000), ("syncs", 100)],
           assumptions=["processes of a job run on one machine", "values are exactly representable, so that the order of floating-point reductions does not matter", "schedules of real processes are those the machine produces; controlled schedules are explored in C04", "inputs are sampled, not enumerated"])


def b_examples():
    build_exref(); return build_examples()


@check("C24")
def c_examples(prop, tier, seed, t0):
    k = 1 if tier == "quick" else 16
    r = random.Random(seed * 104729 + 24)
    exes, _ = b_examples(), b_launch()
    jobs = []
    for rnd in range(22 * k):
        for name in exes:
            if rnd % 8 and name in ("README-example", "min", "propagation1d", "resize", "vsum3") or rnd % 4 and name in ("ping_pong", "raytracer"):
                continue
            be = r.choice(["single", "mpi", "mpi", "mpi", "tcp2", "tcp2", "tcp2", "tcp"])
            n = 1 if be == "single" else r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6]) if be == "tcp" or rnd % 5 else r.randint(7, 13)
            g = gen_example(name, r, n)
            if not g:
                continue
            args, oracle = g
            env = dict(real_variants(r, be), LAIK_BACKEND=be); cmd = [exes[name]] + args
            if be == "mpi":
                env.update(MPI_ENV); cmd = MPIEXEC.split() + ["-n", n] + cmd
            else:
                cmd = [b_launch(), n] + cmd
                if be == "tcp2":
                    env["LAIK_SIZE"] = n
                if be == "tcp":
                    env["OMPI_COMM_WORLD_SIZE"] = n
            jobs.append(Job(cmd, env, 120, label=f"{name} {' '.join(map(str, args))} x{n} {be}", fn=example_fn(name, args, oracle, n, free_port)))
    for name, args, n in KNOWN_RUNS:
        jobs.append(Job(MPIEXEC.split() + ["-n", n, exes[name]] + args, dict(MPI_ENV, LAIK_BACKEND="mpi"), 120, label=f"{name} {' '.join(map(str, args))} x{n}", fn=known_run_fn(name, args, n, free_port)))
    res = run_jobs(jobs, par=8)
    finish(prop, tier, seed, res, "every example program with random sizes, iterations and options (halo kinds, grids, reservations, precomputed transitions and actions, custom layouts, indirection, compact mappings, repartitioning, shrinking) on 1..13 processes with every backend and random backend settings; "
           "all printed results are compared with an independent serial reference (closed forms, harness/exref.c; for the image a serial run); signature = program, options, number of processes", "results_compared", t0,
           require=[("example_runs", 150)] + [("example_" + n, 2) for n in exes if n != "propagation1d"],
           assumptions=["floating-point results are compared with a relative tolerance of 1e-8 (1e-5 where six digits are printed)", "ping_pong prints no result: only that it ends properly is judged; propagation1d only runs as a known finding", "inputs are sampled, not enumerated"])


def b_elastic():
    return build("elastic_tcp2", ["harness/elastic.c", "harness/gen.c", "harness/vh.c", "harness/shortio.c"], mpi=None, tcp2=True, extra_link="-Wl,--wrap=gethostname,--wrap=getaddrinfo " + SHORTIO)


@check("C21")
def c_elastic(prop, tier, seed, t0):
    k = 1 if tier == "quick" else 20
    exe, exes = b_elastic(), b_examples()
    jobs = [elastic_job(exe, seed * 100000 + i, free_port) for i in range(160 * k)]
    jobs += [elastic_example(exes, n, seed * 1000 + i, free_port, lambda a, b: check_jac("jac1d", a, b, True)) for i in range(14 * k) for n in ("jac1d", "vsum3", "resize")]
    res = run_jobs(jobs, par=8)
    finish(prop, tier, seed, res, "jobs of real processes with the elastic TCP backend; further processes join and others are asked to leave (patterns for one, several, all, no process; malformed ones) at random times relative to resize points, in fragments and with or without waiting; in each world data in 1-3 dimensions is moved "
           "along and rewritten, and reductions, key-value and location synchronisations run; every process checks ids, order, parent relation, epoch, phase and data; all records are cross-checked afterwards: same world everywhere, epoch, unique and dense ids, only asked processes leave, requests confirmed before a resize point are served by it, "
           "all who asked become members; also the elastic example programs against serial results; signature = sequence of (size, joined, left)", lambda x: x.counters.get("world_changes", 0) + x.counters.get("example_world_changes", 0), t0,
           require=[("world_changes", 200), ("joined", 150), ("removed", 100), ("removal_requests_confirmed", 80), ("elements_checked", 100000), ("kvs_syncs", 500), ("location_syncs", 200), ("elastic_example_runs", 30), ("example_joined", 15)],
           assumptions=["all processes run on one machine; host names of up to 64 characters are simulated", "no process fails or loses its connection while a resize is going on", "at most 50 worlds per process (limit of the library)", "timing is random, schedules are not enumerated"])


@check("C22")
def c_junk(prop, tier, seed, t0):
    k = 1 if tier == "quick" else 20
    exe = b_elastic()
    jobs = [elastic_job(exe, seed * 100000 + 50000 + i, free_port, junk="static" if i % 3 else "elastic") for i in range(150 * k)]
    res = run_jobs(jobs, par=8)
    finish(prop, tier, seed, res, "jobs of real processes with the elastic TCP backend compute (data moves, reductions, key-value and location synchronisations, each result checked) while 1-3 clients send to the control ports of all processes: random bytes, protocol words with random arguments, mutated lines, binary headers, very long lines, "
           "regular expressions that are hard to compile or match, split lines, end of input, resets, clients that never read, floods of up to 1000 connections (also held while the processes connect to each other); part of them with processes that join and leave meanwhile (all rules of C21 checked); requests for status and help must be answered completely; "
           "ASan/UBSan in every process; signature = kind of job and what the clients did", "lines", t0,
           require=[("jobs", 140), ("clients", 5000), ("lines", 20000), ("answers", 600), ("floods", 30), ("held_floods", 15), ("non_readers", 50), ("iterations_disturbed", 10000), ("elements_checked", 100000), ("world_changes", 30)],
           assumptions=["clients do not claim to be a process of the computation (myid with a used id: there is no authentication) and do not ask to terminate it", "well-formed requests to register or to remove processes are only sent by clients in jobs which allow no resize",
                        "requests for information need not be answered during a flood of connections", "all processes and clients run on one machine"])


# ------------------------------------------------------------------------------------------- message passing transport
MMWRAP = "-Wl,--wrap=recv,--wrap=send,--wrap=poll,--wrap=connect,--wrap=accept"
MMREN = ("g_mutex_init g_mutex_clear g_mutex_lock g_mutex_unlock g_cond_init g_cond_clear g_cond_broadcast g_cond_wait g_cond_wait_until g_thread_new g_thread_join g_thread_pool_new g_thread_pool_push "
         "g_thread_pool_free g_async_queue_new_full g_async_queue_push g_async_queue_try_pop g_async_queue_unref g_bytes_unref g_quark_from_string g_quark_to_string").split()


def b_mm():
    return build("mm", ["harness/mm.c", "harness/vh.c"], mpi=None, tcp=True, extra_defs=f"-iquote {REPO}/src/backends/tcp", extra_link=MMWRAP)


def b_mm_tsan():
    return build("mm_tsan", ["harness/mm.c", "harness/vh.c", "harness/glibsync.c"], san="tsan", mpi=None, tcp=True, extra_link=MMWRAP,
                 extra_defs=f"-iquote {REPO}/src/backends/tcp " + " ".join(f"-D{x}=v{x}" for x in MMREN))


def mm_job(exe, seed, tsan, cases=20):
    r = random.Random(seed); n = r.choice([1, 2, 2, 3, 4, 5, 6, 8]); roomy = r.random() < .5
    env = {"VH_DELAY": r.choice([0, 0, 200, 3000]), "VH_SHORT": r.randint(0, 1), "VH_INTR": r.choice([0, 0, 20]), "VH_ROOMY": int(roomy), "VH_THREADS": int(roomy and r.random() < .5), "VH_HEAVY": int(r.random() < .3)}
    g = dict(client_connections=r.choice([0, 1, 2, 64]), client_threads=r.choice([1, 2, 4, 8]), server_connections=r.choice([0, 1, 2, 64]), server_threads=r.choice([1, 2, 4, 8]), socket_backlog=r.choice([1, 64]), socket_timeout=10,
             inbox_size=r.choice([0, 100, 5000, 1 << 24, -1]), outbox_size=(1 << 30) if roomy else r.choice([0, 100, 5000, 1 << 24, -1]), send_attempts=100000, send_delay=r.choice([.001, .02, .1]),
             receive_attempts=1000000, receive_timeout=r.choice([0, 0, .005]), receive_delay=r.choice([.001, .02, .1]), minimpi_async_split=r.choice(["true", "false"]))
    if r.random() < .3 and n <= 4:   # answers later than the time limit of connections: everything is tried again
        g["socket_timeout"] = .05; g["receive_delay"] = .05; env["VH_STALL"] = 75000; env["VH_DELAY"] = 0
        cases = 12
    if env["VH_DELAY"] or n > 4:
        g["receive_delay"] = max(.02, g["receive_delay"])
    kind = r.choice(["auto", "unix", "tcp", "mix"])
    env["TSAN_OPTIONS"] = "halt_on_error=0:report_atomic_races=0:report_thread_leaks=0"   # the thread that reads settings again may run at exit

    def run(job):
        txt = "[general]\n" + "".join(f"{k}={v}\n" for k, v in g.items())
        if kind == "auto":
            job.env = dict(job.env, OMPI_COMM_WORLD_SIZE=n)
        else:
            txt += "[addresses]\n" + "".join(f"{i}={'localhost %d' % free_port() if kind == 'tcp' or (kind == 'mix' and i % 2) else 'vmm-%d-%d-%d-%d' % (os.getpid(), seed, i, time.time_ns())}\n" for i in range(n))
        os.makedirs(TCPCONF, exist_ok=True); p = os.path.join(TCPCONF, f"mm-{os.getpid()}-{seed}-{int(tsan)}.txt")
        with open(p, "w") as f:
            f.write(txt)
        job.env = dict(job.env, LAIK_TCP_CONFIG=p)
        try:
            rc, out = run_cmd(job.cmd, job.env, job.timeout)
        finally:
            os.unlink(p)
        if rc == 0 and sum(1 for l in out.splitlines() if l == "D") != n:
            out += "\nE not all processes finished\n"
        return rc, out + f"\nN jobs_{'tsan' if tsan else 'asan'} 1\nN processes {n}\nN addresses_{kind} 1\nX settings {' '.join(f'{k}={v}' for k, v in g.items())}\n"
    return Job([b_launch(), n, exe, "--seed", seed, "--n", n, "--cases", cases], env, 100, fn=run)


@check("C23")
def c_transport(prop, tier, seed, t0):
    k = 1 if tier == "quick" else 25
    a, b = b_mm(), b_mm_tsan(); jobs = []
    for i in range(70 * k):
        jobs += [mm_job(a, seed * 100000 + 2 * i, False), mm_job(b, seed * 100000 + 2 * i + 1, True)]
    r = random.Random(seed + 2300); t = b_dsw_tcp_tsan()
    for i in range(10 * k):   # the whole library on top of it, under the race detector
        n = r.choice([2, 3, 4, 5]); o = real_variants(r, "tcp"); o["TSAN_OPTIONS"] = "halt_on_error=0:report_atomic_races=0:report_thread_leaks=0"
        jobs.append(real_job(t, "tcp", n, r.choice(["", "reduce", "preserve", "init", "res"]), n, seed * 1000 + i, 4, o))
    res = run_jobs(jobs, par=8)
    finish(prop, tier, seed, res, "jobs of 1-8 real processes run seeded programs over the message passing transport: point to point messages of all types, 0 bytes to several MB, many tags and groups (split, copied), sent from one or four threads, received in any order across flows; barriers, broadcasts, reductions; random limits of connections, threads, inbox and outbox, "
           "retry settings and time limits, automatic, local and TCP addresses; delays, short transfers, EAGAIN, EINTR and stalls longer than the time limit injected into recv/send/poll/connect/accept; every message, every element of a reduction, every split is compared with what the program prescribes; no open files left after shutdown; "
           "half of the jobs with ASan/UBSan, half with TSan (GLib's primitives replaced by visible ones); signature = sequence of operations and seed", lambda x: x.counters.get("messages_checked", 0) + x.counters.get("reductions_checked", 0), t0,
           require=[("jobs_asan", 70), ("jobs_tsan", 70), ("messages_checked", 3000), ("reductions_checked", 50000), ("groups", 100), ("barriers", 50), ("broadcasts", 100), ("perturbations", 10000), ("stalls", 50), ("connections", 1000), ("elements_checked", 1000)],
           assumptions=["an answer to the very last message of a process before it ends arrives within the time limit of a connection: afterwards nobody repeats it", "limits for the number of attempts are not reached: reaching one is a reported error, not a delivery",
                        "messages of one flow (group, sender, receiver, tag) are sent by one thread and received by one thread", "all processes run on one machine"])


# ------------------------------------------------------------------------------------------------- lifecycles and memory
def b_dsw_growth():
    return build("dsw_growth", ["harness/vh.c", "harness/gen.c", "harness/logmon.c", "harness/growth.c", "harness/dswitch.c"], extra_link=LOGWRAP.replace(" -Wl,--wrap=gettimeofday", ""))


def b_lives():
    return build("lives", ["harness/vh.c", "harness/gen.c", "harness/growth.c", "harness/lives.c"])


@check("C29")
def c_lives(prop, tier, seed, t0):
    k = 1 if tier == "quick" else 20
    d, l = b_dsw_growth(), b_lives(); jobs = [Job([l, "--mode", "many", "--seed", seed, "--n", 0, "--worlds", 1, "--cases", 1100000], timeout=300)]
    for w in range(0, 240 * k, 6):
        jobs.append(Job([l, "--mode", "mixed", "--seed", seed, "--n", w, "--worlds", 6, "--cases", 12], timeout=240))
    modes = ["", "preserve", "reduce", "init", "pre", "res", "cross", "stats"]
    for w in range(0, 96 * k, 2):
        jobs.append(Job([d, "--mode", modes[w // 2 % len(modes)], "--seed", seed, "--n", w, "--worlds", 2, "--cases", 8], {"VH_REPEAT": 4}, timeout=240))
    res = run_jobs(jobs, par=8)
    finish(prop, tier, seed, res, "random programs over all objects of the API (spaces, also published; partitionings of all kinds, cloned, filtered, renamed; range lists; containers with own memory, own allocators, initial partitionings; transitions, action sequences, reservations; stores; profiling; logging of objects), each repeated four times within a process, "
           "objects freed in random permitted order, or alive at finalisation; ASan and UBSan watch every access, each block allocated by the library is attributed to the repetition and the place of allocation, places holding memory from every repetition are reported; 1.1 million objects of each kind one after the other; "
           "signature = sequence of operations", lambda x: x.counters.get("cases", 0), t0,
           require=[("cases", 2000), ("growth_judged", 3000), ("blocks_tracked", 1000000), ("objects_of_each_kind", 1000000), ("finalised_with_objects", 150), ("freed_containers", 2000), ("freed_partitionings", 3000), ("freed_sequences", 500), ("freed_spaces", 500), ("ops_stores", 1000), ("ops_allocators", 500), ("ops_reservations", 200), ("ops_publishing", 500), ("values", 50000)],
           assumptions=["objects are freed after those built from them (sequences before their transition and container, reservations before their container, spaces last)", "groups and partitioners have no function to free them: memory they hold is not counted as growth",
                        "laik_init is not called again after laik_finalize"])


# ----------------------------------------------------------------------------------------------------------------- main
def builders():
    return [v for k, v in sorted(globals().items()) if k.startswith("b_") and callable(v)]


def main(argv):
    t0 = time.time()
    if not argv:
        print(__import__("__main__").__doc__); sys.exit(2)
    if argv[0] == "setup":
        for b in builders():
            b()
        print("built"); return
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        CHECKS[prop](prop, tier, seed, t0)
    except HarnessError as e:
        print(f"harness error: {e}", file=sys.stderr); sys.exit(2)
