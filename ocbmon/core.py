"""Case runner, verdicts, instrumentation, and evidence for the monitors.

Every check is a module with a list of case groups.  A case builds a random
workload from a seed, drives the real ocbpy code through its public interface,
and lets an oracle judge what was observed.  Verdicts are three-valued:

violated      the oracle refuted the property on an observed execution, or the
              code under test raised where the property says it must answer,
              or it passed the logical step budget;
held          every observed execution satisfied the oracle;
inconclusive  a group observed nothing, or the wall-clock watchdog fired, or
              the environment failed (no memory, no disk).
"""

import collections
import contextlib
import io
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OCBMON_REPO", "/repo")
STEP_LIMIT = 3000000  # logical steps (branches in ocbpy code) of one call


class Violation(Exception):
    """The oracle refuted the property."""


class StepLimit(BaseException):
    """A single call ran past the logical step budget."""


class Inconclusive(Exception):
    """The environment did not let the monitor decide."""


class Hang(BaseException):
    """A case used processor time without an end."""


class Skip(Exception):
    """The generated case is outside of the property's domain."""


# ---------------------------------------------------------------------------
# Instrumentation of the code under test

class Monitor(object):
    """Observe the execution of ocbpy code through sys.monitoring.

    Counts calls of ocbpy functions, the distinct branch outcomes and lines
    seen, and bounds the number of branches a single observed call may take.

    """

    def __init__(self):
        self.root = os.path.join(os.path.realpath(REPO), "ocbpy") + os.sep
        self.calls = collections.Counter()
        self.lines = collections.defaultdict(set)
        self.edges = set()
        self.steps = 0
        self.limit = None
        self.on = False
        self._mine = {}

    def mine(self, code):
        """Determine if a code object belongs to the package under test."""
        try:
            return self._mine[code]
        except KeyError:
            name = code.co_filename
            out = name.startswith(self.root) and "/tests/" not in name
            self._mine[code] = out
            return out

    def start(self):
        """Switch the instrumentation on."""
        mon = sys.monitoring
        self.tool = mon.PROFILER_ID
        mon.use_tool_id(self.tool, "ocbmon")
        ev = mon.events
        mon.register_callback(self.tool, ev.PY_START, self._start)
        mon.register_callback(self.tool, ev.LINE, self._line)
        mon.register_callback(self.tool, ev.BRANCH, self._branch)
        mon.register_callback(self.tool, ev.JUMP, self._branch)
        mon.set_events(self.tool, ev.PY_START | ev.LINE | ev.BRANCH | ev.JUMP)
        self.on = True

    def _start(self, code, offset):
        if not self.mine(code):
            return sys.monitoring.DISABLE
        self.calls[code.co_qualname] += 1

    def _line(self, code, line):
        if self.mine(code):
            self.lines[code.co_filename[len(self.root):]].add(line)
        return sys.monitoring.DISABLE

    def _branch(self, code, offset, dest):
        if not self.mine(code):
            return sys.monitoring.DISABLE
        self.edges.add((code.co_filename, code.co_firstlineno, offset, dest))
        self.steps += 1
        if self.limit is not None and self.steps > self.limit:
            self.limit = None
            raise StepLimit("more than {:d} logical steps".format(STEP_LIMIT))

    def summary(self):
        """Summarise what was observed."""
        return {"ocbpy_function_calls": int(sum(self.calls.values())),
                "ocbpy_functions_reached": len(self.calls),
                "distinct_branch_outcomes": len(self.edges),
                "lines_reached": {ff: len(ll) for ff, ll in
                                  sorted(self.lines.items())}}


MON = Monitor()


# ---------------------------------------------------------------------------
# Cases

def brief(val, size=12):
    """Provide a short, readable form of a value for the witness."""
    if isinstance(val, np.ndarray):
        if val.size > size:
            return "array{:}[{:}, ...]".format(
                val.shape, ", ".join(str(vv) for vv in val.ravel()[:size]))
        return repr(val.tolist())
    if isinstance(val, (list, tuple)) and len(val) > size:
        return "{:s} of {:d} [{:}, ...]".format(
            type(val).__name__, len(val), ", ".join(brief(vv)
                                                    for vv in val[:size]))
    if isinstance(val, dict):
        return "{" + ", ".join("{:}: {:}".format(kk, brief(vv)) for kk, vv
                               in val.items()) + "}"
    text = repr(val)
    return text if len(text) < 600 else text[:600] + "..."


class Case(object):
    """One generated execution, its random source, and what it observed."""

    def __init__(self, run, group, index):
        self.run = run
        self.group = group
        self.index = index
        self.seed = [run.seed, zlib.crc32("{:s}/{:s}".format(
            run.prop, group.name).encode()), index]
        self.rng = np.random.default_rng(self.seed)
        self.info = collections.OrderedDict()
        self.sigs = []
        self.n_calls = 0
        self._tmp = None

    @property
    def tmp(self):
        """Scratch directory that is removed with the case."""
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(dir=self.run.scratch)
        return self._tmp

    def close(self):
        """Remove the scratch directory."""
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)

    def show(self, **kwargs):
        """Add inputs to the witness."""
        self.info.update(kwargs)

    def call(self, func, *args, **kwargs):
        """Call the code under test within the logical step budget."""
        self.n_calls += 1
        self.run.n_calls += 1
        MON.steps = 0
        MON.limit = STEP_LIMIT
        try:
            return func(*args, **kwargs)
        except StepLimit as serr:
            raise Violation("call of {:s} does not end: {:}".format(
                getattr(func, "__qualname__", str(func)), serr))
        finally:
            MON.limit = None

    def raises(self, etype, func, *args, **kwargs):
        """Require that the code under test rejects its input."""
        try:
            out = self.call(func, *args, **kwargs)
        except etype as err:
            return err
        self.fail("expected {:s} from {:s}, got {:s}".format(
            str(etype), getattr(func, "__qualname__", str(func)), brief(out)))

    def seen(self, *sig):
        """Register one distinct, non-trivial observation."""
        self.sigs.append(repr(sig))

    def fail(self, msg):
        """Raise a violation."""
        raise Violation(msg)

    def check(self, cond, msg, *vals):
        """Raise a violation if the condition does not hold."""
        self.run.n_asserts += 1
        if not cond:
            raise Violation(msg + (": " + "; ".join(
                str(brief(vv)) for vv in vals) if len(vals) > 0 else ""))

    def known(self, key, msg):
        """Note an observation which is explained by a listed finding.

        Raises a violation if the finding is not listed.

        """
        if key not in self.run.listed:
            raise Violation(msg)
        self.run.known_seen[key] += 1

    # Oracle comparisons --------------------------------------------------

    def close_to(self, got, want, tol, msg, rtol=0.0):
        """Require matching shapes, matching NaN, and close values."""
        self.run.n_asserts += 1
        try:
            got_a = np.asarray(got, dtype=float)
        except (TypeError, ValueError):
            raise Violation("{:s}: result is not numeric: {:}".format(
                msg, brief(got)))
        want_a = np.asarray(want, dtype=float)
        if got_a.shape != want_a.shape:
            raise Violation("{:s}: shape {:} is not {:}".format(
                msg, got_a.shape, want_a.shape))
        gnan, wnan = np.isnan(got_a), np.isnan(want_a)
        if np.any(gnan != wnan):
            ii = tuple(np.argwhere(np.atleast_1d(gnan != wnan))[0])
            raise Violation("{:s}: undefined values differ at {:}: {:} is not "
                            "{:}".format(msg, tuple(int(i) for i in ii),
                                         np.atleast_1d(got_a)[ii],
                                         np.atleast_1d(want_a)[ii]))
        with np.errstate(invalid="ignore"):
            diff = np.where(got_a == want_a, 0.0, np.abs(got_a - want_a))
            bad = (diff > tol + rtol * np.abs(want_a)) & ~wnan
        bad |= np.isnan(diff) & ~wnan
        if np.any(bad):
            ii = tuple(np.argwhere(np.atleast_1d(bad))[0])
            raise Violation("{:s}: {!r} is not {!r} (index {:}, difference "
                            "{:})".format(msg, float(np.atleast_1d(got_a)[ii]),
                                          float(np.atleast_1d(want_a)[ii]),
                                          tuple(int(i) for i in ii),
                                          float(np.atleast_1d(diff)[ii])))

    def same(self, got, want, msg):
        """Require equal Python values."""
        self.run.n_asserts += 1
        if not got == want:
            raise Violation("{:s}: {:} is not {:}".format(msg, brief(got),
                                                          brief(want)))


# The quick tier runs this many times the listed number of cases, on all
# processors and at most for this many seconds
QUICK_SCALE = 6
QUICK_BUDGET = 400.0
CASE_CPU = 60.0  # seconds of processor time, cases need less than two
CASE_RSS = 2000000  # kB of memory, workers need less than 500000
CRASHES = [signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE,
           signal.SIGILL]

Group = collections.namedtuple("Group", ["name", "func", "quick", "thorough",
                                         "need"])


class Suite(object):
    """Case groups of one property."""

    def __init__(self, prop, rule, assumptions=(), level="exploration"):
        self.prop = prop
        self.rule = rule
        self.assumptions = list(assumptions)
        self.level = level
        self.groups = []

    def group(self, quick, thorough=None, need=None):
        """Register a case generator with its number of cases."""
        def deco(func):
            self.groups.append(Group(
                func.__name__, func, quick,
                20 * quick if thorough is None else thorough,
                max(1, quick // 4) if need is None else need))
            return func
        return deco


class Run(object):
    """Run the cases of one property."""

    def __init__(self, suite, seed, tier, listed, scratch):
        self.suite = suite
        self.prop = suite.prop
        self.seed = seed
        self.tier = tier
        self.listed = listed
        self.scratch = scratch
        self.n_cases = 0
        self.n_calls = 0
        self.n_asserts = 0
        self.n_skip = 0
        self.sigs = set()
        self.per_group = collections.OrderedDict()
        self.samples = []
        self.known_seen = collections.Counter()
        self.failures = []
        self.problems = []
        self.hung = False
        self.mark = None

    def one(self, group, index):
        """Run one case and record its verdict."""
        case = Case(self, group, index)
        stats = self.per_group.setdefault(group.name, collections.Counter())
        self.n_cases += 1
        stats["cases"] += 1
        msg = None
        if self.mark is not None:
            self.mark[:2] = [self.suite.groups.index(group), index]
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU)
            with np.errstate(all="ignore"):
                group.func(case)
        except Skip:
            self.n_skip += 1
            stats["skipped"] += 1
        except MemoryError as err:
            err.__traceback__ = None  # frees what the frames hold
            if resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > CASE_RSS:
                msg = "used more than {:d} kB of memory".format(CASE_RSS)
                self.hung = True
            else:
                self.problems.append("{:s}[{:d}]: {:}".format(
                    group.name, index, err))
        except Inconclusive as err:
            self.problems.append("{:s}[{:d}]: {:}".format(group.name, index,
                                                          err))
        except OSError as err:
            if err.errno in (28, 24, 12, 30):
                self.problems.append("{:s}[{:d}]: {:}".format(
                    group.name, index, err))
            else:
                msg = "unexpected {:s}: {:}\n{:s}".format(
                    type(err).__name__, err, traceback.format_exc(limit=-6))
        except Violation as err:
            msg = str(err)
        except (Exception, SystemExit) as err:
            msg = "unexpected {:s}: {:}\n{:s}".format(
                type(err).__name__, err, traceback.format_exc(limit=-6))
        except Hang:
            msg = "no return in {:.0f} s of processor time\n{:s}".format(
                CASE_CPU, traceback.format_exc(limit=-6))
            self.hung = True
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0.0)
            case.close()

        new = [ss for ss in case.sigs if ss not in self.sigs]
        self.sigs.update(new)
        stats["nontrivial"] += len(set(new))
        if len(new) > 0 and stats["sampled"] < 2:
            stats["sampled"] += 1
            self.samples.append({"group": group.name, "index": index,
                                 "observed": new[0][:400],
                                 "inputs": {kk: str(brief(vv))[:200] for kk, vv
                                            in list(case.info.items())[:8]}})
        if msg is not None:
            stats["violations"] += 1
            self.failures.append({
                "property": self.prop, "group": group.name, "index": index,
                "seed": self.seed, "rng": case.seed, "message": msg,
                "inputs": {kk: brief(vv) for kk, vv in case.info.items()}})
        return msg

    def go(self, shard=0, n_shards=1, deadline=None):
        """Run all of the groups."""
        for group in self.suite.groups:
            total = (min(QUICK_SCALE * group.quick, max(group.quick,
                                                        group.thorough))
                     if self.tier == "quick" else group.thorough)
            bad = 0
            for index in range(shard, total, n_shards):
                if deadline is not None and time.time() > deadline:
                    self.per_group.setdefault(
                        group.name, collections.Counter())["cut"] += 1
                    break
                if self.one(group, index) is not None:
                    bad += 1
                    if self.hung:
                        return
                    if bad >= 2:
                        break

    def export(self):
        """Provide the state of this run to be merged by another process."""
        return {"n": [self.n_cases, self.n_calls, self.n_asserts, self.n_skip],
                "sigs": self.sigs, "per_group": self.per_group,
                "samples": self.samples, "known": self.known_seen,
                "failures": self.failures, "problems": self.problems,
                "calls": MON.calls, "edges": MON.edges,
                "lines": dict(MON.lines)}

    def merge(self, data):
        """Add the state of another process."""
        self.n_cases += data["n"][0]
        self.n_calls += data["n"][1]
        self.n_asserts += data["n"][2]
        self.n_skip += data["n"][3]
        self.sigs |= data["sigs"]
        for gg, stats in data["per_group"].items():
            self.per_group.setdefault(gg, collections.Counter()).update(stats)
        self.samples = (self.samples + data["samples"])[:40]
        self.known_seen.update(data["known"])
        self.failures.extend(data["failures"])
        self.problems.extend(data["problems"])
        MON.calls.update(data["calls"])
        MON.edges |= data["edges"]
        for ff, ll in data["lines"].items():
            MON.lines[ff] |= ll


# ---------------------------------------------------------------------------
# Known findings

def load_known(prop):
    """Load the listed findings of a property.

    Returns
    -------
    listed : dict
        Maps the mechanism of each finding to its description

    """
    listed = collections.OrderedDict()
    with open(os.path.join(VERIF, "known_findings.txt")) as fin:
        for line in fin:
            part = line.strip().split(" ", 3)
            if part[0] == "known:" and part[1] == "property=" + prop:
                listed[part[2].split("=", 1)[1]] = part[3]
    return listed


def write_evidence(run, wall, level, extra):
    """Write what this run covered."""
    out = {"property": run.prop, "tier": run.tier, "seed": run.seed,
           "level": level, "wall_s": round(wall, 3),
           "violations": len(run.failures),
           "assumptions": run.suite.assumptions,
           "coverage": {
               "evaluations": run.n_cases,
               "distinct_nontrivial": len(run.sigs),
               "rule": run.suite.rule,
               "samples": run.samples[:12],
               "calls_of_the_code_under_test": run.n_calls,
               "oracle_assertions": run.n_asserts,
               "skipped_out_of_domain": run.n_skip,
               "known_findings_observed": dict(run.known_seen),
               "groups": {gg: {kk: vv for kk, vv in cc.items()
                               if kk != "sampled"}
                          for gg, cc in run.per_group.items()},
               "monitor": MON.summary()}}
    out["coverage"].update(extra)
    path = os.path.join(VERIF, "evidence", run.prop + ".json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as fout:
        json.dump(out, fout, indent=1, default=str)
        fout.write("\n")


def prepare_environment(scratch):
    """Give third-party packages a scratch home directory."""
    home = os.path.join(scratch, "home")
    os.makedirs(os.path.join(home, "pysatData"), exist_ok=True)
    os.environ["HOME"] = home
    os.environ["TZ"] = "UTC"
    time.tzset()
    tempfile.tempdir = scratch
    os.chdir(home)
    sys.dont_write_bytecode = True
    if sys.path[0] != os.path.realpath(REPO):
        sys.path.insert(0, os.path.realpath(REPO))


def _alarm(signum, frame):
    raise Inconclusive("wall-clock watchdog")


def _hang(signum, frame):
    raise Hang()


def _worker(suite, seed, tier, listed, scratch, shard, n_shards, deadline,
            conn, mark, single=None):
    # An endless case must not use up the memory of the machine
    with open("/proc/self/statm") as fin:
        size = int(fin.read().split()[0]) * resource.getpagesize()
    resource.setrlimit(resource.RLIMIT_AS,
                       (size + 2 * CASE_RSS * 1024, resource.RLIM_INFINITY))
    run = Run(suite, seed, tier, listed, scratch)
    run.mark = mark
    if single is None:
        run.go(shard, n_shards, deadline)
    else:
        run.one(*single)
    conn.send(run.export())
    conn.close()


def _crash(run, ctx, proc, mark, args):
    """Record a worker that ended early, a crash of one case if it repeats."""
    proc.join()
    group, index = run.suite.groups[max(0, mark[0])], mark[1]
    if mark[0] >= 0 and -(proc.exitcode or 0) in CRASHES:
        recv, send = ctx.Pipe(False)
        again = ctx.Process(target=_worker, args=args + (
            send, mark, (group, index)), daemon=True)
        again.start()
        send.close()
        again.join(60.0)
        if -(again.exitcode or 0) in CRASHES:
            run.failures.append({
                "property": run.prop, "group": group.name, "index": index,
                "seed": run.seed, "rng": None, "message": "the interpreter "
                "crashed with signal {:d}".format(-again.exitcode),
                "inputs": {}})
            return
        again.kill()
    run.problems.append("a worker ended without a verdict in {:s}[{:d}], "
                        "{:}".format(group.name, index, proc.exitcode))


def main(prop, argv):
    """Run the check of one property and end the process."""
    import importlib
    import logging
    import warnings

    start = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    only = None
    for arg in argv:
        if arg in ("quick", "thorough"):
            tier = arg
        elif arg.startswith("seed="):
            seed = int(arg[5:])
        elif arg.startswith("replay="):
            with open(arg[7:]) as fin:
                replay = json.load(fin)
            seed = replay["seed"]
        elif arg.startswith("group="):
            only = arg[6:]

    scratch = tempfile.mkdtemp(prefix="ocbmon_{:s}_".format(prop),
                               dir="/dev/shm" if os.access("/dev/shm", os.W_OK)
                               else None)
    cwd = os.getcwd()
    code = 2
    try:
        prepare_environment(scratch)
        warnings.simplefilter("ignore")
        for name in ("numpy", "aacgmv2", "pandas", "pysat"):
            with contextlib.redirect_stdout(io.StringIO()):
                mod = importlib.import_module(name)
        mod.params["data_dirs"] = os.path.join(scratch, "home", "pysatData")

        # Never read a stale compiled file of the code under test
        sys.pycache_prefix = os.path.join(scratch, "pycache")
        for name in ("ocbpy", "ocbpy.vectors", "ocbpy.ocb_scaling",
                     "ocbpy.boundaries.files",
                     "ocbpy.boundaries.dmsp_ssj_files",
                     "ocbpy.instruments.general", "ocbpy.instruments.supermag",
                     "ocbpy.instruments.vort",
                     "ocbpy.instruments.pysat_instruments"):
            importlib.import_module(name)
        sys.pycache_prefix = None
        MON.start()
        suite = importlib.import_module(
            "ocbmon.checks." + prop.lower()).suite
        import ocbpy
        ocbpy.logger.setLevel(logging.CRITICAL + 1)
        logging.disable(logging.CRITICAL)
        if not os.path.realpath(ocbpy.__file__).startswith(MON.root):
            print("INCONCLUSIVE property={:s} ocbpy comes from {:s}".format(
                prop, ocbpy.__file__))
            return 2
        if only is not None:
            suite.groups = [gg for gg in suite.groups if gg.name == only]

        listed = load_known(prop)
        run = Run(suite, seed, tier, listed, scratch)

        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(800)
        signal.signal(signal.SIGVTALRM, _hang)
        extra = {}
        if replay is not None:
            group = [gg for gg in suite.groups if gg.name == replay["group"]]
            run.one(group[0], replay["index"])
        else:
            import multiprocessing
            ctx = multiprocessing.get_context("fork")
            n_proc = min(8, os.cpu_count() or 1)
            deadline = start + (QUICK_BUDGET if tier == "quick" else float(
                os.environ.get("OCBMON_BUDGET", "600")))
            jobs = []
            for shard in range(n_proc):
                recv, send = ctx.Pipe(False)
                mark = ctx.Array("q", [-1, -1], lock=False)
                args = (suite, seed, tier, listed, scratch, shard, n_proc,
                        deadline)
                proc = ctx.Process(target=_worker, args=args + (send, mark),
                                   daemon=True)
                proc.start()
                send.close()
                jobs.append((proc, recv, mark, args))
            for proc, recv, mark, args in jobs:
                try:
                    if recv.poll(max(1.0, deadline + 60.0 - time.time())):
                        run.merge(recv.recv())
                        proc.join()
                    else:
                        run.problems.append("wall-clock watchdog of a worker")
                        proc.kill()
                except EOFError:
                    _crash(run, ctx, proc, mark, args)
            extra["processes"] = n_proc
        signal.alarm(0)

        # Every group has to have observed something
        if replay is None:
            for group in suite.groups:
                got = run.per_group.get(group.name, {}).get("nontrivial", 0)
                if got < min(group.need, max(1, group.quick)):
                    run.problems.append(
                        "group {:s} observed {:d} < {:d} cases".format(
                            group.name, got, group.need))
            for key in listed:
                if run.known_seen[key] == 0 and len(run.failures) == 0:
                    extra.setdefault("findings_not_observed", []).append(key)
            write_evidence(run, time.time() - start, suite.level, extra)

        for key, text in listed.items():
            if run.known_seen[key] > 0:
                print("KNOWN-FINDING: property={:s} {:s} ({:s}, observed "
                      "{:d} times)".format(prop, text, key,
                                           run.known_seen[key]))

        if len(run.failures) > 0:
            rdir = os.path.join(VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            done = set()
            for fail in run.failures:
                if fail["group"] in done:
                    continue
                done.add(fail["group"])
                path = os.path.join(rdir, "{:s}-{:s}-{:d}-{:d}.json".format(
                    prop, fail["group"], fail["seed"], fail["index"]))
                with open(path, "w") as fout:
                    json.dump(fail, fout, indent=1, default=str)
                print("  {:s}[{:d}]: {:s}".format(
                    fail["group"], fail["index"], fail["message"]))
                for kk, vv in fail["inputs"].items():
                    print("    {:s} = {:}".format(kk, str(vv)[:300]))
                print("VIOLATION property={:s} replay={:s}".format(prop, path))
            code = 1
        elif len(run.problems) > 0:
            for pp in run.problems[:5]:
                print("INCONCLUSIVE property={:s} {:s}".format(prop, pp))
            code = 2
        else:
            print("HELD property={:s} on {:d} executions ({:d} distinct, "
                  "{:d} calls, {:d} assertions) in {:.1f} s".format(
                      prop, run.n_cases, len(run.sigs), run.n_calls,
                      run.n_asserts, time.time() - start))
            code = 0
    except Inconclusive as err:
        print("INCONCLUSIVE property={:s} {:}".format(prop, err))
        code = 2
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
        sys.stdout.flush()
    return code
