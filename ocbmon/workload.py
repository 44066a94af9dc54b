"""Use the workloads of all suites under a monitor of another property."""

import contextlib
import importlib

from ocbmon import gen
from ocbmon.core import Case
from ocbmon.core import Group
from ocbmon.core import Skip
from ocbmon.core import StepLimit
from ocbmon.core import Violation

MODULES = ["p01", "p02", "p03", "p04", "p05", "p06", "p07", "p08", "p09",
           "p10", "p11", "p12", "p13", "p14", "p15", "p16", "p17", "p18",
           "p19", "p20", "p24", "p25", "p27"]


class Alarm(BaseException):
    """The monitor saw a violation, which the workload may not swallow."""


class Load(Case):
    """A case whose own oracle is silent, and whose calls are observed."""

    monitor = None

    def call(self, func, *args, **kwargs):
        """Call the code under test below the monitor."""
        return self.monitor(self, func, args, kwargs)

    def plain(self, func, *args, **kwargs):
        """Call the code under test without the monitor."""
        return Case.call(self, func, *args, **kwargs)

    def raises(self, etype, func, *args, **kwargs):
        """Call the code under test with input that it should reject."""
        try:
            self.call(func, *args, **kwargs)
        except Exception as err:
            return err
        raise Skip()

    def seen(self, *sig):
        """Observations of the workload are not those of the monitor."""

    def note(self, *sig):
        """Register an observation of the monitor."""
        self.sigs.append(repr(sig))

    def fail(self, msg):
        """Silence the oracle of the workload."""

    def check(self, cond, msg, *vals):
        """Silence the oracle of the workload."""

    def close_to(self, got, want, tol, msg, rtol=0.0):
        """Silence the oracle of the workload."""

    def same(self, got, want, msg):
        """Silence the oracle of the workload."""

    def known(self, key, msg):
        """Silence the oracle of the workload."""


def wrap(func, monitor, name, finish=None):
    """Run one case of a workload under a monitor."""

    def run(case):
        # The workload has the random source of its own group
        load = Load(case.run, Group(name, func, 0, 0, 0), case.index)
        load.monitor = monitor
        load.state = dict()
        load.info = case.info
        case.show(workload=name)
        try:
            with contextlib.ExitStack() as stack:
                stack.callback(load.close)
                # Monitors compare the whole state at every call
                stack.callback(setattr, gen, "LARGE", gen.LARGE)
                gen.LARGE = 100
                try:
                    func(load)
                except Alarm:
                    raise
                except (Exception, SystemExit, StepLimit):
                    pass
                if finish is not None:
                    finish(load)
        except Alarm as err:
            raise Violation(str(err))
        finally:
            case.sigs.extend(load.sigs)

    return run


def attach(suite, monitor, share, skip=(), finish=None, low=6):
    """Add the workloads of all suites to a suite.

    Parameters
    ----------
    suite : Suite
        Suite with its own property
    monitor : function
        Called with case, function, arguments, and keyword arguments
    share : float
        Share of the cases of each workload
    skip : tuple
        Names of modules or groups that are left out
    finish : function
        Called with the case after the workload

    """
    for name in MODULES:
        if name in skip:
            continue
        mod = importlib.import_module("ocbmon.checks." + name)
        for group in mod.suite.groups:
            full = "{:s}_{:s}".format(name, group.name)
            if full in skip:
                continue
            quick = max(low, int(group.quick * share))
            suite.groups.append(Group(full, wrap(group.func, monitor, full,
                                                 finish), quick,
                                      15 * quick, 0))
