"""Shared vocabulary of the property modules (imported in worker processes)."""
import json, math, os, sys

class Violation(AssertionError):
    """The property does not hold for the case being run."""

class Check:
    """One generated check of a property.

    strategy : callable returning a Hypothesis strategy of JSON-able cases
    run      : run(case, env) -> (nontrivial, labels); raises on a violation
    quick/thorough : number of generated cases over all shards
    flavour  : which build of /repo the worker imports ('rel' or 'asan')
    """
    def __init__(self, name, strategy, run, quick, thorough, flavour="rel", shards=8, hang=90):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough
        self.flavour, self.shards, self.hang = flavour, shards, hang

def dumps(case):
    return json.dumps(case, sort_keys=True)

def fail(fmt, *args):
    raise Violation(fmt % args if args else fmt)

def add_venv():
    """Hypothesis comes from the tool venv; appended, so system numpy/h5py win."""
    p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if p not in sys.path:
        sys.path.append(p)

class Env:
    """What a running check may use."""
    def __init__(self, bdir, scratch, extras):
        self.bdir, self.scratch, self.extras = bdir, scratch, extras
        self.n = 0
        self.mode = "generate"
        self.cache = {}
    def tmp(self, name):
        return os.path.join(self.scratch, name)
