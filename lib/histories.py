"""Helpers for the analysis checks: analytic reference files and running the analyses."""
import json
import multiprocessing
import os
import numpy as np
import common


class _Done:
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v

    def wait(self, timeout=None):
        return

    def ready(self):
        return True

    successful = ready


class SerialPool:
    """stand-in for multiprocessing.Pool: same results in this process (used to keep histories cheap)"""
    def __init__(self, *a, **k):
        init = a[1] if len(a) > 1 else k.get("initializer")
        if init:
            init(*(a[2] if len(a) > 2 else k.get("initargs", ())))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def starmap(self, f, args, chunksize=None):
        return [f(*a) for a in args]

    def map(self, f, args, chunksize=None):
        return [f(a) for a in args]

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def imap(self, f, args, chunksize=1):
        return iter(self.map(f, args))

    imap_unordered = imap

    def starmap_async(self, f, args, *a, **k):
        return _Done(self.starmap(f, args))

    def map_async(self, f, args, *a, **k):
        return _Done(self.map(f, args))

    def apply_async(self, f, args=(), kwds={}, *a, **k):
        return _Done(f(*args, **kwds))

    def close(self):
        pass

    terminate = join = close


class serial_pool:
    def __enter__(self):
        self.old = multiprocessing.Pool
        multiprocessing.Pool = SerialPool

    def __exit__(self, *a):
        multiprocessing.Pool = self.old
        return False


def write_analytic(FS, hv, hr, table):
    """table: {T: dict(Z,E,Cv,Zp,Zm)}"""
    d = {"hash_vib": hv, "hash_rho": hr}
    for T, v in table.items():
        d["%.2f" % T] = {"Z_sampling": v["Z"], "E_sampling": v["E"], "Cv_sampling": v["Cv"],
                         "Z_sampling+beta": v["Zp"], "Z_sampling-beta": v["Zm"]}
    with open(FS.path_analytic_rho, "w") as f:
        json.dump(d, f)


def analyse(FS, kind, method, real_pool=False, location="local"):
    stats = common.load("pibronic.stats.stats")
    fn = stats.statistical_analysis_of_pimc if kind == "plain" else stats.jackknife_analysis_of_pimc
    with common.Quiet():
        if real_pool:
            return fn(FS, method, location)
        with serial_pool():
            return fn(FS, method, location)


def thermo_files(FS):
    out = {}
    for f in sorted(os.listdir(FS.path_rho_results)):
        if f.endswith("thermo"):
            with open(os.path.join(FS.path_rho_results, f), encoding="utf-8") as fh:
                out[f] = json.load(fh)
    return out
