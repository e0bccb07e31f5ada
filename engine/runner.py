"""Parallel analysis of (configuration, entry) units."""
import multiprocessing as mp
import os
import signal
import time
import traceback

from build import BuildError, Tmp


def unit_result(entry, config, C, t):
    I = C.I
    st = dict(obligations=C.obl, exits=C.finals, instructions=I.stats["instr"], case_splits=I.stats["splits"],
              joins=I.stats["merges"], loops_summarised=max(0, I.stats["loops"] - I.stats["unrolled"]),
              loops_unrolled=I.stats["unrolled"], memory_accesses=I.stats["memops"], loop_invariants=I.stats["invariants"],
              order_oracle_queries=getattr(C.W, "vless", 0))
    return {"entry": entry, "config": config, "stats": st,
            "viols": [{k: v for k, v in x.items() if k not in ("key", "wsyms", "cons")} | {"config": config} for x in I.viols],
            "undec": list(I.undec), "time": t,
            "sample": {"entry": entry, "config": config, "obligations": C.obl, "exits": C.finals,
                       "notes": C.W.notes[:3]}}


class SoftTimeout(BaseException):
    """the exploration of a unit has used up its time; alarms found so far are still confirmed"""


T0 = time.time()
BUDGET = float(os.environ.get("VP_BUDGET", "600"))      # seconds for all units of a check
HARD = [0]


def _alarm(*a):
    if HARD[0]:
        signal.alarm(HARD[0])
        HARD[0] = 0
        raise SoftTimeout()
    raise TimeoutError()


def _work(task):
    fn, entry, config, args, limit = task
    t0 = time.time()
    limit = int(min(limit, T0 + BUDGET - t0))
    if limit < 3:
        return {"entry": entry, "config": config, "stats": {}, "viols": [], "undec": ["no time left"], "time": 0}
    signal.signal(signal.SIGALRM, _alarm)
    HARD[0] = limit - limit * 3 // 4
    signal.alarm(limit * 3 // 4)
    try:
        C = fn(*args)
        signal.alarm(0)
        return unit_result(entry, config, C, time.time() - t0)
    except (TimeoutError, SoftTimeout):
        signal.alarm(0)
        return {"entry": entry, "config": config, "stats": {}, "viols": [], "undec": ["time limit %ds" % limit], "time": limit}
    except BaseException as e:
        signal.alarm(0)
        return {"entry": entry, "config": config, "stats": {}, "viols": [], "undec": [],
                "error": "%s: %s" % (type(e).__name__, traceback.format_exc()[-1500:]), "time": time.time() - t0}


FIRST = 75      # seconds for a unit in the first pass


def run_units(tasks, procs=8):
    """tasks: (fn, entry, config, args, limit).  Units that do not finish quickly are taken up
    again, with all the time that is left, when every unit has had its turn."""
    if not tasks:
        return []
    ctx = mp.get_context("fork")
    with ctx.Pool(min(procs, len(tasks)), maxtasksperchild=4) as p:
        us = p.map(_work, [t[:4] + (min(t[4], FIRST),) for t in tasks], chunksize=1)
        again = [i for i, u in enumerate(us) if not u["viols"] and tasks[i][4] > FIRST and
                 any("time limit" in str(x) for x in u["undec"])]
        for i, u in zip(again, p.map(_work, [tasks[i] for i in again], chunksize=1)):
            if u["undec"] != ["no time left"]:
                us[i] = u
    return us


def parallel(fn, items, procs=8):
    """plain parallel map (used for compiling)"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(procs) as ex:
        return list(ex.map(fn, items))
