"""Runs one case of a check: symbolic exploration, witness validation, concrete replay."""

import importlib
import os
import sys
import time
import traceback

from . import core, env
from .core import Engine, EngineSignal, Inconclusive, PathEnd, Unsupported, Violated
from .ctx import ConcreteCtx, ConcreteViolation, SymCtx, output_missing

REPO = os.environ.get("VERIF_REPO", "/repo")
MODULES = ["indexing", "physarray", "parsing", "functions", "flownodes", "dataflow", "datasets",
           "mapdates", "climIO", "miptableparser",
           "modules.commonfunctions", "modules.idl", "modules.dynvarmipdiags",
           "modules.dynvarmipfunctions", "modules.CLM_pft_to_CMIP6_vegtype",
           "modules.CLM_landunit_to_CMIP6_Lut",
           "cli.vardeps", "cli.iconform"]
IMPORT_ERRORS = {}
_LOADED = False


def preload():
    global _LOADED
    if _LOADED:
        return
    _LOADED = True
    for m in MODULES:
        try:
            importlib.import_module("pyconform." + m)
        except EngineSignal:
            raise
        except BaseException as e:      # noqa  (recorded; a harness needing it fails visibly)
            IMPORT_ERRORS[m] = "%s: %s" % (type(e).__name__, e)


# --------------------------------------------------------------- which functions were executed
_SEEN = set()
_TOOL = 4
_PREFIX = os.path.join(os.path.realpath(REPO), "pyconform") + os.sep


def _start(code, offset):
    fn = code.co_filename
    if fn.startswith(_PREFIX) or os.path.realpath(fn).startswith(_PREFIX):
        _SEEN.add("%s:%s" % (os.path.relpath(os.path.realpath(fn), os.path.realpath(REPO)),
                             code.co_qualname))
    return sys.monitoring.DISABLE


def _monitor_on():
    mon = sys.monitoring
    try:
        mon.use_tool_id(_TOOL, "verif")
    except ValueError:
        pass
    mon.register_callback(_TOOL, mon.events.PY_START, _start)
    mon.set_events(_TOOL, mon.events.PY_START)
    mon.restart_events()


def _monitor_off():
    sys.monitoring.set_events(_TOOL, 0)


def find_case(mod, name, tier):
    for c in mod.cases(tier):
        if c[0] == name:
            return c
    for c in mod.cases("thorough"):
        if c[0] == name:
            return c
    raise KeyError("no case %r" % name)


def _opts(mod, case):
    o = dict(getattr(mod, "OPTS", {}))
    if len(case) > 3:
        o.update(case[3])
    return o


def _extra(mod, which):
    f = getattr(mod, which, None)
    return list(f()) if f is not None else []


def from_code_under_test(e):
    """the exception passed through the code under test"""
    tb = e.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(_PREFIX):
            return True
        tb = tb.tb_next
    return False


def _raised(e):
    return "raised %s: %s" % (type(e).__name__, str(e)[:300])


def concrete_run(mod, name, tier, model):
    """('ok'|'violated'|'infeasible'|'error', message)"""
    case = find_case(mod, name, tier)
    ctx = ConcreteCtx(model)
    o = _opts(mod, case)
    for k in ("rtol", "atol"):
        if k in o:
            setattr(ctx, k, o[k] / 10.0)
    old = core._CURRENT
    core._CURRENT = None
    try:
        with env.concrete(_extra(mod, "concrete_stubs")):
            case[1](ctx, **case[2])
        return "ok", ""
    except ConcreteViolation as e:
        return "violated", str(e)
    except PathEnd:
        return "infeasible", ""
    except EngineSignal as e:
        return "error", "%s: %s" % (type(e).__name__, e)
    except Exception as e:
        if output_missing(ctx, e):
            return "violated", output_missing(ctx, e)
        if from_code_under_test(e):
            return "violated", _raised(e)
        return "error", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    finally:
        core._CURRENT = old
        ctx.close()


def explore_case(mod, name, tier, deadline):
    t0 = time.time()
    case = find_case(mod, name, tier)
    o = _opts(mod, case)
    notes = []
    found = {}

    def on_violation(what, model):
        st, msg = concrete_run(mod, name, tier, model)
        if st == "violated":
            found["what"] = "%s | concrete: %s" % (what, msg)
            found["model"] = model
            return True
        notes.append("%s (model gives %s %s)" % (what, st, msg[:200]))
        return len(notes) > 25

    eng = Engine(timeout_ms=o.get("timeout_ms", 20000), max_paths=o.get("max_paths", 100000),
                 deadline=deadline, witnesses=o.get("witnesses", 3), on_violation=on_violation)
    extra = _extra(mod, "symbolic_stubs")

    def h(e):
        ctx = SymCtx(e)
        for k in ("rtol", "atol", "bound"):
            if k in o:
                setattr(ctx, k, o[k])
        try:
            with env.symbolic(extra):
                try:
                    case[1](ctx, **case[2])
                finally:
                    ctx.restore()
        except EngineSignal:
            raise
        except Exception as x:
            if output_missing(ctx, x):
                ctx.fail(output_missing(ctx, x))
            if not from_code_under_test(x):
                raise
            ctx.fail(_raised(x))
        finally:
            ctx.close()

    res = {"case": name, "status": "ok", "functions": [], "witnesses": []}
    _monitor_on()
    try:
        v = eng.explore(h)
        if v is not None and not found:
            res["status"] = "inconclusive"
            res["what"] = "counterexamples not reproduced concretely: " + "; ".join(notes[:3])
        elif found:
            res["status"] = "violated"
            res["what"] = found["what"]
            res["model"] = found["model"]
        elif notes:
            res["status"] = "inconclusive"
            res["what"] = "counterexamples not reproduced concretely: " + "; ".join(notes[:3])
        elif eng.stats.completed == 0 or eng.stats.asserts == 0:
            res["status"] = "inconclusive"
            res["what"] = "vacuous: no path reached an assertion"
    except (Inconclusive, Unsupported) as e:
        res["status"] = "inconclusive"
        res["what"] = "%s: %s" % (type(e).__name__, e)
    except EngineSignal as e:
        res["status"] = "inconclusive"
        res["what"] = "%s: %s" % (type(e).__name__, e)
    except Exception as e:
        res["status"] = "error"
        res["what"] = "%s: %s" % (type(e).__name__, e)
        res["trace"] = traceback.format_exc()[-2500:]
    finally:
        _monitor_off()
    res["functions"] = sorted(_SEEN)
    _SEEN.clear()
    # the solver's path witnesses, re-run on the unmodified code
    val = mis = 0
    for w in eng.stats.witnesses:
        st, msg = concrete_run(mod, name, tier, w)
        if st == "ok":
            val += 1
        elif st == "violated":
            mis += 1
            if res["status"] != "violated":
                res["status"] = "violated"
                res["what"] = "path witness fails on the unmodified code: " + msg
                res["model"] = w
        elif st == "error":
            mis += 1
            res.setdefault("notes", []).append("witness: " + msg[:300])
            if res["status"] == "ok":
                res["status"] = "inconclusive"
                res["what"] = "witness cannot be replayed: " + msg[-600:]
    res["validated"], res["mismatch"] = val, mis
    res["witnesses"] = eng.stats.witnesses[:2]
    st = eng.stats
    res["stats"] = {k: getattr(st, k) for k in
                    ("paths", "completed", "cut", "queries", "decisions", "asserts",
                     "nontrivial_asserts", "concretized", "spurious", "max_depth", "solver_s")}
    res["wall"] = time.time() - t0
    return res
