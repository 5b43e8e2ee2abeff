"""python -m mc.run ID [quick|thorough] [--replay FILE]"""
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import pathlib
import signal
import sys
import time
import traceback

T0 = time.monotonic()
from mc import env  # noqa: E402,F401
from mc.core import Cell, jsonable, key_of, seed  # noqa: E402

VERIF = env.VERIF
KNOWN = VERIF / "known_findings.txt"


def known_findings(pid):
    """Lines 'known: property=ID | <cell key> | <what> | text' suppress exactly that cell and failure."""
    out = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if line.startswith("known: property=" + pid + " "):
                _, cell, what, text = [x.strip() for x in line.split("|", 3)]
                out.append((cell, what, text))
    return out


class Hang(BaseException):
    """A cell used far more processor time than any cell of the tier needs."""


LIMIT = {"quick": 300, "thorough": 6 * 3600}


def on_prof(*_):
    raise Hang


def run_cell(args):
    pid, cell, tier = args
    mod = importlib.import_module("mc.checks." + pid.lower())
    c = Cell(cell)
    t = time.monotonic()
    signal.signal(signal.SIGPROF, on_prof)
    signal.setitimer(signal.ITIMER_PROF, LIMIT[tier])
    try:
        mod.run(c, cell)
        signal.setitimer(signal.ITIMER_PROF, 0)
    except Hang:
        c.fail("does not terminate", cpu_seconds=LIMIT[tier])
    except (MemoryError, KeyboardInterrupt, OSError):
        raise
    except Exception as e:  # the code under test failed where the model defines a value
        c.fail("exception", error=repr(e)[:500], traceback=traceback.format_exc()[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    r = c.result()
    r["wall"] = time.monotonic() - t
    return r


def hung(r):
    return any(f["what"] == "does not terminate" for f in r["fails"])


def main():
    argv = sys.argv[1:]
    replay = None
    if "--replay" in argv:
        i = argv.index("--replay")
        replay = argv[i + 1]
        del argv[i:i + 2]
    timing = "--timing" in argv
    argv = [a for a in argv if a != "--timing"]
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("mc.checks." + pid.lower())
    if replay:
        d = json.loads(pathlib.Path(replay).read_text())
        tier = d.get("tier", tier)
        r = run_cell((pid, d["cell"], tier))
        r2 = run_cell((pid, d["cell"], tier))
        print(json.dumps(r["fails"], indent=1))
        assert [f["what"] for f in r["fails"]] == [f["what"] for f in r2["fails"]], "replay is not deterministic"
        sys.exit(1 if r["fails"] else 0)

    cells = list(mod.cells(tier))
    keys = [key_of(c) for c in cells]
    assert len(set(keys)) == len(keys), "duplicate cells"
    # one recorded execution is replayed first: the whole exploration must be deterministic
    n = min(int(os.environ.get("MC_JOBS", "8")), max(len(cells), 1))
    results = []
    if n == 1:
        results = [run_cell((pid, c, tier)) for c in cells]
    else:
        with cf.ProcessPoolExecutor(n, mp_context=mp.get_context("fork")) as ex:
            for r in ex.map(run_cell, [(pid, c, tier) for c in cells]):
                results.append(r)
                if hung(r):  # the other cells may hang too: what was found is enough
                    for w in list(ex._processes.values()):
                        w.kill()
                    ex.shutdown(wait=False, cancel_futures=True)
                    break
    first = results[0] if any(map(hung, results)) else run_cell((pid, cells[0], tier))
    if [f["what"] for f in first["fails"]] != [f["what"] for f in results[0]["fails"]] or first["states"] != results[0]["states"]:
        print("error: the first cell did not replay identically", file=sys.stderr)
        sys.exit(3)

    tot = {k: sum(r[k] for r in results) for k in ("states", "transitions", "traces", "comparisons")}
    outcomes = {}
    for r in results:
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
    known = known_findings(pid)
    bad, suppressed = [], []
    for r, k in zip(results, keys):
        for f in r["fails"]:
            m = [x for x in known if x[0] == k and x[1] == f["what"]]
            (suppressed if m else bad).append((r, f, m))
    shown = set()
    for r, f, m in suppressed:
        if m[0] not in shown:
            shown.add(m[0])
            print(f"KNOWN-FINDING: property={pid} {m[0][2]}")
    samples = [s for r in results for s in [dict(cell=r["cell"], **x) for x in r["samples"]]]
    step = max(1, len(samples) // 6)
    wall = time.monotonic() - T0
    ev = dict(
        property=pid, tier=tier, seed=seed(), level=getattr(mod, "LEVEL", "model_checking"),
        coverage=dict(
            states=tot["states"], transitions=tot["transitions"],
            traces_validated_against_impl=tot["traces"], comparisons=tot["comparisons"],
            cells=len(cells), outcomes=outcomes, exhaustive=True, bounds=mod.BOUNDS,
            rule=mod.RULE, samples=samples[::step][:6] or [cells[0]]),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 2), violations=sum(1 for _ in bad))
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(jsonable(ev), indent=1) + "\n")
    print(f"{pid} {tier}: cells={len(cells)} states={tot['states']} transitions={tot['transitions']} "
          f"traces={tot['traces']} comparisons={tot['comparisons']} outcomes={outcomes} wall={wall:.1f}s")
    if timing:
        for r in sorted(results, key=lambda r: -r["wall"])[:5]:
            print("  slow", round(r["wall"], 2), r["cell"])
    if bad:
        out = VERIF / "replays"
        out.mkdir(exist_ok=True)
        r, f, _ = bad[0]
        path = out / f"{pid}.json"
        path.write_text(json.dumps(dict(property=pid, tier=tier, cell=r["cell"], fail=f,
                                        replay=f"./check {pid} --replay {path}"), indent=1) + "\n")
        for r, f, _ in bad[:3]:
            print("  " + json.dumps(dict(cell=r["cell"], **f))[:1500])
        print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    if min(tot.values()) == 0:
        print("error: vacuous exploration", file=sys.stderr)
        sys.exit(3)
    sys.exit(0)


if __name__ == "__main__":
    main()
