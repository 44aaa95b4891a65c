"""Thorough tier.

1. Obligations the quick comparison leaves open are decided again with the boundary functions that the function calls
   inlined on both sides, and with more random interpretations.
2. Sensitivity: the current source of every function of the property is varied (one small mutation at a time, in a
   scratch copy that is analysed, never run) and the comparison repeated.  What it does not notice is listed in the
   evidence; it is no violation."""
import ast
import multiprocessing as mp
import os
import random
import shutil
import sys
import tempfile
import time
from pathlib import Path

from . import contract, obligations, vary
from .compare import DIFF, EQ, UNK

BUDGET = 420


def run(pid, repo, obs, funcs, C):
    t0 = time.time()
    fs, und, st = [], [], {}
    st["second_look"] = second_look(repo, obs, funcs, C, fs)
    st["sensitivity"] = sensitivity(pid, repo, obs, funcs, C, BUDGET - (time.time() - t0))
    return fs, und, st


def callees(C, q):
    out = set()
    for side in (C.code, C.spec):
        s = side.summary(q)
        if s is not None:
            out |= {e.kind for e in s.events if e.kind in side.ip.boundary}
    return out


def second_look(repo, obs, funcs, C, fs):
    res = {"undecided": 0, "now_equal": 0, "now_different": 0, "still_undecided": 0}
    for q in funcs:
        rs = [r for r in C.results.get(q, ()) if obligations.relevant(obs, r.func, r.aspect)]
        if not any(r.verdict == UNK for r in rs):
            continue
        res["undecided"] += 1
        D = contract.Contract(repo)
        less = callees(C, q)
        D.code.ip.boundary = D.spec.ip.boundary = D.code.ip.boundary - less
        try:
            again = [r for r in D.compare(q) if obligations.relevant(obs, r.func, r.aspect)]
        except KeyError:
            again = []
        if again and all(r.verdict == EQ for r in again):
            res["now_equal"] += 1
        elif any(r.verdict == DIFF for r in again) and less:
            # inlining must not make a difference of what is none: only a difference in the same place counts
            bad = [r for r in again if r.verdict == DIFF and any(x.aspect == r.aspect and x.verdict == UNK for x in rs)]
            if bad:
                res["now_different"] += 1
                for r in bad:
                    fs.append((r.file, r.line, r.func, r.aspect, "with callees inlined: " + "; ".join(str(d) for d in r.diffs[:2])))
            else:
                res["still_undecided"] += 1
        else:
            res["still_undecided"] += 1
    return res


JOB = {}


def look(mu):
    sys.setrecursionlimit(50000)
    if time.time() > JOB["end"]:
        return None
    d = Path(tempfile.mkdtemp(prefix="vary"))
    try:
        shutil.copytree(JOB["repo"] / "src", d / "src", ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
        (d / mu["path"]).write_text(mu["code"])
        worst = EQ
        try:
            C = contract.Contract(d)
            C.spent = 350  # no random interpretation
            for q in mu["funcs"]:
                for r in C.compare(q):
                    if obligations.relevant(JOB["obs"], r.func, r.aspect):
                        worst = max(worst, r.verdict)
        except (Exception, contract.TimeLimit):  # noqa: BLE001
            worst = UNK
        return mu["id"], worst, mu["kind"], mu["before"][:80], mu["after"][:80]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def sensitivity(pid, repo, obs, funcs, C, budget):
    spans = {}
    # functions of which every aspect matters here
    whole = [q for q in funcs if obligations.relevant(obs, q, "an aspect only a star matches")]
    for q in whole or funcs:
        r = C.code.project.resolve(q)
        if not r or r[0] != "func" or r[1].qual != q:
            continue
        f = r[1]
        spans.setdefault(f.module.path, []).append((f.node.lineno, f.node.end_lineno, q))
    todo = []
    for path, sp in sorted(spans.items(), key=lambda x: str(x[0])):
        def keep(line, sp=sp):
            return any(a <= line <= z for a, z, _ in sp)
        try:
            rel = Path(path).resolve().relative_to(Path(repo).resolve())
            src = Path(path).read_text()
            for m in vary.mutants(str(rel), src, keep):
                m["path"] = rel
                m["funcs"] = [q for a, z, q in sp if a <= m["line"] <= z]
                todo.append(m)
        except (SyntaxError, ValueError):
            continue
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
    rnd.shuffle(todo)
    JOB.update(repo=Path(repo), obs=obs, end=time.time() + max(30, budget - 60))
    n = {EQ: 0, UNK: 0, DIFF: 0}
    quiet = []
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1), maxtasksperchild=25) as pool:
        for r in pool.imap_unordered(look, todo):
            if r is None:
                continue
            n[r[1]] += 1
            if r[1] == EQ:
                quiet.append(" | ".join(map(str, (r[0], r[3], r[4]))))
    return {"functions": len(whole or funcs), "mutations": len(todo), "analysed": sum(n.values()), "reported": n[DIFF], "undecided": n[UNK], "not_noticed": n[EQ],
            "not_noticed_examples": sorted(quiet)[:25]}
