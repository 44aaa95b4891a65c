#!/usr/bin/env python3
"""check.py ID [--thorough] [--repo DIR]: decides one property on the current tree of /repo.

exit 0: no obligation of the property is violated (undecided ones are listed in the evidence)
exit 1: VIOLATION property=<id> replay=<path>"""
import json
import os
import sys
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.setrecursionlimit(50000)
sys.dont_write_bytecode = True

from sa import obligations, rules  # noqa: E402
from sa.compare import DIFF, EQ, UNK  # noqa: E402
from sa.contract import Contract  # noqa: E402

NAMES = {EQ: "holds", UNK: "undecided", DIFF: "violated"}


def known(pid):
    out = []
    f = HERE / "known-findings.txt"
    for line in f.read_text().splitlines() if f.exists() else ():
        line = line.strip()
        if not line or line.startswith("#") or line.startswith("fixed:"):
            continue
        # finding: property=<id> <function> <aspect or rule> | <text>
        head, _, text = line.partition("|")
        w = head.split()
        if w[0] == "finding:" and w[1] == f"property={pid}":
            out.append((w[2], " ".join(w[3:]), text.strip()))
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    pid = args[0]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in sys.argv
    repo = Path(sys.argv[sys.argv.index("--repo") + 1]) if "--repo" in sys.argv else Path("/repo")
    t0 = time.time()
    obs, rls = obligations.parse(pid)
    findings, undecided, samples = [], [], []
    n = {EQ: 0, UNK: 0, DIFF: 0}
    per = {}
    stats = {}
    C = Contract(repo)
    broken = [str(e) for e in C.code.project.errors]
    funcs = obligations.functions(obs, [f.qual for f in C.spec.project.all_functions()])
    for q in funcs:
        if time.time() - t0 > 500:
            undecided.append(f"{q}: out of time")
            continue
        try:
            rs = C.compare(q)
        except KeyError as e:
            undecided.append(f"{q}: {e}")
            continue
        for r in rs:
            if not obligations.relevant(obs, r.func, r.aspect):
                continue
            n[r.verdict] += 1
            per[q] = per.get(q, 0) + 1
            if r.verdict == EQ and len(samples) < 8 and (len(samples) < 3 or per[q] == 1):
                samples.append(f"{r.func} {r.aspect}: holds ({r.file.rpartition('/src/')[2]}:{r.line})")
            if r.verdict == UNK:
                undecided.append(f"{r.func} {r.aspect}: {str(r.diffs[0])[:200] if r.diffs else ''}")
            if r.verdict == DIFF:
                findings.append((r.file, r.line, r.func, r.aspect, "; ".join(str(d) for d in r.diffs[:3])))
    ctx = rules.Ctx(C)
    for name, a in rls:
        fs, st = rules.run(ctx, name, a, pid)
        stats[" ".join([name, *a])] = st
        for file, line, func, msg in fs:
            findings.append((file, line, func, "rule:" + name, msg))
    if thorough:
        from sa import deep  # noqa: PLC0415
        fs, und, st = deep.run(pid, repo, obs, funcs, C)
        stats["thorough"] = st
        findings += fs
        undecided += und
    kn = known(pid)
    new = []
    for f in findings:
        m = [k for k in kn if k[0] == f[2] and k[1] == f[3]]
        if m:
            print(f"KNOWN-FINDING: property={pid} {m[0][2] or f[2] + ' ' + f[3]}")
        elif f not in new:
            new.append(f)
    ev = HERE / "evidence"
    ev.mkdir(exist_ok=True)
    replay = ev / f"{pid}.replay.json"
    if new:
        replay.write_text(json.dumps({
            "property": pid, "command": f"python3 check.py {pid}",
            "violations": [{"file": f, "line": ln, "function": q, "obligation": a, "difference": m} for f, ln, q, a, m in new]}, indent=1))
    elif replay.exists():
        replay.unlink()
    total = sum(n.values())
    doc = {
        "property": pid, "tier": "thorough" if thorough else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Every function named by the property's obligations was summarised from /repo's current source (values, exceptions, "
                           "attributes, operations and their order, as functions of the inputs, loops included) and each obligation was compared "
                           "with the contract in /verif/spec, which states what the function has to do; equal up to logic means discharged, "
                           "a difference that no reading of unknown parts can remove is a violation, anything else is undecided (never reported). "
                           "Rules look at the call graph, aliases, effects or tables of the whole program.",
            "rule": f"obligations of sa/obligations.py for {pid}: " + "; ".join(sorted({x for _, p in obs for x in p}))[:600],
            "functions": len(funcs), "obligations": total, "discharged": n[EQ], "undecided": n[UNK], "violated": n[DIFF],
            "obligations_per_function": per, "rules": stats, "undecided_list": undecided[:40], "samples": samples,
            "source_files_parsed": len(C.code.project.modules), "unreadable": broken,
            "boundary_dropped": C.dropped,
        },
        "assumptions": ["models of the standard library, pyelftools and argparse in sa/lib.py", "no monkey patching, no other threads"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    (ev / f"{pid}.json").write_text(json.dumps(doc, indent=1, default=str))
    print(f"{pid}: {len(funcs)} functions, {total} obligations: {n[EQ]} hold, {n[UNK]} undecided, {n[DIFF]} violated; "
          f"{len(rls)} rules; {time.time() - t0:.1f} s")
    if new:
        for f, ln, q, a, m in new[:10]:
            print(f"  {f}:{ln}: {q} [{a}] {m[:400]}")
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
