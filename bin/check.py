"""Checks one property: python3 bin/check.py Pxx [--tier quick|thorough] [--count N] [--keep DIR] [--replay FILE]

1. models:     TLC checks the specification itself (theorems of the oracle, the session and search models, and
               that every planted fault of those models is found);
2. scenarios:  TLC writes them from the specification (Gen.tla);
3. driver:     executes them on the code in /repo's working tree and records what happened;
4. trace:      TLC evaluates the property's clauses on every recorded event (Trace.tla).

Exit 0: the property held on everything explored. Exit 1 with a VIOLATION line: it did not. Exit 2: no answer.
"""
import sys, os, re, json, time, subprocess, shutil, tempfile, argparse
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from plan import PLAN, LAWS, LAW_SCENARIOS
PY = "/opt/venv/bin/python"
CALL_DEADLINE = 300


def fail(text):
    print("NO ANSWER: " + text)
    sys.exit(2)


def tlc(module, cfg, work, env=None, args=(), timeout=800):
    e = dict(os.environ)
    e.update(env or {})
    meta = tempfile.mkdtemp(dir=work)
    e["TLC_META"] = meta
    try:
        r = subprocess.run([os.path.join(V, "bin/tlc.sh"), os.path.join(V, "spec", module + ".tla"),
                            os.path.join(V, "spec", cfg)] + list(args), env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=work)
    except subprocess.TimeoutExpired:
        fail("TLC ran out of time on %s" % module)
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def counts(out):
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def run_models(prop, tier, work):
    states = trans = 0
    notes = []
    for m in PLAN[prop].get("models", []):
        if m.get("tier", "quick") == "thorough" and tier != "thorough":
            continue
        env = {k: str(v) for k, v in m.get("env", {}).items()}
        env["TIER"] = tier
        code, out = tlc(m["module"], m["cfg"], work, env, ["-workers", "8"] + m.get("args", []))
        g, d = counts(out)
        states += d
        trans += g
        if m.get("violates"):
            if not re.search(r"%s is violated|%s was violated" % (m["violates"], m["violates"]), out):
                fail("the fault of %s/%s is not found by TLC:\n%s" % (m["module"], m["cfg"], out[-1500:]))
        elif code != 0 or "No error has been found" not in out:
            fail("TLC on %s/%s:\n%s" % (m["module"], m["cfg"], out[-3000:]))
        notes.append("%s/%s: %d states%s" % (m["module"], m["cfg"], d, " (fault found)" if m.get("violates") else ""))
    return states, trans, notes


def generate(prop, tier, seed, work, count):
    files = []
    for n, g in enumerate(PLAN[prop].get("generators", [{"module": "Gen"}])):
        out = os.path.join(work, "scenarios%d.ndjson" % n)
        c = count if count is not None else g.get(tier, PLAN[prop].get(tier, 20))
        env = {"PROPERTY": prop, "COUNT": str(c), "SEED": str(seed), "OUT": out, "TIER": tier}
        code, text = tlc(g["module"], g.get("cfg", g["module"] + ".cfg"), work, env, g.get("args", []))
        if not os.path.exists(out) or code != 0:
            fail("no scenarios from %s:\n%s" % (g["module"], text[-3000:]))
        files.append(out)
    path = os.path.join(work, "scenarios.ndjson")
    with open(path, "w") as f:
        for p in files:
            with open(p) as g:
                for line in g:
                    f.write(line if line.endswith("\n") else line + "\n")
    return path


def run_laws(prop, tier, scen, work):
    """The property's laws, on the answers the specification itself computes for these airplanes and states."""
    few = os.path.join(work, "laws.ndjson")
    with open(scen) as f, open(few, "w") as g:
        for line in f.readlines()[:LAW_SCENARIOS["thorough" if tier == "thorough" else "quick"]]:
            g.write(line)
    code, out = tlc("Laws", "Laws.cfg", work, {"PROPERTY": prop, "SCENARIOS": few}, ["-workers", "8"])
    if "No error has been found" not in out:
        fail("a law of the specification does not hold:\n" + out[out.find("Error:"):][:3000])
    laws = [int(n) for n in re.findall(r"LAWS\|(\d+)", out)]
    g, d = counts(out)
    return d, g, "Laws: %d laws of the specification evaluated for %d scenarios" % (sum(laws), len(laws))


def drive(scen, trace, work):
    env = dict(os.environ)
    env.setdefault("DRIVER_DEADLINE", "400")
    env["TMPDIR"] = work
    try:
        r = subprocess.run([PY, os.path.join(V, "bin/driver.py"), scen, trace, "8"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=700, env=env, cwd=work)
    except subprocess.TimeoutExpired:
        fail("the driver ran out of time")
    if r.returncode != 0:
        fail("driver:\n" + r.stdout[-3000:])


PART_BYTES, PART_SCENARIOS = 60_000_000, 3000     # what one TLC process is given at a time
EV = re.compile(r'^"EV\|(.*)"$')


def judge(prop, trace, work, tier):
    """Verdicts of TLC on every recorded event."""
    kept = os.path.join(work, "kept.ndjson")
    rows, left = [], 0
    with open(trace) as f, open(kept, "w") as g:
        for line in f:
            d = json.loads(line)
            if "driver_error" in d:
                fail("driver failed on %s:\n%s" % (d["id"], d["driver_error"]))
            if d.get("left_out"):
                left += 1
                continue
            rows.append(d)
            g.write(line)
    verdicts, malformed, states, trans = {}, None, 0, 0
    parts, size = [[]], 0
    with open(kept) as f:
        for d, line in zip(rows, f):
            if parts[-1] and (size + len(line) > PART_BYTES or len(parts[-1]) >= PART_SCENARIOS):
                parts.append([])
                size = 0
            parts[-1].append((d, line))
            size += len(line)
    for part in parts:
        path = os.path.join(work, "part.ndjson")
        with open(path, "w") as g:
            g.writelines(line for _, line in part)
        code, out = tlc("Trace", "Trace.cfg", work, {"PROPERTY": prop, "TRACE": path, "TIER": tier}, ["-workers", "8"])
        g, d = counts(out)
        states, trans = states + d, trans + g
        for line in out.split("\n"):
            m = EV.match(line.strip())
            if m:
                t = m.group(1).replace('\\"', '"').replace("\\\\", "\\").replace("<<", "[").replace(">>", "]")
                v = json.loads(t)
                verdicts[(v[0], v[1])] = v
        if "No error has been found" not in out:
            scs = re.findall(r"^/\\ sc = (\d+)", out, re.M)
            ks = re.findall(r"^/\\ i = (\d+)", out, re.M)
            if "ran out of memory" in out or not scs or not ks:
                fail("TLC on the trace:\n" + re.sub(r'(?m)^"EV.*\n', "", out)[-3000:])
            first = out[out.find("Error:"):][:1500]
            malformed = (part[int(scs[-1]) - 1][0]["id"], int(ks[-1]) + 1, re.sub(r'(?m)^"EV.*\n', "", first))
            break
    if not malformed:
        total = sum(len(r["events"]) for r in rows)
        if total != len(verdicts):
            fail("%d events but %d verdicts" % (total, len(verdicts)))
    return rows, verdicts, malformed, left, (trans, states)


def known_findings(prop):
    found = []
    with open(os.path.join(V, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) kind=(\S+) op=(\S+) clause=\"([^\"]*)\" (.*)", line.strip())
            if m and m.group(1) == prop:
                found.append(m.groups())
    return found


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--count", type=int)
    ap.add_argument("--keep")
    ap.add_argument("--replay")
    ap.add_argument("--no-models", action="store_true")
    a = ap.parse_args()
    prop = a.property
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    r = subprocess.run([os.path.join(V, "bin/build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        fail("build:\n" + r.stdout)
    work = a.keep or tempfile.mkdtemp(prefix="mucheck_")
    os.makedirs(work, exist_ok=True)
    try:
        states, trans, notes = (0, 0, [])
        if a.replay:
            with open(a.replay) as f:
                rec = json.load(f)
            scen = os.path.join(work, "scenarios.ndjson")
            with open(scen, "w") as f:
                f.write(json.dumps(rec["scenario"]) + "\n")
        else:
            if not a.no_models:
                states, trans, notes = run_models(prop, a.tier, work)
            scen = generate(prop, a.tier, seed, work, a.count)
            if prop in LAWS and not a.no_models:
                more, moves, note = run_laws(prop, a.tier, scen, work)
                states, trans, notes = states + more, trans + moves, notes + [note]
        trace = os.path.join(work, "trace.ndjson")
        drive(scen, trace, work)
        rows, verdicts, malformed, left, (g, d) = judge(prop, trace, work, a.tier)
        by_id = {}
        with open(scen) as f:
            for line in f:
                x = json.loads(line)
                by_id[x["id"]] = x
        rec_id = {r["id"]: r for r in rows}
        bad = [v for v in verdicts.values() if v[5]]
        bad.sort(key=lambda v: (len(json.dumps(by_id[v[0]])), v[1]))
        known = known_findings(prop)
        fresh, told = [], set()
        for v in bad:
            kind = by_id[v[0]]["kind"]
            new = []
            for c in v[5]:
                hit = [k for k in known if k[1] == kind and k[2] == v[2] and k[3] == c]
                if hit:
                    told.add(hit[0])
                else:
                    new.append(c)
            if new:
                fresh.append((v, new))
        for k in sorted(told):
            print("KNOWN-FINDING: property=%s %s" % (prop, k[4]))
        evaluated = sum(v[3] for v in verdicts.values())
        skipped = sum(v[4] for v in verdicts.values())
        violations = []
        if malformed:
            violations.append({"id": malformed[0], "event": malformed[1], "clauses": ["malformed answer"],
                               "detail": malformed[2]})
        for v, new in fresh[:20]:
            violations.append({"id": v[0], "event": v[1], "op": v[2], "clauses": new})
        if not a.replay and not violations and left:
            fail("%d scenarios were left out" % left)
        if not a.replay and evaluated == 0 and not violations:
            fail("nothing was evaluated")
        by_op = {}
        for v in verdicts.values():
            o = by_op.setdefault(v[2], [0, 0, 0])
            o[0] += 1
            o[1] += v[3]
            o[2] += v[4]
        wall = time.time() - t0
        if not a.replay:
            os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
            with open(scen) as f:
                sample = [l.strip()[:600] for _, l in zip(range(3), f)]
            ev = {"property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed,
                  "level": "model_checking",
                  "coverage": {"states": states + d, "transitions": trans + g,
                               "traces_validated_against_impl": len(rows), "samples": sample,
                               "events": len(verdicts), "clauses_evaluated": evaluated, "clauses_skipped": skipped,
                               "by_operation": {k: {"events": o[0], "clauses": o[1], "skipped": o[2]}
                                                for k, o in sorted(by_op.items())},
                               "models": notes},
                  "assumptions": PLAN[prop].get("assumptions", []),
                  "violations": len(violations), "wall_s": round(wall, 1)}
            with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
                f.write("\n")
        print("%s %s: %d scenarios, %d events, %d clauses evaluated, %d skipped, %d model states, %.0f s" %
              (prop, a.tier, len(rows), len(verdicts), evaluated, skipped, states, wall))
        for k, o in sorted(by_op.items()):
            print("   %-12s %5d events %6d clauses %5d skipped" % (k, *o))
        if violations:
            os.makedirs(os.path.join(V, "build", "replay"), exist_ok=True)
            for n, x in enumerate(violations):
                if n == 0:
                    path = os.path.join(V, "build", "replay", "%s.json" % prop)
                    with open(path, "w") as f:
                        json.dump({"property": prop, "violation": x, "scenario": by_id[x["id"]],
                                   "recorded": rec_id[x["id"]]["events"][x["event"] - 1]}, f, indent=1)
                    print("VIOLATION property=%s replay=%s" % (prop, path))
                e = rec_id[x["id"]]["events"][x["event"] - 1]
                print("   %s event %d (%s, %s): %s %s" % (x["id"], x["event"], e["op"], e["out"] + " " + e.get("msg", ""),
                                                         "; ".join(x["clauses"]), x.get("detail", "")))
            sys.exit(1)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
