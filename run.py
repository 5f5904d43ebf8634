#!/usr/bin/env python3
"""Check one property:  run.py C01 [--tier quick|thorough]

 1. TLC explores spec/<C>MC.tla exhaustively (invariants of the model and of the
    oracle) and writes the plan: the calls/behaviours to replay.
 2. drivers/<c>.py replays the plan against the modepy in /repo and records events.
 3. TLC validates every recorded event against spec/<C>Trace.tla.

Exit 0: every event is allowed.  Exit 1 and a VIOLATION line: some event is not.
Exit 2: the machinery failed.
"""
import argparse, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
TLA = "/opt/veriftools/tla"
VENV = "/opt/venv/bin/python"


def die(msg):
    print(f"ERROR: {msg}", flush=True)
    sys.exit(2)


def tlc(work, module, log, workers=8, timeout=800, xss="64m", heap="6g", extra=()):
    cmd = ["java", "-XX:+UseParallelGC", f"-Xss{xss}", f"-Xmx{heap}",
           "-Dtlc2.overrides.TLCOverrides=VerifOverrides:tlc2.overrides.TLCOverrides",
           "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar:{work}/cls",
           "tlc2.TLC", "-workers", str(workers), "-metadir", f"{work}/meta-{module}",
           "-config", f"{module}.cfg", *extra, f"{module}.tla"]
    with open(log, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=work, stdout=f, stderr=subprocess.STDOUT,
                                timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = -1
    out = open(log, errors="replace").read()
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left", out, re.M)
    stats = tuple(map(int, m[-1])) if m else (0, 0, -1)
    ok = rc == 0 and "Model checking completed. No error has been found." in out
    return ok, rc, stats, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    args = ap.parse_args()
    cid, tier = args.cid, args.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()

    work = f"{HERE}/work/{cid}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    for f in os.listdir(f"{HERE}/spec"):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(f"{HERE}/spec/{f}", work)
    with open(f"{work}/Params.tla", "w") as f:
        f.write("---- MODULE Params ----\n"
                f"Tier == \"{tier}\"\nQuick == {'TRUE' if tier == 'quick' else 'FALSE'}\n"
                f"Seed == {seed % 100000}\n====\n")
    r = subprocess.run(["javac", "-nowarn", "-cp", f"{TLA}/tla2tools.jar", "-d", f"{work}/cls",
                        f"{HERE}/java/VerifOverrides.java"], capture_output=True, text=True)
    if r.returncode:
        die("javac: " + r.stderr)

    # --- run A: the model
    ta = time.time()
    ok, rc, statsA, out = tlc(work, f"{cid}MC", f"{work}/mc.log",
                              timeout=400 if tier == "quick" else 3600)
    if not ok:
        print(out[-4000:])
        die(f"model checking of {cid}MC failed (rc={rc})")
    ta = time.time() - ta
    if not os.path.exists(f"{work}/plan.ndjson"):
        die("no plan written")
    nplan = sum(1 for _ in open(f"{work}/plan.ndjson"))

    # --- replay
    td = time.time()
    env = {k: v for k, v in os.environ.items()
           if k in ("PATH", "HOME", "TMPDIR", "VERIF_SEED", "VERIF_TIER")}
    env.update(PATH="/opt/venv/bin:" + env.get("PATH", "/usr/bin:/bin"), LC_ALL="C.UTF-8",
               PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPYCACHEPREFIX=f"{work}/pyc", VERIF_SEED=str(seed), VERIF_TIER=tier,
               PYTHONPATH=f"/repo:{HERE}/drivers", VERIF_WORK=work)
    with open(f"{work}/driver.log", "w") as f:
        try:
            rc = subprocess.run([VENV, f"{HERE}/drivers/{cid.lower()}.py", f"{work}/plan.ndjson",
                                 f"{work}/trace.ndjson"], cwd=work, env=env, stdout=f,
                                stderr=subprocess.STDOUT,
                                timeout=500 if tier == "quick" else 5000).returncode
        except subprocess.TimeoutExpired:
            rc = -1
    dlog = open(f"{work}/driver.log", errors="replace").read()
    if rc != 0:
        print(dlog[-4000:])
        die(f"driver failed (rc={rc})")
    td = time.time() - td
    events = [json.loads(l) for l in open(f"{work}/trace.ndjson")]
    if not events:
        die("empty trace")

    # --- run B: validation
    tb = time.time()
    ok, rc, statsB, out = tlc(work, f"{cid}Trace", f"{work}/trace.log", heap="12g",
                              timeout=600 if tier == "quick" else 6000)
    tb = time.time() - tb
    malformed = None
    if not ok:
        # TLC stops at an event it cannot evaluate: one whose values are not of the kind
        # that the specification speaks about
        m = re.search(r"The behavior up to this point is:.*?ji = (\d+)", out, re.S)
        if rc > 0 and m and not re.search(r"OutOfMemory|StackOverflow|heap space|metadir", out):
            malformed = int(m.group(1))
            print(out[-1500:])
        else:
            print(out[-6000:])
            die(f"trace validation of {cid} did not complete (rc={rc})")

    # verdict lines: <<"FAIL", index, "id", <<"clause", ...>>>>   (may be wrapped)
    flat = re.sub(r"\s+", " ", out)
    fails = {}
    starts = [m.start() for m in re.finditer(r'<< ?"FAIL", \d+,', flat)]
    for st in starts:
        # the balanced tuple that starts here
        depth, j, instr = 0, st, False
        while j < len(flat):
            if flat[j] == '"':
                instr = not instr
            elif not instr and flat[j:j+2] == "<<":
                depth, j = depth + 1, j + 1
            elif not instr and flat[j:j+2] == ">>":
                depth, j = depth - 1, j + 1
                if depth == 0:
                    break
            j += 1
        m = re.match(r'<< ?"FAIL", (\d+), "([^"]*)", <<(.*)>> ?>>$', flat[st:j+1].strip())
        if not m:
            if malformed:
                continue
            die("cannot parse verdict " + flat[st:st+300])
        fails[int(m.group(1))] = (m.group(2), re.findall(r'"([^"]+)"', m.group(3)) or ["?"])
    if flat.count('"FAIL"') != len(fails) and not malformed:
        die(f"{flat.count(chr(34) + 'FAIL' + chr(34))} verdicts, {len(fails)} parsed")
    done = re.findall(r'<< ?"DONE", (\d+) ?>>', flat)
    ndone = int(done[-1]) if done else statsB[1] // 2
    if malformed:
        fails.setdefault(malformed, (events[malformed - 1].get("id", "?"), ["malformed"]))
    elif ndone != len(events):
        die(f"only {ndone} of {len(events)} events were judged")

    known = []
    kf = f"{HERE}/known-findings.jsonl"
    if os.path.exists(kf):
        known = [json.loads(l) for l in open(kf) if l.strip()]
    known = {(k["event"], c): k for k in known
             if k.get("status") == "known" and k["property"] == cid for c in k["clauses"]}

    new, seen = [], {}
    for i, (eid, clauses) in sorted(fails.items()):
        rest = [c for c in clauses if (eid, c) not in known]
        for c in clauses:
            if (eid, c) in known:
                seen[known[(eid, c)]["what"]] = known[(eid, c)]
        if rest:
            new.append((i, eid, rest))
    for what in seen:
        print(f"KNOWN-FINDING: property={cid} {what}")
    for n, (i, eid, clauses) in enumerate(new):
        path = f"{work}/violation-{n}.json"
        if n < 20:
            with open(path, "w") as f:
                json.dump({"property": cid, "event": events[i - 1], "clauses": clauses}, f, indent=1)
            print(f"VIOLATION property={cid} replay={path} event={eid} clauses={','.join(clauses)}")
    if len(new) > 20:
        print(f"... and {len(new) - 20} more violations")

    def short(e):
        s = {}
        for k, v in e.items():
            t = json.dumps(v)
            s[k] = v if len(t) < 120 else t[:100] + "..."
        return s
    kinds = {}
    for e in events:
        kinds[e.get("kind", "?")] = kinds.get(e.get("kind", "?"), 0) + 1
    step = max(1, len(events) // 4)
    ev = {"property": cid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": statsA[1] + statsB[1], "transitions": statsA[0] + statsB[0],
              "traces_validated_against_impl": len(events),
              "model_states": statsA[1], "validation_states": statsB[1],
              "planned_calls": nplan, "events_by_kind": kinds,
              "distinct_events": len({json.dumps({k: v for k, v in e.items() if k != "id"},
                                                 sort_keys=True) for e in events}),
              "samples": [short(e) for e in events[::step][:4]],
              "seconds": {"model": round(ta, 1), "replay": round(td, 1), "validation": round(tb, 1)}},
          "assumptions": ["java/VerifOverrides.java computes what spec/Big.tla defines (checked by "
                          "spec/BigTest.tla in setup_cmd)", "TLC", "the drivers record faithfully"],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    with open(f"{HERE}/evidence/{cid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{cid} {tier}: model {statsA[1]} states; {nplan} planned calls; {len(events)} events, "
          f"{len(new)} violating, {len(seen)} known; {ta:.0f}+{td:.0f}+{tb:.0f} s")
    sys.exit(1 if new else 0)


if __name__ == "__main__":
    main()
