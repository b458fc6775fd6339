#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds the harness against /repo's working tree, starts a throw-away Postgres, runs the
property's engines in parallel worker processes, and turns what the monitors observed into a
verdict and an evidence file.  Exit 0: held on everything explored (or nothing conclusive
was wrong); exit 1 + VIOLATION line: a monitor observed a violation of this property.
"""
import glob, json, os, shutil, signal, subprocess, sys, tempfile, time, collections

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
REPO = os.environ.get("VERIF_REPO", "/repo")
from plan import PLAN, LEVEL, RULE, ASSUME  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def go_env():
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE).stdout
    env = dict(x.split("=", 1) for x in out.decode(errors="replace").split("\0") if "=" in x)
    return env


class Postgres:
    def __init__(self, scratch):
        self.dir = os.path.join(scratch, "pg")
        self.bin = sorted(glob.glob("/usr/lib/postgresql/*/bin"))[-1]
        os.mkdir(self.dir)
        os.chmod(scratch, 0o755)
        self.pre = []
        if os.getuid() == 0:
            shutil.chown(self.dir, "postgres", "postgres")
            self.pre = ["setpriv", "--reuid=postgres", "--regid=postgres", "--init-groups"]

    def start(self):
        data = self.dir + "/data"
        r = sh(self.pre + [self.bin + "/initdb", "-D", data, "-A", "trust", "-U", "postgres", "-E", "UTF8", "--no-sync"], cwd=self.dir)
        if r.returncode:
            raise RuntimeError("initdb: " + r.stdout)
        opts = f"-c listen_addresses= -c unix_socket_directories={self.dir} -c fsync=off -c synchronous_commit=off -c full_page_writes=off -c max_connections=600 -c shared_buffers=256MB -c log_min_messages=fatal"
        r = sh(self.pre + [self.bin + "/pg_ctl", "-D", data, "-w", "-t", "120", "-o", opts, "-l", self.dir + "/log", "start"], cwd=self.dir)
        if r.returncode:
            raise RuntimeError("pg_ctl: " + r.stdout)

    def createdb(self, names):
        q = "".join(f"create database {n};\n" for n in names)
        r = sh(["psql", "-h", self.dir, "-U", "postgres", "-q", "-v", "ON_ERROR_STOP=1", "-f", "-"], input=q)
        if r.returncode:
            raise RuntimeError("createdb: " + r.stdout)

    def uri(self, name):
        return f"user=postgres dbname={name} sslmode=disable host={self.dir}"

    def stop(self):
        sh(self.pre + [self.bin + "/pg_ctl", "-D", self.dir + "/data", "-m", "immediate", "stop"], cwd=self.dir)


def build(scratch, env, race):
    """Optional harness files reach into packages; should one no longer compile against the tree
    (an internal name changed), the engines in it are left out and the rest still decides."""
    ov = os.path.join(scratch, "overlay.json")
    out = os.path.join(scratch, "race.bin" if race else "verif.bin")
    cmd = ["go", "test", "-vet=off", "-c", "-overlay", ov, "-o", out]
    e = dict(env)
    if race:
        cmd.append("-race")
        e["CGO_ENABLED"] = "1"
    skip, err = set(), ""
    optional = {os.path.basename(f) for f in glob.glob(VERIF + "/harness/opt*.go")}
    for attempt in range(5):
        with open(ov, "w") as f:
            f.write(subprocess.run([sys.executable, VERIF + "/tools/overlay.py"], env=dict(os.environ, VERIF_SKIP=",".join(skip)), stdout=subprocess.PIPE, check=True).stdout.decode())
        r = subprocess.run(cmd + ["./zz_verif"], cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return out, sorted(skip)
        err = r.stdout
        bad = {f for f in optional - skip if f in err or f[:-3] + "_test.go" in err}
        if "verif_export" in err or any(f.startswith("optx_") for f in bad):
            bad |= {f for f in optional if f.startswith("optx_")}
        if attempt >= 2 or not bad:
            bad = optional
        if bad <= skip:
            break
        skip |= bad
    raise RuntimeError("build failed:\n" + err[-6000:])


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    stages = PLAN[prop][tier]
    evdir = os.path.join(VERIF, "evidence")
    repdir = os.path.join(evdir, "replays", prop)
    shutil.rmtree(repdir, ignore_errors=True)
    os.makedirs(repdir, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="verif-", dir="/tmp")
    pg, procs = None, []

    def bye(*_):
        raise SystemExit(3)
    signal.signal(signal.SIGTERM, bye)
    try:
        env = go_env()
        pg = Postgres(scratch)
        pg.start()
        bins = {}
        tot = collections.Counter()
        sigs, samples, viols, other, incon, findings = set(), [], [], [], [], {}
        scen, errors, engines_run, skipped = 0, [], [], []
        for st in stages:
            race = bool(st.get("race"))
            if race not in bins:
                bins[race], skipped = build(scratch, env, race)
            workers = st.get("workers", 20)
            names = [f"s{len(engines_run)}w{i}" for i in range(workers)]
            pg.createdb(names)
            engines_run.append(st["engine"])
            procs = []
            cap = st.get("cap", 60)
            for i in range(workers):
                e = dict(env)
                tmp = os.path.join(scratch, "tmp")
                os.makedirs(tmp, exist_ok=True)
                out = os.path.join(scratch, f"{names[i]}.json")
                e.update({"VERIF_DB": pg.uri(names[i]), "VERIF_ENGINE": st["engine"], "VERIF_BUDGET_S": str(cap), "VERIF_MAX": str(st["n"]),
                          "VERIF_MIN": "1", "VERIF_WORKER": str(i), "VERIF_WORKERS": str(workers), "VERIF_PROP": prop, "VERIF_SEED": str(seed),
                          "VERIF_OUTDIR": repdir, "VERIF_OUT": out, "SYNCV3_DEBUG": "1", "TMPDIR": tmp, "GOTRACEBACK": "all",
                          "GORACE": "halt_on_error=0 exitcode=0 history_size=3"})
                if race:
                    e["GOMAXPROCS"] = "4"
                log = open(os.path.join(scratch, names[i] + ".log"), "wb")
                procs.append((subprocess.Popen([bins[race], "-test.run", "TestVerif$", "-test.timeout", "0"], env=e, cwd=scratch, stdout=log, stderr=subprocess.STDOUT,
                                               start_new_session=True), out, names[i]))
            deadline = time.time() + cap + st.get("grace", 150)
            while any(p.poll() is None for p, _, _ in procs) and time.time() < deadline:
                time.sleep(0.1)
            for p, out, name in procs:
                if p.poll() is None:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    incon.append(f"worker {name} was stopped after its time ran out")
                    continue
                try:
                    d = json.load(open(out))
                except Exception:
                    t = open(os.path.join(scratch, name + ".log"), errors="replace").read()
                    errors.append(f"worker {name} died: " + t[-3000:])
                    if st.get("crash_is_violation") and ("panic:" in t or "fatal error:" in t):
                        rp = os.path.join(repdir, name + "-crash.log")
                        open(rp, "w").write(t[-200000:])
                        viols.append({"kind": "the code under test crashed", "detail": t[-1500:], "replay": rp, "profile": st["engine"], "seed": seed})
                    continue
                scen += d["scenarios"]
                tot.update(d["counts"] or {})
                sigs |= set(d["sigs"] or [])
                samples += d["samples"] or []
                viols += d["violations"] or []
                other += d["other"] or []
                incon += d["inconclusive"] or []
                for f in d.get("findings") or []:
                    findings[f["id"]] = f
            procs = []
            if viols:
                break
        wall = time.time() - t0
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"),
            "coverage": {
                "evaluations": scen, "distinct_nontrivial": len(sigs),
                "rule": RULE.get(prop, RULE[""]), "samples": samples[:6],
                "engines": engines_run, "observed": dict(sorted(tot.items())),
                "inconclusive": len(incon), "inconclusive_samples": incon[:5],
                "other_properties_alarms": [f"{o['kind']} ({','.join(o['props'])}) {o['profile']} seed {o['seed']}" for o in other[:10]],
                "skipped_engine_files": skipped, "worker_errors": [x[-300:] for x in errors[:3]],
                "known_findings_reproduced": sorted(findings),
            },
            "assumptions": ASSUME, "wall_s": round(wall, 1), "violations": len(viols),
        }
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        known = {}
        for l in open(os.path.join(VERIF, "known_findings.jsonl")):
            if l.strip():
                k = json.loads(l)
                if k.get("status") == "open" and k["property"] == prop:
                    known[k["id"]] = k
        for fid, k in known.items():
            how = "reproduced" if fid in findings else "recorded; its history is kept out of the workload"
            print(f"KNOWN-FINDING: property={prop} {k['what']} [{fid}: {how}]")
        print(f"{prop} {tier}: {scen} executions, {len(sigs)} distinct states, {len(incon)} inconclusive, {len(viols)} violations, {wall:.0f}s")
        if viols:
            v = viols[0]
            for x in viols[:5]:
                print(f"  {x['kind']} [{x['profile']} seed {x['seed']}]: {x['detail'][:1500]}")
            print(f"VIOLATION property={prop} replay={v['replay']}")
            return 1
        if scen == 0:
            print("no execution finished: " + (errors[0] if errors else "?"), file=sys.stderr)
            return 2
        return 0
    finally:
        for p, _, _ in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        if pg:
            pg.stop()
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
