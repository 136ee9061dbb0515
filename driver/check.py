#!/usr/bin/env python3
"""Decide one property by solver-based checking of the compiled code of /repo.

usage: check.py ID [--tier quick|thorough] [--only HARNESS_SUBSTRING] [--keep]

Exit 0: every obligation of every entry point was discharged by a solver (or by the term rewriter) within the stated
bounds.  Exit 1 + "VIOLATION property=ID replay=PATH": a solver model was replayed natively and fails.
Any other exit code: the check could not decide.
"""
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "driver"))
import plan  # noqa: E402

T = "1.99.1-x86_64-unknown-linux-gnu"
HOME = os.environ.get("RUSTUP_HOME", "/root/.rustup")
TARGET = "x86_64-unknown-linux-gnu"


def tools_dir():
    for t in (T, "stable-x86_64-unknown-linux-gnu"):
        d = f"{HOME}/toolchains/{t}/lib/rustlib/{TARGET}/bin"
        if os.path.exists(d + "/llvm-link"):
            return d
    raise SystemExit("llvm-tools not found")


CFGS = {
    "b64": "",
    "s64": "--cfg ibig_verif_small",
    "b32": '--cfg force_bits="32"',
    "s32": '--cfg ibig_verif_small --cfg force_bits="32"',
    "b16": '--cfg force_bits="16"',
    "s16": '--cfg ibig_verif_small --cfg force_bits="16"',
    "b8": '--cfg force_bits="8"',
    "s8": '--cfg ibig_verif_small --cfg force_bits="8"',
}
CFG_TEXT = {
    "b64": "native 64-bit words, thresholds as shipped",
    "b32": "32-bit words (force_bits), thresholds as shipped",
    "b16": "16-bit words (force_bits), thresholds as shipped",
    "s64": "native 64-bit words, lowered algorithm thresholds (ibig_verif_small)",
    "s32": "32-bit words (force_bits), lowered algorithm thresholds",
    "s16": "16-bit words (force_bits), lowered algorithm thresholds",
    "b8": "8-bit words (verification-only configuration), thresholds as shipped",
    "s8": "8-bit words (verification-only configuration), lowered algorithm thresholds",
}


# no engine runs beyond these many seconds after the start of the check
DEADLINE = {"quick": 840, "thorough": 14400}


class Fail(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    if p.returncode != 0:
        raise Fail(f"{' '.join(cmd)[:200]}: exit {p.returncode}\n{p.stderr[-3000:]}")
    return p.stdout


class Check:
    def __init__(self, pid, tier, only=None):
        self.pid, self.tier, self.only = pid, tier, only
        self.b = os.path.join(V, "build", pid)
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.results = []
        self.lock = threading.Lock()
        self.ll = {}
        self.native = {}
        self.stop = False
        self.procs = set()

    def log(self, *a):
        print(f"[{self.pid} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    # ------------------------------------------------------------------ builds
    def build_engine(self):
        d = os.path.join(self.b, "engine")
        sh(["cargo", "build", "--release", "--offline", "-q"], env={"CARGO_TARGET_DIR": d, "RUSTFLAGS": "-Awarnings", "RUSTUP_TOOLCHAIN": T},
           cwd=os.path.join(V, "engine"))
        return os.path.join(d, "release", "vsym")

    def build_std(self):
        d = os.path.join(self.b, "std")
        shutil.rmtree(d, ignore_errors=True)
        out = []
        for c in ("core", "alloc"):
            x = os.path.join(d, c)
            os.makedirs(x)
            lib = glob.glob(f"{HOME}/toolchains/{T}/lib/rustlib/{TARGET}/lib/lib{c}-*.rlib")[0]
            sh(["ar", "x", lib], cwd=x)
            o = sorted(glob.glob(x + "/*.o"))[0]
            bc = os.path.join(d, c + ".bc")
            sh([tools_dir() + "/llvm-objcopy", f"--dump-section=.llvmbc={bc}", o])
            out.append(bc)
            shutil.rmtree(x)
        return out

    def build_bc(self, cfg):
        d = os.path.join(self.b, cfg)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        env = {
            "RUSTUP_TOOLCHAIN": T,
            "RUSTC_BOOTSTRAP": "1",
            "CARGO_TARGET_DIR": d + "/t",
            "RUSTFLAGS": "-Awarnings --emit=llvm-bc,link -C no-vectorize-loops -C no-vectorize-slp -Zshare-generics=n --cfg ibig_verif "
            + CFGS[cfg],
        }
        sh(["cargo", "build", "--offline", "-q", "--lib"], env=env, cwd=os.path.join(V, "harness"))
        deps = d + "/t/debug/deps"
        bcs = []
        for c in ("vharness", "ibig", "num_traits", "rand", "rand_core", "serde", "serde_core"):
            g = glob.glob(f"{deps}/{c}-*.bc")
            if len(g) != 1:
                raise Fail(f"expected one bitcode file for {c}, found {g}")
            bcs += g
        return bcs

    def link(self, cfg, bcs, std, entries):
        B = tools_dir()
        d = os.path.join(self.b, cfg)
        sh([B + "/llvm-link"] + bcs + std + ["-o", d + "/all.bc"])
        sh([B + "/opt",
            "-passes=internalize,globaldce,function(sroa,instsimplify,simplifycfg),always-inline,function(sroa,instsimplify,simplifycfg),globaldce",
            "--strip-debug", "-internalize-public-api-list=" + ",".join(entries), d + "/all.bc", "-o", d + "/opt.bc"])
        sh([B + "/llvm-dis", d + "/opt.bc", "-o", d + "/opt.ll"])
        os.remove(d + "/all.bc")
        return d + "/opt.ll"

    def build_native(self, cfg):
        d = os.path.join(self.b, "native-" + cfg)
        shutil.rmtree(d, ignore_errors=True)
        env = {"RUSTUP_TOOLCHAIN": T, "CARGO_TARGET_DIR": d, "RUSTFLAGS": "-Awarnings --cfg ibig_verif " + CFGS[cfg]}
        sh(["cargo", "build", "--offline", "-q", "--profile", "native", "--features", "native", "--bin", "replay"], env=env,
           cwd=os.path.join(V, "harness"))
        return d + "/native/replay"

    def replay(self, cfg, harness, values, timeout=60):
        exe = self.native[cfg]
        try:
            p = subprocess.run([exe, harness, ",".join(values)], capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return {"result": "violation", "why": f"no result within {timeout} s", "observed": []}
        line = p.stdout.strip().splitlines()[-1] if p.stdout.strip() else ""
        try:
            return json.loads(line)
        except ValueError:
            return {"result": "violation", "why": f"process ended with {p.returncode}: {p.stderr[-300:]}", "observed": []}

    # ------------------------------------------------------------------ symbolic execution
    def run_engine(self, cmd, limit):
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
        with self.lock:
            self.procs.add(p)
        try:
            out, err = p.communicate(timeout=limit)
            return json.loads(out.strip().splitlines()[-1])
        except subprocess.TimeoutExpired:
            return {"status": "error", "message": "engine did not stop in time"}
        except Exception as e:  # engine crash
            if self.stop:
                return {"status": "skipped", "message": "stopped: a violation was confirmed"}
            return {"status": "error", "message": f"engine failed: {e}: {err[-500:]}"}
        finally:
            self.kill(p)
            with self.lock:
                self.procs.discard(p)

    @staticmethod
    def kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.poll()

    def early_stop(self, r):
        """once a violation is confirmed natively (and is not a listed finding) nothing more needs to run"""
        it = r["item"]
        for f in r.get("findings", []):
            rec = {"harness": it["h"], "values": f["values"]}
            if self.replay(it["cfg"], it["h"], f["values"])["result"] == "violation" and not self.is_known(self.known(), rec):
                self.stop = True
                with self.lock:
                    ps = list(self.procs)
                for p in ps:
                    self.kill(p)
                return

    def run_item(self, it):
        cmd = [self.engine, "--ll", self.ll[it["cfg"]], "--entry", it["h"], "--timeout", str(it.get("timeout", 200)),
               "--jobs", str(it.get("jobs", 1)), "--selftest", str(it.get("selftest", 4)), "--seed", str(self.seed)]
        for k in ("oblig-ms", "quick-ms", "max-steps", "max-paths"):
            if k in it:
                cmd += ["--" + k, str(it[k])]
        t = time.time()
        left = DEADLINE[self.tier] - (t - self.t0)
        if self.stop or left < 1:
            r = {"status": "skipped", "message": "a violation was confirmed before" if self.stop else "no time left"}
        else:
            r = self.run_engine(cmd, min(it.get("timeout", 200) * 1.5 + 60, left))
        r["item"] = it
        r["wall"] = time.time() - t
        missing = [k for k, v in r.get("reach", {}).items() if not v]
        if r["status"] == "holds" and (missing or not r.get("reach")) and not it.get("noreach"):
            r["status"] = "error"
            r["message"] = f"vacuous: reach witness missing {missing}"
        with self.lock:
            self.results.append(r)
        msg = r.get("message", "")[:160]
        und = "; ".join(r.get("undecided", []))[:160]
        self.log(f"{it['cfg']} {it['h']}: {r['status']} paths={r.get('paths')} obligations={r.get('obligations')} "
                 f"queries={r.get('queries')} {r['wall']:.1f}s {msg} {und}")
        if r["status"] == "violation":
            self.early_stop(r)
        return r

    def main(self):
        P = plan.PROPS[self.pid]
        items = [dict(i) for i in P["items"] if self.tier == "thorough" or not i.get("thorough")]
        if self.only:
            items = [i for i in items if re.search(self.only, i["cfg"] + ":" + i["h"])]
        cfgs = sorted({i["cfg"] for i in items})
        os.makedirs(self.b, exist_ok=True)
        head0 = self.repo_state()
        ex = cf.ThreadPoolExecutor(8)
        f_eng = ex.submit(self.build_engine)
        f_std = ex.submit(self.build_std)
        f_bc = {c: ex.submit(self.build_bc, c) for c in cfgs}
        f_nat = {c: ex.submit(self.build_native, c) for c in cfgs}
        self.engine = f_eng.result()
        std = f_std.result()

        def prep(c):
            return self.link(c, f_bc[c].result(), std, sorted({i["h"] for i in items if i["cfg"] == c}))

        with cf.ThreadPoolExecutor(8) as ex2:
            fs = {c: ex2.submit(prep, c) for c in cfgs}
            self.ll = {c: f.result() for c, f in fs.items()}
        self.native = {c: f.result() for c, f in f_nat.items()}
        self.log(f"built engine, IR and native replay for {', '.join(cfgs)}")
        items.sort(key=lambda i: -i.get("cost", 1))
        with cf.ThreadPoolExecutor(plan.WORKERS) as ex3:
            list(ex3.map(self.run_item, items))
        rc = self.conclude(P, items)
        if self.repo_state() != head0:
            self.log("warning: /repo changed while the check ran")
        return rc

    def repo_state(self):
        try:
            return sh(["git", "-C", "/repo", "status", "--porcelain"])
        except Exception:
            return ""

    # ------------------------------------------------------------------ verdict
    def conclude(self, P, items):
        known = self.known()
        violations, kf, problems, traces, trace_bad = [], [], [], 0, []
        for r in self.results:
            it = r["item"]
            for tr in r.get("traces", []):
                n = self.replay(it["cfg"], it["h"], tr["values"])
                traces += 1
                exp = "ok"
                if tr["assume"]:
                    exp = "assume"
                elif tr["bad"]:
                    exp = "violation"
                elif tr["panics"]:
                    exp = "panic_allowed"
                if tr["error"]:
                    problems.append(f"{it['cfg']} {it['h']}: concrete execution stopped: {tr['error'][:200]}")
                    continue
                if exp == "violation" and n["result"] == "violation":
                    # a concrete failing input is a counterexample in its own right
                    r.setdefault("findings", []).append({"what": tr["bad"][0], "values": tr["values"]})
                    r["status"] = "violation"
                    continue
                same = [str(x) for x in n.get("observed", [])] == tr["observed"] if exp == n["result"] == "ok" else exp == n["result"]
                if not same:
                    trace_bad.append((it["cfg"], it["h"], tr["values"], exp, n["result"], n.get("why")))
            if r["status"] == "violation":
                conf = 0
                for f in r["findings"]:
                    n = self.replay(it["cfg"], it["h"], f["values"])
                    rec = {"property": self.pid, "cfg": it["cfg"], "harness": it["h"], "what": f["what"], "values": f["values"],
                           "native": n.get("why") or n["result"]}
                    if n["result"] == "violation":
                        conf += 1
                        (kf if self.is_known(known, rec) else violations).append(rec)
                    elif f["what"].startswith("memory:") or f["what"].startswith("unsafe precondition"):
                        # undefined behaviour need not show natively: confirm by concrete re-execution of the IR
                        c = sh([self.engine, "--ll", self.ll[it["cfg"]], "--entry", it["h"], "--concrete", ",".join(f["values"])])
                        c = json.loads(c.strip().splitlines()[-1])
                        if c["bad"]:
                            conf += 1
                            rec["native"] = "undefined behaviour reached on the compiled IR: " + c["bad"][0][:200]
                            (kf if self.is_known(known, rec) else violations).append(rec)
                if conf == 0:
                    f = r["findings"][0]
                    problems.append(f"{it['cfg']} {it['h']}: solver model does not fail natively ({f['what'][:200]}; values {f['values'][:12]})")
            elif r["status"] == "skipped" and self.stop:
                continue
            elif r["status"] != "holds":
                problems.append(f"{it['cfg']} {it['h']}: {r['status']}: {r.get('message','')[:200]} {'; '.join(r.get('undecided', []))[:300]}")
        for t in trace_bad:
            problems.append(f"executor and native code disagree: {t}")
        path = None
        if violations:
            os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
            path = os.path.join(V, "evidence", f"{self.pid}.replay.json")
            with open(path, "w") as f:
                json.dump({"violations": violations[:20],
                           "how": "build /verif/harness with --profile native --features native --bin replay and RUSTFLAGS "
                                  "'--cfg ibig_verif' plus the configuration flags, then: replay HARNESS v1,v2,...",
                           "config_flags": CFGS}, f, indent=1)
        self.evidence(P, items, violations, kf, problems, traces, trace_bad)
        for k in kf:
            print(f"KNOWN-FINDING: property={self.pid} {k['harness']} {k['what']} values={','.join(k['values'][:12])}")
        for p in problems:
            self.log("UNDECIDED/ERROR:", p)
        if violations:
            for v in violations[:5]:
                self.log(f"violation: {v['cfg']} {v['harness']} {v['what'][:300]} native: {v['native'][:200]} values {v['values'][:16]}")
            print(f"VIOLATION property={self.pid} replay={path}", flush=True)
            return 1
        if problems:
            return 3
        self.log("every obligation discharged")
        return 0

    def known(self):
        p = os.path.join(V, "known-findings.jsonl")
        out = []
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith("{"):
                    d = json.loads(l)
                    if d.get("property") == self.pid:
                        out.append(d)
        return out

    @staticmethod
    def is_known(known, rec):
        return any(k.get("harness") == rec["harness"] and k.get("values") == rec["values"] for k in known)

    def evidence(self, P, items, violations, kf, problems, traces, trace_bad):
        R = self.results
        s = lambda k: sum(r.get(k, 0) or 0 for r in R)
        names = sorted({f for r in R for f in r.get("functions", [])})
        try:
            names = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        except OSError:
            pass
        names = sorted({re.sub(r"\[[0-9a-f]{8,}\]", "", n) for n in names})
        own = [n for n in names if "ibig::" in n and not n.startswith("vharness")]
        by = {}
        for r in R:
            for k, v in (r.get("by") or {}).items():
                by[k] = by.get(k, 0) + v
        samples = [{"entry": r["item"]["h"], "config": r["item"]["cfg"], "bound": r["item"].get("bound", ""), "status": r["status"],
                    "paths": r.get("paths"), "obligations": r.get("obligations"), "symbol_bits": r.get("symbol_bits"),
                    "example_values": (r.get("traces") or [{}])[0].get("values", [])[:8]} for r in R[:60]]
        cov = {
            "states": s("paths"),
            "transitions": s("steps"),
            "traces_validated_against_impl": traces - len(trace_bad),
            "samples": samples,
            "entry_points": len(R),
            "obligations": s("obligations"),
            "obligations_by_rewriting": s("simplified"),
            "obligations_by_solver": s("discharged"),
            "solver_queries": s("queries"),
            "solver_unsat": s("unsat"),
            "solver_sat": s("sat"),
            "solver_unknown": s("unknown"),
            "solver_seconds": round(s("solver_s"), 3),
            "queries_by_backend": by,
            "symbolic_input_bits": s("symbol_bits"),
            "forks": s("forks"),
            "merges": s("merges"),
            "division_lemmas_proved": s("division_lemmas"),
            "permitted_panics_reached": s("expected_panics"),
            "reach_witnesses": sum(1 for r in R for v in r.get("reach", {}).values() if v),
            "functions_encoded": own,
            "functions_encoded_std": len(names) - len(own),
            "configurations": {c: CFG_TEXT[c] for c in sorted({i["cfg"] for i in items})},
            "bounds": P["bounds"],
            "outside_bounds": P.get("outside", ""),
            "undecided": problems[:20],
            "known_findings_seen": kf[:20],
            "explanation": "states = complete symbolic paths; transitions = LLVM IR instructions executed symbolically; every entry "
                           "point ranges over all values of its symbolic inputs",
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": P.get("level", "model_checking"), "coverage": cov,
              "assumptions": plan.ASSUMPTIONS + P.get("assumptions", []), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(violations)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--only" in a:
        only = a[a.index("--only") + 1]
    c = Check(pid, tier, only)
    try:
        rc = c.main()
    except Fail as e:
        print(f"[{pid}] build failed: {e}", flush=True)
        rc = 4
    finally:
        if "--keep" not in a:
            shutil.rmtree(c.b, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
