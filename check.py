#!/usr/bin/env python3
"""Runs the check of one property:  check.py <property-id>

Builds the property's harness from /repo's current working tree, searches it with
the seeded generators (VERIF_SEED, VERIF_TIER), shrinks and re-confirms any
failure, writes evidence/<id>.json.  Exit 0: held on everything explored.
Exit 1: violated, with a VIOLATION line.  Exit 2: the check itself failed.
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from harnesses import HARNESSES, BASE_FLAGS, CXX
REPO = os.environ.get("VERIF_REPO", "/repo")   # the registered commands use /repo
T0 = time.time()


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


def sanitizer_env():
    env = dict(os.environ)
    common = "abort_on_error=0:exitcode=99:handle_abort=1:symbolize=0"
    env["ASAN_OPTIONS"] = common + ":detect_leaks=0:hard_rss_limit_mb=3000:max_allocation_size_mb=2000:allocator_may_return_null=0:detect_stack_use_after_return=1:quarantine_size_mb=16"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=99"
    env["LC_ALL"] = "C"
    env["TZ"] = "UTC"
    for k in list(env):
        if k.startswith("CPP_LOG"):
            del env[k]
    return env


class Runner:
    def __init__(self, pid):
        if pid not in HARNESSES:
            die("unknown property " + pid)
        self.pid = pid
        self.h = HARNESSES[pid]
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        tag = "" if REPO == "/repo" else "." + hashlib.sha1(REPO.encode()).hexdigest()[:8]
        self.broken = []
        self.bdir = os.path.join(VERIF, "build", pid + tag)
        shutil.rmtree(self.bdir, ignore_errors=True)
        os.makedirs(self.bdir)
        self.rdir = os.path.join(VERIF, "replays")
        os.makedirs(self.rdir, exist_ok=True)
        self.bin = os.path.join(self.bdir, "h")
        self.env = sanitizer_env()
        self.shards = max(1, min(8, os.cpu_count() or 1))

    # ---- build ----------------------------------------------------------------
    def build(self):
        t = time.time()
        flags = BASE_FLAGS + ["-I" + os.path.join(VERIF, "pbt"), "-I" + os.path.join(VERIF, "harness")]
        flags += [f.replace("@VERIF@", VERIF) for f in self.h.get("flags", [])]
        flags += ["-I" + os.path.join(REPO, "include")]
        srcs = [os.path.join(VERIF, "pbt", "engine.cpp")]
        for s in self.h["srcs"]:
            srcs.append(os.path.join(VERIF, "harness", s))
        gen = self.h.get("gen")
        gens = []
        if gen:
            for part in range(self.h.get("gen_parts", 1)):
                out = os.path.join(self.bdir, "gen%s.cpp" % (part or ""))
                r = run([sys.executable, os.path.join(VERIF, "harness", gen), out, str(self.seed), self.tier, str(part)])
                if r.returncode:
                    die("generator failed:\n" + r.stdout)
                srcs.append(out)
                gens.append(out)
        procs = []
        for s in srcs:
            o = os.path.join(self.bdir, os.path.basename(s) + ".o")
            cmd = [CXX] + flags + (self.h.get("gen_flags", []) if s in gens else []) + ["-MMD", "-MF", o + ".d", "-c", s, "-o", o]
            log = open(o + ".log", "w")
            procs.append((s, o, subprocess.Popen(cmd, stdout=log, stderr=log)))
        objs = []
        for s, o, p in procs:
            p.wait()
            if p.returncode:
                # search with what does compile; a TU listed under "must" uses an operation for payloads
                # that can only be moved, and its failing to compile is judged in main()
                self.broken.append((s, open(o + ".log").read()))
                if s in gens and "gen.cpp" in self.h.get("must", {}):
                    kept = os.path.join(self.rdir, self.pid + "-gen.cpp")
                    open(kept, "w").write(open(s).read())
                    self.not_compiling(kept, self.broken[-1][1], self.h["must"]["gen.cpp"])
                if os.path.basename(s) in self.h.get("must", {}) and s in srcs[:2]:
                    self.not_compiling(s, self.broken[-1][1], self.h["must"][os.path.basename(s)])
                if s in srcs[:2] or s in gens:
                    self.die_broken()
                continue
            objs.append(o)
            deps = open(o + ".d").read()
            if re.search(r"(/usr/include|/usr/local/include)/boost/", deps):
                die("harness pulled in the system's Boost (not permitted here)")
        r = run([CXX] + BASE_FLAGS + objs + ["-o", self.bin] + self.h.get("libs", ["-lfmt"]))
        if r.returncode:
            die("link failed:\n" + r.stdout[:4000])
        self.build_s = time.time() - t

    # ---- probes: use that has to compile (an API form the harness's histories rely on) ------
    def probes(self):
        """A probe is a small source; with -DBASE it must compile for the verdict to mean anything."""
        for name, what in self.h.get("probes", {}).items():
            src = os.path.join(VERIF, "harness", name)
            cmd = [CXX] + BASE_FLAGS + ["-I" + os.path.join(REPO, "include"), "-fsyntax-only", src]
            if run(cmd).returncode and not run(cmd + ["-DBASE"]).returncode:
                self.not_compiling(src, run(cmd).stdout, what)

    def not_compiling(self, src, txt, what):
        """The property itself says that this use compiles (it is about what happens at compile time, or about
        payloads that can only be moved); this tree, which builds, no longer compiles it."""
        print(txt[:1500])
        print("# what fails: " + what + " (does not compile)")
        print("VIOLATION property=%s replay=%s" % (self.pid, src), flush=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration",
                   "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "compile-time evaluation",
                                "samples": [open(src).read()[:4000]]},
                   "assumptions": [], "wall_s": round(time.time() - T0, 2), "violations": 1},
                  open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        sys.exit(1)

    def die_broken(self):
        s, txt = self.broken[0]
        die("harness %s does not compile against the working tree:\n%s" % (s, txt[:6000]))

    def mode(self, *args, timeout=900):
        return run([self.bin] + list(args), env=self.env, timeout=timeout)

    # ---- known findings -------------------------------------------------------
    def known(self):
        keys = {}
        path = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.pid:
                    keys[m.group(2)] = m.group(3)
        return keys

    # ---- search ---------------------------------------------------------------
    def search(self):
        scale = self.h.get("scale", {}).get(self.tier, 1)
        budget = float(self.h.get("budget", {}).get(self.tier, 240 if self.tier == "quick" else 600))
        ws = []
        for k in range(self.shards):
            d = os.path.join(self.bdir, "w%d" % k)
            log = open(d + ".log", "w")
            cmd = [self.bin, "--mode", "run", "--seed", str(self.seed), "--tier", self.tier,
                   "--shard", str(k), "--shards", str(self.shards), "--budget", str(budget),
                   "--scale-num", str(scale),
                   "--out", d + ".out", "--hashes", d + ".hash", "--shm", d + ".shm"]
            ws.append((k, d, subprocess.Popen(cmd, stdout=log, stderr=log, env=self.env)))
        fails = []
        hard = time.time() + budget + 200
        for k, d, p in ws:
            try:
                p.wait(timeout=max(1, hard - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                die("worker %d exceeded its wall-clock limit (inconclusive)" % k)
            if p.returncode != 0:
                r = self.mode("--mode", "status", "--shm", d + ".shm")
                f = r.stdout.rstrip("\n").split("\t")
                if len(f) < 6 or f[4] == "0":
                    die("worker %d ended abnormally outside a case (rc %s)\n%s" %
                        (k, p.returncode, open(d + ".log").read()[-3000:]))
                fails.append((int(f[0]), int(f[2]), f[1], f[3], f[5], d))
        return sorted(fails)

    def collect(self):
        secs, labels, samples, truncated = {}, {}, [], False
        order = []
        for k in range(self.shards):
            p = os.path.join(self.bdir, "w%d.out" % k)
            if not os.path.exists(p):
                continue
            for line in open(p, errors="replace"):
                f = line.rstrip("\n").split("\t")
                if f[0] == "S":
                    if f[1] not in secs:
                        secs[f[1]] = [0, 0, 0]
                        order.append(f[1])
                    for i in range(3):
                        secs[f[1]][i] += int(f[2 + i])
                elif f[0] == "L":
                    labels.setdefault(f[1], {}).setdefault(f[2], 0)
                    labels[f[1]][f[2]] += int(f[3])
                elif f[0] == "X":
                    samples.append("%s:%s" % (f[1], f[2]))
                elif f[0] == "T":
                    truncated = True
        import array
        seen = set()
        for k in range(self.shards):
            p = os.path.join(self.bdir, "w%d.hash" % k)
            if os.path.exists(p):
                a = array.array("Q")
                a.frombytes(open(p, "rb").read())
                seen.update(a)
        return secs, order, labels, samples, truncated, len(seen)

    def confirm(self, path, n=3):
        for _ in range(n):
            r = self.mode("--mode", "replay", "--replay", path, "--quiet", "1")
            if r.returncode != 3:
                return False
        return True

    def report(self, fails):
        for si, idx, name, seed, msg, d in fails[:4]:
            path = os.path.join(self.rdir, "%s-%s.txt" % (self.pid, re.sub(r"\W+", "_", name)))
            if os.path.exists(path):
                os.remove(path)
            r = self.mode("--mode", "shrink", "--section", name, "--case-seed", seed,
                          "--replay", path, "--budget", "60")
            ok = r.returncode == 0 and os.path.exists(path) and self.confirm(path)
            if not ok:
                with open(path, "w") as f:
                    f.write("section %s\nseed %s\n# what fails: %s\n" % (name, seed, msg))
                ok = self.confirm(path)
            if not ok:   # does it need the cases run before it in the same process?
                os.remove(path)
                r = self.mode("--mode", "shrink-sequence", "--section", name, "--seed", str(self.seed),
                              "--last", str(idx), "--shards", str(self.shards), "--replay", path)
                ok = r.returncode == 0 and os.path.exists(path) and self.confirm(path)
            if ok:
                print(open(path).read().rstrip())
                rr = self.mode("--mode", "replay", "--replay", path)
                for line in rr.stdout.splitlines()[:25]:
                    print("  | " + line[:400])
                print("replay with: python3 %s %s --replay %s" % (os.path.join(VERIF, "check.py"), self.pid, path))
                print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
                return True
            print("note: failure in section %s (case %d) did not reproduce: %s" % (name, idx, msg))
        return False

    def evidence(self, violations, extra=None):
        secs, order, labels, samples, truncated, distinct = self.collect()
        rule = ""
        r = self.mode("--mode", "list")
        for line in r.stdout.splitlines():
            if line.startswith("R\t"):
                rule = line[2:]
        cov = {
            "evaluations": sum(v[0] for v in secs.values()),
            "distinct_nontrivial": distinct,
            "rule": rule,
            "samples": samples[:40],
            "sections": {n: {"evaluations": secs[n][0], "discarded": secs[n][1],
                             "nontrivial": secs[n][2], "labels": labels.get(n, {})} for n in order},
            "stopped_by_time_budget": truncated,
            "workers": self.shards,
            "build_s": round(self.build_s, 1),
        }
        if extra:
            cov.update(extra)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": cov,
            "assumptions": self.h.get("assumptions", []) + [
                "g++-13, C++20, libstdc++, AddressSanitizer and UndefinedBehaviorSanitizer on x86-64 Linux",
                "the engine and oracle in /verif/pbt and /verif/harness are correct"],
            "wall_s": round(time.time() - T0, 2),
            "violations": violations,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        return cov

    def main(self):
        self.probes()
        self.build()
        known = self.known()
        bad = False
        r = self.mode("--mode", "list")
        for line in r.stdout.splitlines():
            f = line.split("\t")
            if f[0] == "S" and f[4] != "-":
                pr = self.mode("--mode", "probe", "--key", f[4])
                if pr.returncode == 3:
                    if f[4] in known:
                        print("KNOWN-FINDING: property=%s %s" % (self.pid, known[f[4]]))
                    else:
                        path = os.path.join(self.rdir, "%s-known_%s.txt" % (self.pid, f[4]))
                        open(path, "w").write("section known:%s\nseed 1\n# what fails: %s\n" % (f[4], pr.stdout))
                        if self.confirm(path):
                            print(pr.stdout.rstrip())
                            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
                            bad = True
        fails = self.search()
        if fails and not bad:
            bad = self.report(fails)
            if not bad:
                self.evidence(0)
                die("a failure was seen but did not reproduce; inconclusive")
        if self.broken and not bad:
            must = [b for b in self.broken if os.path.basename(b[0]) in self.h.get("must", {})]
            if not must:
                self.evidence(0)
                self.die_broken()
            src, txt = must[0]
            print(txt[:2000])
            print("# what fails: %s (does not compile)" % self.h["must"][os.path.basename(src)])
            print("VIOLATION property=%s replay=%s" % (self.pid, src), flush=True)
            bad = True
        extra = None
        if not bad and self.tier == "thorough" and self.h.get("fuzz"):
            import fuzz
            res = fuzz.campaign(self)
            extra = {"libfuzzer": res["stats"]}
            bad = res["violation"]
        cov = self.evidence(1 if bad else 0, extra)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs (build %.1fs)%s" %
              (self.pid, self.tier, self.seed, cov["evaluations"], cov["distinct_nontrivial"],
               time.time() - T0, self.build_s, " [time budget reached]" if cov["stopped_by_time_budget"] else ""))
        # keep the tree small
        for f in os.listdir(self.bdir):
            if not (f == "h" and bad):
                p = os.path.join(self.bdir, f)
                if os.path.isfile(p):
                    os.remove(p)
        sys.exit(1 if bad else 0)


if __name__ == "__main__":
    if len(sys.argv) < 2:
        die("usage: check.py <property-id> [--replay FILE]")
    R = Runner(sys.argv[1])
    if len(sys.argv) == 4 and sys.argv[2] == "--replay":
        R.build()
        r = R.mode("--mode", "replay", "--replay", sys.argv[3])
        print(r.stdout)
        sys.exit(1 if r.returncode == 3 else r.returncode)
    R.main()
