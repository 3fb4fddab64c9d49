#!/usr/bin/env python3
"""Driver:  check.py <ID> [--tier quick|thorough] [--replay FILE] [--only SECTION]

Builds the harness of a property from /repo's current working tree, runs the exhaustive
exploration, writes evidence/<ID>.json and reports.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the check itself failed.
"""
import sys, os, json, time, subprocess, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "lib"))
from config import PROPS

ISA = ["-march=x86-64-v3", "-maes", "-mpclmul", "-mrdseed"]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def tree_hash():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(os.path.join(REPO, "emp-tool")):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(p.encode()); h.update(open(p, "rb").read())
    for d in ("harness", "lib"):
        for f in sorted(os.listdir(os.path.join(VERIF, d))):
            p = os.path.join(VERIF, d, f)
            if os.path.isfile(p) and not p.endswith(".pyc"):
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h

def build(pid, i, b):
    """compile one configuration; returns the path of the executable"""
    flags = b.get("opt", ["-O1"]) + ["-g1", "-std=" + b.get("std", "c++17"), "-pthread", "-w", "-I" + REPO, "-I" + os.path.join(VERIF, "lib"),
             "-DREPO_DIR=\"%s\"" % REPO] + b.get("isa", ISA)
    if b.get("asan"): flags += ASAN
    flags += b.get("flags", [])
    h = tree_hash(); h.update(repr((flags, b)).encode())
    tag = h.hexdigest()[:16]
    d = os.path.join(BUILD, "%s-%d-%s" % (pid, i, tag))
    exe = os.path.join(d, "run")
    if os.path.exists(exe): return exe
    os.makedirs(BUILD, exist_ok=True)
    for old in os.listdir(BUILD):
        if old.startswith("%s-%d-" % (pid, i)): shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    jobs = []
    def job(src, extra=[], fl=None):
        o = os.path.join(d, os.path.basename(src).replace(".", "_") + ".o")
        jobs.append((["g++", "-c", src, "-o", o] + (flags if fl is None else fl) + extra, o))
    job(os.path.join(VERIF, "harness", b["src"]))
    for e in b.get("extra", []):
        src, fl = e if isinstance(e, tuple) else (e, [])
        base = ["-O2", "-g1", "-std=c++17", "-pthread", "-w", "-I" + os.path.join(VERIF, "lib")]
        fl = [x.replace("/repo", REPO) if x.startswith("-I") else x for x in fl]
        job(os.path.join(VERIF, "harness" if os.path.exists(os.path.join(VERIF, "harness", src)) else "lib", src), fl=base + fl)
    if b.get("emptool", True):
        # every translation unit of the library, whatever it is called today
        libs = []
        for dd, _, fs in os.walk(os.path.join(REPO, "emp-tool")):
            for f in sorted(fs):
                if f.endswith(".cpp") and (b.get("float") or not f.startswith("float32")): libs.append(os.path.join(dd, f))
        libflags = flags if not b.get("float") or b.get("floatsan") else [x for x in flags if not x.startswith("-fsanitize=") and not x.startswith("-fno-sanitize")]
        for l in libs: job(l, fl=libflags if "float32" in l else flags)
        # the aes-128 circuit file as an array, as the build generates it
        cf = os.path.join(REPO, "emp-tool/circuits/files/bristol_fashion/aes_128.txt")
        if b.get("circ", False) and os.path.exists(cf):
            sym = "emp_tool_circuits_files_bristol_fashion_aes_128_txt"
            data = open(cf, "rb").read()
            with open(os.path.join(d, "aesarr.S"), "w") as f:
                f.write('.section .data\n.globl %s\n.globl %s_len\n.balign 16\n%s:\n.incbin "%s"\n.byte 0\n.balign 4\n%s_len:\n.long %d\n.section .note.GNU-stack,"",@progbits\n' % (sym, sym, sym, cf, sym, len(data)))
            job(os.path.join(d, "aesarr.S"), fl=[])
    jobs_run = list(jobs)
    procs = []
    ok = True; logs = ""
    pending = list(jobs_run)
    running = []
    while pending or running:
        while pending and len(running) < 8:
            c, o = pending.pop(0)
            lf = open(o + ".log", "w+")
            running.append((subprocess.Popen(c, stdout=lf, stderr=lf), lf, c))
        for r in list(running):
            rc = r[0].poll()
            if rc is not None:
                running.remove(r)
                if rc != 0:
                    ok = False; r[1].seek(0); logs += " ".join(r[2]) + "\n" + r[1].read()[:4000]
                r[1].close()
        time.sleep(0.01)
    if ok:
        ld = [x for x in flags if x.startswith("-fsanitize=")] if b.get("asan") else []
        c = ["g++"] + [o for _, o in jobs_run] + ["-o", exe + ".tmp"] + ld + b.get("ld", []) + ["-lcrypto", "-lssl", "-pthread", "-ldl"]
        r = sh(c)
        if r.returncode != 0: ok = False; logs += r.stdout[:6000]
        else: os.rename(exe + ".tmp", exe)
    if not ok:
        shutil.rmtree(d, ignore_errors=True)
        print(logs); print("CHECK-ERROR property=%s the harness does not build against the current tree" % pid); sys.stdout.flush()
        os._exit(2)
    for _, o in jobs_run:
        for x in (o, o + ".log"):
            try: os.unlink(x)
            except OSError: pass
    return exe

def main():
    a = sys.argv[1:]
    pid = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); replay = None; only = None
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 2
        elif a[i] == "--replay": replay = a[i + 1]; i += 2
        elif a[i] == "--only": only = a[i + 1]; i += 2
        else: sys.exit("unknown argument " + a[i])
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[pid]; t0 = time.time()
    builds = P["builds"]
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=20000"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    for k, v in P.get("env", {}).items(): env[k] = v
    if replay:
        r = json.load(open(replay)); b = builds[r["build"]]; exe = build(pid, r["build"], b)
        c = [exe, "--replay", r["section"], ",".join(map(str, r["choices"]))] + (["--thorough"] if r["tier"] == "thorough" else [])
        sys.exit(subprocess.run(c, env=env, cwd=os.path.dirname(exe)).returncode)
    tot = dict(executions=0, transitions=0, states=0, outcomes=0); samples = []; secs = []; viol = None; capped = False
    todo = [(bi, b) for bi, b in enumerate(builds) if tier == "thorough" or not b.get("only_thorough")]
    with ThreadPoolExecutor(8) as ex: exes = list(ex.map(lambda x: build(pid, x[0], x[1]), todo))
    for (bi, b), exe in zip(todo, exes):
        d = os.path.dirname(exe); out = os.path.join(d, "out.json")
        if os.path.exists(out): os.unlink(out)
        c = [exe, "--out", out, "--err", os.path.join(d, "err")] + (["--thorough"] if tier == "thorough" else []) + (["--only", only] if only else [])
        r = subprocess.run(c, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=d)
        sys.stdout.write("".join("  " + l + "\n" for l in r.stdout.splitlines()[-60:]))
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print("CHECK-ERROR property=%s exploration ended with status %d" % (pid, r.returncode)); sys.exit(2)
        j = json.load(open(out))
        for k in tot: tot[k] += j[k]
        capped = capped or j["states_capped"]
        samples += [s for s in j["samples"] if s][:4]
        for s in j["sections"]: s["config"] = b.get("name", "default"); secs.append(s)
        for f in os.listdir(d):
            if f.startswith("err."):
                os.unlink(os.path.join(d, f))
        if r.returncode == 1:
            viol = j["violation"]; viol["build"] = bi; viol["tier"] = tier; viol["property"] = pid; break
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get("level", "model_checking"),
              coverage=dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["executions"],
                            distinct_outcomes=tot["outcomes"], exhaustive=(viol is None and not capped), bounds=P["bounds"], oracle=P.get("oracle", ""), sections=secs, samples=samples[:8]),
              assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    if ev["level"] in ("fault_enumeration", "exploration"):
        ev["coverage"]["evaluations"] = tot["executions"]; ev["coverage"]["distinct_nontrivial"] = tot["states"]; ev["coverage"]["rule"] = P["rule"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", pid + ".json")
        json.dump(viol, open(rp, "w"), indent=1)
        print("section %s: %s\n case: %s" % (viol["section"], viol["why"], viol["case"][:3000]))
        if viol["output"]: print(" output: " + viol["output"][:2500])
        print("VIOLATION property=%s replay=%s" % (pid, rp)); sys.exit(1)
    print("OK property=%s tier=%s states=%d transitions=%d executions=%d outcomes=%d wall=%.1fs" % (pid, tier, tot["states"], tot["transitions"], tot["executions"], tot["outcomes"], time.time() - t0))
    sys.exit(0)
main()
