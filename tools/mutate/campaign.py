#!/usr/bin/env python3
"""campaign.py OUT SAMPLE FILE... : mutates files in scratch copies and runs the checks.

Survivors (compile, pass the tests of the repository, no check fails) are written to OUT.
"""
import json, os, random, subprocess, sys, shutil, signal
from concurrent.futures import ThreadPoolExecutor
import queue, threading
W = int(os.environ.get("WORKERS", "3"))
PCT = os.environ.get("VERIF_PERCENT", "40")
BASE = "/tmp/mut"
G = "/opt/veriftools/go1.27.3/bin"
CH = {
 "psd.go": "P01 P12 P11 P02 P14 P13 P10 P06 P08 P03 P07",
 "layer.go": "P03 P04 P12 P06 P14 P13 P11 P10 P07 P08",
 "imageres.go": "P01 P11 P14 P13 P10 P06 P07 P08",
 "compress.go": "P05 P02 P04 P13 P06 P09 P10 P07 P08 P11",
 "compress_other.go": "P05 P02 P04 P13 P06 P09 P10 P07 P08 P11",
 "util.go": "P03 P01 P05 P13 P08 P10 P07 P06 P11 P12",
 "picker.go": "P02 P04",
 "blendmode.go": "P03",
 "colormode.go": "P01 P02 P14",
 "color/": "K01 K02 P02 P04",
 "blend/": "B01 B02 B03 B05 B04 M02",
 "composite/": "M02 M01 M07 M05 M06 M04 M03",
 "psdexporter/": "E01",
}
def checks(f):
    for k, v in CH.items():
        if f == k or (k.endswith("/") and f.startswith(k)): return v.split()
    raise Exception(f)
env = dict(os.environ, PATH=G + ":" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly",
           VERIF_PERCENT=PCT, VERIF_SHARDS=os.environ.get("VERIF_SHARDS","3"), VERIF_SEED=os.environ.get("VERIF_SEED","1"))
def run(cmd, cwd, timeout, e=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=e or env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, shell=True, start_new_session=True, text=True, errors="replace")
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate()
        return -1, "timeout"
def setup(i):
    d = f"{BASE}/w{i}"
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    subprocess.check_call(f"cp -a /repo {d}/repo && mkdir {d}/verif && cp -a /verif/harness /verif/stubs /verif/check.sh {d}/verif/ && touch {d}/verif/known-findings.txt", shell=True)
    p = f"{d}/verif/harness/go.mod"
    s = open(p).read().replace("=> /repo", f"=> {d}/repo"); open(p, "w").write(s)
    return d
def build(d, t, race=False):
    o = f"{d}/verif/out/bin/{t}" + (".race" if race else "")
    os.makedirs(f"{d}/verif/out/bin", exist_ok=True)
    if t == "psdexporter": cmd = f"go build -o {o} github.com/oov/psd/psdexporter"
    else: cmd = f"go build {'-race' if race else ''} -o {o} ./cmd/{t}"
    return run(cmd, f"{d}/verif/harness", 300)
RACE = {"P09", "B04", "M03"}
base = json.load(open("/opt/vp/BASELINE.json"))
def judge(d, m):
    p = f"{d}/repo/{m['file']}"
    src = open(p, "rb").read()
    mut = src[:m["off"]] + m["new"].encode() + src[m["off"]+m["len"]:]
    try:
        open(p, "wb").write(mut)
        ids = checks(m["file"])
        ts = {("vcomp" if i[0] == "M" else "vmain") for i in ids}
        built = set()
        def need(t, race=False):
            if (t, race) in built: return True
            rc, o = build(d, t, race)
            built.add((t, race))
            return rc == 0
        for i in ids:
            t = "vcomp" if i[0] == "M" else "vmain"
            if not need(t): return ("nobuild", i)
            if i == "E01" and not need("psdexporter"): return ("nobuild", i)
            if i in RACE and not need(t, True): return ("nobuild", i)
            e = dict(env, VERIF_ROOT=f"{d}/verif")
            rc, o = run(f"out/bin/{t} run {i}", f"{d}/verif", int(os.environ.get("TMO","150")), e)
            if rc == -1: return ("hang", i)
            if rc == 1: return ("caught", i)
            if rc != 0: return ("error", i + " rc=%d %s" % (rc, o[-300:]))
        # no one noticed. does the test suite?
        rc, o = run("rm -rf output blend/output; mkdir -p output; go test -json -vet=off -count=1 -timeout 3m . ./color ./blend ./psdexporter", f"{d}/repo", 300, dict(env, GOFLAGS=""))
        ok = set()
        for l in o.splitlines():
            try: x = json.loads(l)
            except Exception: continue
            if x.get("Action") == "pass" and "Test" in x: ok.add(x["Package"] + "/" + x["Test"])
        miss = set(base["stable"]) - ok
        if miss: return ("tests", sorted(miss)[0])
        return ("SURVIVED", "")
    finally:
        open(p, "wb").write(src)
def main():
    out, sample, files = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
    ms = []
    for f in files:
        o = subprocess.run([f"{BASE}/mutate", f], cwd="/repo", capture_output=True, text=True, check=True).stdout
        ms += [json.loads(l) for l in o.splitlines()]
    random.Random(int(os.environ.get("MSEED", "1"))).shuffle(ms)
    if sample: ms = ms[:sample]
    ds = queue.Queue()
    tag = os.path.basename(out)
    for i in range(W): ds.put(setup(f"{tag}-{i}"))
    lock = threading.Lock(); n = {}; done = [0]
    f = open(out, "w")
    def work(m):
        d = ds.get()
        try: r = judge(d, m)
        except Exception as e: r = ("exception", str(e))
        ds.put(d)
        with lock:
            done[0] += 1
            n[r[0]] = n.get(r[0], 0) + 1
            f.write(json.dumps(dict(r=r, **m)) + "\n"); f.flush()
            if done[0] % 20 == 0: print(done[0], len(ms), n, flush=True)
    with ThreadPoolExecutor(W) as ex: list(ex.map(work, ms))
    print("done", n)
    for i in range(W): shutil.rmtree(f"{BASE}/w{tag}-{i}")
main()
