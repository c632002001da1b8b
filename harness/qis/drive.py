"""drive.py LIB HOST DIR: compiles every program of DIR (<id>.hugr, with the levels and the failure points to run in <id>.todo)
with the real compiler, runs the machine code on the stand-in runtime, and writes <id>.out.json: {"level:failure": runs or error}."""
import glob, json, os, subprocess, sys
from multiprocessing.pool import ThreadPool
LLC = "/usr/lib/llvm-14/bin/llc"

def one(lib, host, d, cid):
    sys.path.insert(0, os.path.dirname(lib))
    import selene_hugr_qis_compiler as q
    base = os.path.join(d, cid)
    data = open(base + ".hugr", "rb").read()
    todo = json.load(open(base + ".todo"))
    out = {}
    for lv in todo["levels"]:
        try:
            bc = q.compile_to_bitcode(data, lv, "native")
        except BaseException as e:
            out["%d:-1" % lv] = "compiler: " + str(e)[:600]
            continue
        with open(base + ".bc", "wb") as f:
            f.write(bc)
        for c in ([LLC, "-filetype=obj", "-relocation-model=pic", "-O0", base + ".bc", "-o", base + ".o"], ["ld", "-shared", base + ".o", "-o", base + ".so"]):
            p = subprocess.run(c, capture_output=True, text=True)
            if p.returncode:
                break
        for fail in todo["fails"]:
            key = "%d:%d" % (lv, fail)
            if p.returncode:
                out[key] = "code generation: " + p.stderr[:600]
                continue
            try:
                r = subprocess.run([host, base + ".so", str(fail)], capture_output=True, timeout=60)
            except subprocess.TimeoutExpired:
                out[key] = "does not end"
                continue
            if r.returncode == 0:
                try: out[key] = json.loads(r.stdout.decode("utf-8", "replace"))
                except ValueError as e: out[key] = "garbled calls: %s" % e
            elif r.returncode == 5:
                out[key] = "limit"
            else:
                out[key] = "the machine code failed with %d %s" % (r.returncode, r.stderr.decode(errors="replace")[:300])
    for x in (".bc", ".o", ".so"):
        if os.path.exists(base + x): os.remove(base + x)
    with open(base + ".out.json", "w") as f:
        json.dump(out, f)

def worker(args):
    lib, host, d, ids = args
    ids = list(ids)
    while ids:   # a crash of the compiler ends the process: go on after the program that caused it
        subprocess.run([sys.executable, __file__, "-w", lib, host, d] + ids, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        left = [i for i in ids if not os.path.exists(os.path.join(d, i + ".out.json"))]
        if left:
            with open(os.path.join(d, left[0] + ".out.json"), "w") as f:
                json.dump({"0:-1": "the compiler crashed"}, f)
        ids = left[1:]

if __name__ == "__main__":
    if sys.argv[1] == "-w":
        for i in sys.argv[5:]:
            one(*sys.argv[2:5], i)
    else:
        lib, host, d = sys.argv[1:4]
        ids = sorted(os.path.basename(f)[:-5] for f in glob.glob(d + "/*.hugr"))
        n = 8
        chunks = [ids[k::n * 4] for k in range(n * 4)]
        with ThreadPool(n) as p:
            p.map(worker, [(lib, host, d, c) for c in chunks if c])
