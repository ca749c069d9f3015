"""Runs the reference implementation over a corpus: run.py CORPUS OUT.jsonl [N shards]. Resumable per case; a case on
which the reference does not terminate is recorded as {"err": "timeout"}."""
import json, os, subprocess, sys, threading, time, queue
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/../../lib")
import corpus, tsgo
name, out = sys.argv[1], sys.argv[2]
N = int(sys.argv[3]) if len(sys.argv) > 3 else 8
root = "/dev/shm/ref-" + name
subprocess.run(["rm", "-rf", root])
cases = corpus.load(name)
mains = corpus.layout(root, cases)
done = {}
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done[d["id"]] = 1
jobs = [json.dumps(dict(id=c["id"], dir="%s/c/%s" % (root, c["id"]), main=mains[c["id"]], own=c.get("own"), ownOnly=c.get("ownOnly"))) for c in cases if c["id"] not in done]
lock = threading.Lock()
f = open(out, "a")
env = dict(os.environ, RULES=json.dumps(tsgo.RULES))
def shard(js):
    while js:
        p = subprocess.Popen(["node", "--max-old-space-size=3000", HERE + "/esl.mjs"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        cur = [None, time.time(), ""]
        def err():
            for l in p.stderr:
                s = l.decode(errors="replace").strip()
                if s[:1] in "rmfgaxkoyt" and s[1:].isdigit(): cur[0], cur[1] = s, time.time()
                else: cur[2] = s
        t = threading.Thread(target=err, daemon=True); t.start()
        def feed():
            try: p.stdin.write(("\n".join(js[:300]) + "\n").encode()); p.stdin.close()
            except OSError: pass
        threading.Thread(target=feed, daemon=True).start()
        got = set()
        def watch():
            while p.poll() is None:
                if time.time() - cur[1] > 40: p.kill()
                time.sleep(1)
        threading.Thread(target=watch, daemon=True).start()
        for l in p.stdout:
            d = json.loads(l); got.add(d["id"])
            with lock: f.write(json.dumps(d) + "\n"); f.flush()
        p.wait(); t.join(2)
        if p.returncode != 0:
            with lock: f.write(json.dumps(dict(id=cur[0], err="timeout" if p.returncode < 0 else "crash " + cur[2][:200])) + "\n"); f.flush()
            got.add(cur[0])
        js = [j for j in js if json.loads(j)["id"] not in got]
ths = [threading.Thread(target=shard, args=(jobs[i::N],)) for i in range(N)]
t0 = time.time()
for t in ths: t.start()
for t in ths: t.join()
print(name, len(jobs), "cases", round(time.time() - t0), "s")
subprocess.run(["rm", "-rf", root])
