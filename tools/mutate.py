#!/usr/bin/env python3
"""mutate.py FILE [id ...]: sensitivity of the checks. FILE defines MUT = [(id, property[,property], path, old, new), ...].
Each change is made in a scratch copy of /repo (under /tmp/mut), the property's quick check is built and run there.
Nothing in /repo is touched. Results: caught / MISSED / build error."""
import concurrent.futures, os, queue, subprocess, sys, time

W = os.environ.get("MUT_DIR", "/tmp/mut")
N = int(os.environ.get("MUT_WORKERS", "3"))
ns = {}
exec(open(sys.argv[1]).read(), ns)
MUT = [m for m in ns["MUT"] if len(sys.argv) < 3 or m[0] in sys.argv[2:] or m[1] in sys.argv[2:]]
ES = "EnvironmentSimulator/Modules/"
SHORT = {"SE/": ES + "ScenarioEngine/SourceFiles/", "OT/": ES + "ScenarioEngine/OSCTypeDefs/", "CT/": ES + "Controllers/", "RM/": ES + "RoadManager/", "CM/": ES + "CommonMini/", "PB/": ES + "PlayerBase/",
         "LIB/": "EnvironmentSimulator/Libraries/esminiLib/", "RML/": "EnvironmentSimulator/Libraries/esminiRMLib/", "RP/": "EnvironmentSimulator/Applications/replayer/"}


def setup(k):
    d = "%s/w%d" % (W, k)
    os.makedirs(d + "/repo", exist_ok=True)
    os.makedirs(d + "/verif", exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--checksum", "--exclude", "/build", "--exclude", "/bin", "--exclude", "/.git", "/repo/", d + "/repo/"] if os.path.exists("/usr/bin/rsync") else
                   ["bash", "-c", "rm -rf %s/repo && mkdir %s/repo && cd /repo && git archive HEAD | tar -x -C %s/repo" % (d, d, d)], check=True)
    subprocess.run(["bash", "-c", "cd /verif && mkdir -p %s/verif/evidence %s/verif/replays && cp -a tools src known_findings.txt %s/verif/ && rm -f %s/verif/src/version.cpp.bak" % (d, d, d, d)], check=True)


def run(m, k):
    d = "%s/w%d" % (W, k)
    path = m[2]
    for a, b in SHORT.items():
        if path.startswith(a):
            path = b + path[len(a):]
    f = d + "/repo/" + path
    src = open(f).read()
    if src.count(m[3]) < 1:
        return "NOT FOUND"
    nth = m[5] if len(m) > 5 else 0
    i = -1
    for _ in range(nth + 1):
        i = src.index(m[3], i + 1)
    note = "" if src.count(m[3]) == 1 or len(m) > 5 else " (first of %d)" % src.count(m[3])
    open(f, "w").write(src[:i] + m[4] + src[i + len(m[3]):])
    try:
        env = dict(os.environ, VERIF_REPO=d + "/repo", VF_MAXVIOL="3")
        res = []
        for p in m[1].split(","):
            t = time.time()
            r = subprocess.run([sys.executable, d + "/verif/tools/check.py", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
            v = [l for l in r.stdout.splitlines() if l.startswith("violation")]
            if r.returncode == 1:
                res.append("%s caught %ds: %s" % (p, time.time() - t, (v[0] if v else "")[:110]))
                break
            res.append("%s %s %ds" % (p, "MISSED" if r.returncode == 0 else "NO ANSWER " + r.stdout[-300:], time.time() - t))
        return "; ".join(res) + note
    finally:
        open(f, "w").write(src)


q = queue.Queue()
for k in range(N):
    setup(k)
    q.put(k)


def job(m):
    k = q.get()
    try:
        r = run(m, k)
    except Exception as e:
        r = "error %r" % e
    finally:
        q.put(k)
    print("%-34s %s" % (m[0], r), flush=True)


with concurrent.futures.ThreadPoolExecutor(N) as ex:
    list(ex.map(job, MUT))
