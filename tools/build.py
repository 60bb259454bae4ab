#!/usr/bin/env python3
"""Builds /repo's current working tree (headless: no OSG/OSI/SUMO) into static archives, and links the
verification drivers of /verif/src against them.

Every object is keyed by the *content* of its sources and headers (time stamps are ignored), so a check
always sees the code as it is now, and nothing is rebuilt when nothing changed.

usage: build.py [--variant plain|asan|tsan] driver [driver ...]     ('all' = every driver, 'lib' = archive only)
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, subprocess, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ES = REPO + "/EnvironmentSimulator"
M = ES + "/Modules"

INCLUDES = [M + "/CommonMini", M + "/RoadManager", M + "/ScenarioEngine/SourceFiles", M + "/ScenarioEngine/OSCTypeDefs",
            M + "/Controllers", M + "/PlayerBase", ES + "/Libraries/esminiLib", ES + "/Libraries/esminiRMLib",
            ES + "/Applications/replayer", REPO + "/externals/pugixml", REPO + "/externals/expr", REPO + "/externals/yaml"]
VARIANTS = {
    "plain": ["-O2", "-g1"],
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer",
             # esmini relies on unaligned/enum conversions in places that no listed property is about
             "-fno-sanitize=vptr,alignment,enum,bool,float-divide-by-zero,shift,signed-integer-overflow,float-cast-overflow"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}
COMMON = ["-pthread", "-fPIC", "-w", "-DNDEBUG", "-ffp-contract=off"]


def lib_sources():
    src = []
    for d in ("CommonMini", "RoadManager", "Controllers", "ScenarioEngine/SourceFiles", "ScenarioEngine/OSCTypeDefs"):
        src += glob.glob("%s/%s/*.cpp" % (M, d)) + glob.glob("%s/%s/*.c" % (M, d))
    skip = {"ControllerSumo.cpp", "OSIReporter.cpp", "OSITrafficCommand.cpp", "version.cpp", "_version.cpp"}
    src = [s for s in src if os.path.basename(s) not in skip]
    src += [M + "/PlayerBase/playerbase.cpp", M + "/PlayerBase/PlayerServer.cpp",
            ES + "/Libraries/esminiLib/esminiLib.cpp", ES + "/Libraries/esminiRMLib/esminiRMLib.cpp",
            ES + "/Applications/replayer/Replay.cpp",
            REPO + "/externals/pugixml/pugixml.cpp", REPO + "/externals/yaml/yaml.cpp",
            VERIF + "/src/version.cpp"]
    return sorted(src)


def sha(path, memo={}):
    if path not in memo:
        try:
            with open(path, "rb") as f:
                memo[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            memo[path] = "missing"
    return memo[path]


def compile_one(src, out, flags):
    cc = "gcc" if src.endswith(".c") else "g++"
    std = [] if src.endswith(".c") else ["-std=c++17"]
    cmd = [cc] + std + flags + ["-I" + i for i in INCLUDES] + ["-I" + VERIF + "/src", "-MD", "-MF", out + ".d", "-c", src, "-o", out]
    stamp = out + ".json"
    try:
        with open(stamp) as f:
            old = json.load(f)
        if os.path.exists(out) and old["cmd"] == cmd and all(sha(p) == h for p, h in old["deps"].items()):
            return False
    except (OSError, ValueError, KeyError):
        pass
    if os.path.exists(stamp):
        os.remove(stamp)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("compile failed: %s\n%s" % (src, r.stdout[-6000:]))
    deps = open(out + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = [os.path.realpath(d) for d in deps if not d.startswith("/usr/")]
    with open(stamp + ".tmp", "w") as f:
        json.dump({"cmd": cmd, "deps": {d: sha(d) for d in sorted(set(deps))}}, f)
    os.rename(stamp + ".tmp", stamp)
    return True


def main(argv):
    variant = "plain"
    if argv == ["--setup"]:
        # everything the registered checks use
        sys.path.insert(0, VERIF + "/tools")
        from props import CHECKS
        for v in sorted({v for _, v in CHECKS.values()}):
            main(["--variant", v] + sorted({d for d, w in CHECKS.values() if w == v}))
        return 0
    if argv and argv[0] == "--variant":
        variant = argv[1]
        argv = argv[2:]
    out = VERIF + "/.build/" + variant
    os.makedirs(out + "/obj", exist_ok=True)
    lock = open(out + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    flags = COMMON + VARIANTS[variant]
    jobs = []
    for s in lib_sources():
        jobs.append((s, out + "/obj/" + os.path.relpath(s, "/").replace("/", "__") + ".o"))
    lib_objs = [o for _, o in jobs]
    drivers = argv
    if "all" in drivers:
        drivers = [os.path.basename(p)[:-4] for p in sorted(glob.glob(VERIF + "/src/d_*.cpp"))]
    drivers = [d for d in drivers if d != "lib"]
    dobj = {}
    for d in drivers:
        dobj[d] = out + "/obj/driver__" + d + ".o"
        jobs.append((VERIF + "/src/" + d + ".cpp", dobj[d]))
    changed = set()
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        # biggest first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        futs = {ex.submit(compile_one, s, o, flags): o for s, o in jobs}
        for f in concurrent.futures.as_completed(futs):
            if f.result():
                changed.add(futs[f])
    lib = out + "/libesmini.a"
    listing = out + "/lib.list"
    old = open(listing).read() if os.path.exists(listing) else ""
    lib_changed = not os.path.exists(lib) or old != "\n".join(lib_objs) or any(o in changed for o in lib_objs)
    if lib_changed:
        if os.path.exists(lib):
            os.remove(lib)
        subprocess.run(["ar", "qcs", lib] + lib_objs, check=True)
        with open(listing, "w") as f:
            f.write("\n".join(lib_objs))

    def ldflags(d):
        with open(VERIF + "/src/" + d + ".cpp") as f:
            first = f.readline()
        return first.split("LDFLAGS:", 1)[1].split() if "LDFLAGS:" in first else []

    def link(d):
        exe = out + "/" + d
        if not lib_changed and dobj[d] not in changed and os.path.exists(exe) and os.path.getmtime(exe) > os.path.getmtime(lib):
            return
        tmp = exe + ".tmp"
        r = subprocess.run(["g++"] + VARIANTS[variant] + ["-pthread"] + ldflags(d) + [dobj[d], "-Wl,--whole-archive", lib, "-Wl,--no-whole-archive", "-lfmt", "-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise RuntimeError("link failed: %s\n%s" % (d, r.stdout[-6000:]))
        os.rename(tmp, exe)

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(link, drivers))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except RuntimeError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
