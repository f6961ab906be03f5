#!/usr/bin/env python3
"""Builds the harness together with the parser from /repo's current working tree.

usage: build.py MODE [MODE...]      modes: asan plain cov tsan vg
Objects are cached under /verif/build by the content of everything that goes into them.
The generated parser and lexer are handled as /opt/vp does: the tracked ones are used as long as the grammar is the one
of the pinned commit, otherwise they are generated from the grammar.
Exit status 2 if the tree cannot be built.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SRC = os.path.join(VERIF, "src")
PINNED = {
    "bison_parser": ("bison_parser.y", "9aeb9256a5466408e2d977aabf07710017eb274a60e37e54d80f2fb963b208b0"),
    "flex_lexer": ("flex_lexer.l", "f1540175e92cdc7fb6368803c8f3adadaedf78aa9b1288ff3dae5a32f0872524"),
}
W = ["-w"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
MODES = {
    # (compiler, flags for the code under test, flags for harness files that touch its data, flags for the rest, link)
    "asan": ("g++", ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"] + SAN, ["-O1", "-g1"] + SAN, ["-O1"], SAN),
    "plain": ("g++", ["-O2", "-g1"], ["-O1", "-g1"], ["-O1"], []),
    "cov": ("clang++", ["-O1", "-g1", "-fsanitize-coverage=edge,trace-pc-guard"], ["-O1"], ["-O1"], []),
    "vg": ("g++", ["-O1", "-g1"], ["-O1", "-g1"], ["-O1"], []),
    "tsan": ("g++", ["-O1", "-g1", "-fsanitize=thread"], ["-O1", "-g1", "-fsanitize=thread"], ["-O1", "-fsanitize=thread"], ["-fsanitize=thread"]),
}
NODATA = {"reflex.cpp", "refparse.cpp", "gen.cpp", "rt.cpp"}  # harness files that never touch data of the code under test
EXTRA = {("cov", "rt.cpp"): ["-fno-builtin"], ("plain", "rt.cpp"): ["-fno-builtin"]}
DEPTH_FREE = "40"


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()


def read(p):
    with open(p, "rb") as f:
        return f.read()


def snapshot():
    """Content of the sources of the code under test: {relative path below src: bytes}."""
    out = {}
    root = os.path.join(REPO, "src")
    for d, _, names in os.walk(root):
        for n in names:
            if n.endswith((".cpp", ".h", ".y", ".l")) and not n.startswith("conflict_test"):
                p = os.path.join(d, n)
                out[os.path.relpath(p, root)] = read(p)
    return out


def generate(files):
    for stem, (grammar, pinned) in PINNED.items():
        g = "parser/" + grammar
        if g not in files:
            raise BuildError("missing " + g)
        outs = ["parser/%s.cpp" % stem, "parser/%s.h" % stem]
        if hashlib.sha256(files[g]).hexdigest() == pinned and all(o in files and files[o] for o in outs):
            continue
        key = sha(files[g])[:20]
        done = os.path.join(BUILD, "gen-%s-%s" % (stem, key))
        if not os.path.isdir(done):
            work = done + ".work%d" % os.getpid()
            shutil.rmtree(work, ignore_errors=True)
            os.makedirs(work)
            with open(os.path.join(work, grammar), "wb") as f:
                f.write(files[g])
            if stem == "bison_parser":
                cmd = ["bison", grammar, "--output=bison_parser.cpp", "--defines=bison_parser.h", "--verbose"]
            else:
                cmd = ["flex", grammar]
            r = subprocess.run(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode or not os.path.isfile(os.path.join(work, stem + ".cpp")):
                raise BuildError("%s failed:\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")))
            try:
                os.rename(work, done)
            except OSError:
                shutil.rmtree(work, ignore_errors=True)
        for o in outs:
            files[o] = read(os.path.join(done, os.path.basename(o)))
    return files


def tree():
    """A directory with the exact sources to compile; returns (path, key)."""
    os.makedirs(BUILD, exist_ok=True)
    files = generate(snapshot())
    key = sha(*[x for k in sorted(files) for x in (k, files[k])])[:20]
    path = os.path.join(BUILD, "tree-" + key)
    if not os.path.isdir(path):
        work = path + ".work%d" % os.getpid()
        shutil.rmtree(work, ignore_errors=True)
        for k, v in files.items():
            p = os.path.join(work, "src", k)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(v)
        try:
            os.rename(work, path)
        except OSError:
            shutil.rmtree(work, ignore_errors=True)
    return path, key, files


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[:3000])


def build(mode, extra=()):
    cxx, libf, dataf, restf, link = MODES[mode]
    path, key, files = tree()
    hdr_key = sha(*[x for k in sorted(files) if k.endswith(".h") for x in (k, files[k])])
    src = sorted(glob.glob(os.path.join(SRC, "*.cpp")))
    hk = sha(*[read(p) for p in sorted(glob.glob(os.path.join(SRC, "*.h")) + glob.glob(os.path.join(SRC, "*.inc")))])
    jobs = []
    objs = []
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    base = ["-std=c++17", "-I" + os.path.join(path, "src"), "-I" + SRC, "-pthread", "-DVF_DEPTH_FREE=" + DEPTH_FREE, "-DVF_MODE_%s=1" % mode.upper()]
    ppd = "-ffile-prefix-map=%s=." % path
    for k in sorted(files):
        if not k.endswith(".cpp"):
            continue
        fl = libf + W
        ck = sha(mode, cxx, " ".join(fl), k, files[k], hdr_key)[:24]
        o = os.path.join(odir, ck + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((len(files[k]) + (10**6 if "parser/" in k else 0), [cxx] + base + [ppd] + fl + ["-c", os.path.join(path, "src", k), "-o"], o))
    for s in src:
        b = os.path.basename(s)
        fl = (restf if b in NODATA else dataf) + ["-Wall"] + EXTRA.get((mode, b), [])
        content = read(s)
        ck = sha(mode, cxx, " ".join(fl + base[3:]), b, content, hk, "" if b in NODATA else hdr_key)[:24]
        o = os.path.join(odir, ck + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((len(content) * 8, [cxx] + base + [ppd] + fl + ["-c", s, "-o"], o))
    jobs.sort(key=lambda j: -j[0])
    binkey = sha(mode, cxx, *objs, *link)[:24]
    exe = os.path.join(BUILD, "vh-%s-%s" % (mode, binkey))
    if os.path.exists(exe):
        return exe

    def run(j):
        tmp = j[2] + ".tmp%d" % os.getpid()
        try:
            sh(j[1] + [tmp])
        except BuildError:
            # C26 touches helpers that are no part of the interface; without them the rest of it still works. It is also
            # the one monitor that calls every constructor: if it cannot be compiled, the others must not go with it.
            if os.path.basename(j[1][-2]) != "p_build.cpp":
                raise
            try:
                sh(j[1][:-1] + ["-DVF_PUBLIC_ONLY", "-o", tmp])
            except BuildError as e:
                print("without C26: " + str(e)[-1500:], file=sys.stderr)
                sh(j[1][:-1] + ["-DVF_WITHOUT_C26", "-o", tmp])
        os.rename(tmp, j[2])

    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    tmp = exe + ".tmp%d" % os.getpid()
    sh([cxx, "-pthread"] + objs + link + ["-rdynamic", "-ldl", "-o", tmp])
    os.rename(tmp, exe)
    return exe


if __name__ == "__main__":
    try:
        for m in sys.argv[1:]:
            print(build(m))
    except BuildError as e:
        print("BUILD FAILED\n" + str(e), file=sys.stderr)
        sys.exit(2)
