#!/usr/bin/env python3
"""Builds the simulator binaries from /repo's current working tree into /verif/build (git-ignored).

  lib-asan : library under gcc ASan + trace-pc (step clock, coverage), harness under ASan
  lib-sched: library compiled with gcc -fsanitize=thread, callbacks supplied by the simulator's scheduler
"""
import os, re, subprocess, sys, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
FALLBACK = ("metaresc.c mr_message.c mr_extra.c mr_print.c mr_stringify.c mr_save.c mr_load.c xml_save.c cinit_save.c json_save.c "
            "scm_save.c mr_ic.c mr_hsort.c mr_value.c mr_btree.c mr_udo_init.c xml1_load.tab.c xml1_load.lex.c cinit_load.tab.c "
            "cinit_load.lex.c json_load.tab.c json_load.lex.c scm_load.tab.c scm_load.lex.c xml2_load.c yaml_save.c yaml_load.c xdr.c").split()
CPP = ["-DHAVE_CONFIG_H", "-I/usr/include/tirpc", "-I/usr/include/libxml2"]
LIBS = ["-ltirpc", "-lxml2", "-lyaml", "-ldl", "-lpthread", "-lm"]
HARNESS = [f for f in sorted(os.listdir(SIM)) if f.endswith(".c")]

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), p.stdout[-6000:]))
        sys.exit(3)
    return p.stdout

def sources():
    """C sources of the library, from the automake list when it can be read, and from the fallback otherwise."""
    src = os.path.join(REPO, "src")
    names = []
    try:
        t = open(os.path.join(src, "Makefile.am")).read().replace("\\\n", " ")
        for m in re.finditer(r"^(?:nodist_)?libmetaresc_la_SOURCES\s*\+?=\s*(.*)$", t, re.M):
            names += [w for w in m.group(1).split() if re.fullmatch(r"[\w.]+", w)]
        for m in re.finditer(r"^\s*libmetaresc_la_SOURCES\s*\+=\s*(.*)$", t, re.M):
            names += [w for w in m.group(1).split() if re.fullmatch(r"[\w.]+", w)]
    except OSError:
        pass
    out = []
    for n in names:
        n = n.split("/")[-1]
        if n.endswith(".l"):
            n = n[:-2] + ".lex.c"
        elif n.endswith(".y"):
            n = n[:-2] + ".tab.c"
        if n.endswith(".c") and n not in out:
            out.append(n)
    for n in FALLBACK:
        if n not in out and (os.path.exists(os.path.join(src, n)) or n.endswith((".tab.c", ".lex.c"))):
            base = n.split(".")[0]
            if n.endswith((".tab.c", ".lex.c")) and not os.path.exists(os.path.join(src, base + (".y" if ".tab" in n else ".l"))):
                continue
            out.append(n)
    return out

def tree_key():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), SIM, os.path.join(SIM, "cfg")):
        for f in sorted(os.listdir(root)):
            p = os.path.join(root, f)
            if os.path.isfile(p) and f.endswith((".c", ".h", ".y", ".l", ".sh", ".am", ".py")):
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def build(which=("asan", "sched"), jobs=8, quiet=True):
    out = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
    os.makedirs(out, exist_ok=True)
    key = tree_key()
    todo = [w for w in which if not (os.path.exists(os.path.join(out, "sim-" + w)) and
            os.path.exists(os.path.join(out, "key-" + w)) and open(os.path.join(out, "key-" + w)).read() == key)]
    if not todo:
        return out
    gen = os.path.join(out, "gen")
    shutil.rmtree(gen, ignore_errors=True)
    os.makedirs(gen)
    src = os.path.join(REPO, "src")
    with open(os.path.join(gen, "mr_pp.h"), "w") as f:
        p = subprocess.run(["sh", os.path.join(src, "mr_pp.sh"), "256"], stdout=f)
        if p.returncode:
            sys.exit(3)
    for f in ("mr_config.h", "mr_export.h"):
        shutil.copy(os.path.join(SIM, "cfg", f), gen)
    for f in sorted(os.listdir(src)):
        if f.endswith(".y"):
            run(["bison", "-d", "-o", os.path.join(gen, f[:-2] + ".tab.c"), os.path.join(src, f)])
        elif f.endswith(".l"):
            run(["flex", "--header-file=" + os.path.join(gen, f[:-2] + ".lex.h"), "-o", os.path.join(gen, f[:-2] + ".lex.c"), os.path.join(src, f)])
    srcs = sources()
    for w in todo:
        od = os.path.join(out, "obj-" + w)
        shutil.rmtree(od, ignore_errors=True)
        os.makedirs(od)
        inc = CPP + ["-I" + gen, "-I" + src, "-I" + SIM]
        base = ["gcc", "-std=gnu11", "-g", "-gdwarf-4", "-O1", "-fno-omit-frame-pointer", "-w"]
        up = []
        if w == "up":		# as asan, with further versions of the application's types
            import vers
            vers.generate(SIM, gen, "w", 11, False)
            vers.generate(SIM, gen, "x", 12, True)
            up = [os.path.join(gen, "model_w.c"), os.path.join(gen, "model_x.c")]
            lib = ["-fsanitize=address", "-fsanitize-coverage=trace-pc", "-DSIM_ASAN"]
            har = ["-fsanitize=address", "-DSIM_ASAN", "-DSIM_UP", "-Wall", "-Wno-unused-function"]
            link = ["-fsanitize=address", "-no-pie"]
        elif w == "asan":
            lib = ["-fsanitize=address", "-fsanitize-coverage=trace-pc", "-DSIM_ASAN"]
            har = ["-fsanitize=address", "-DSIM_ASAN", "-Wall", "-Wno-unused-function"]
            link = ["-fsanitize=address", "-no-pie"]
        elif w == "cov":	# not part of any check: which lines of the library the campaigns reach
            lib = ["-fsanitize=address", "-fsanitize-coverage=trace-pc", "-DSIM_ASAN", "--coverage", "-fprofile-update=atomic"]
            har = ["-fsanitize=address", "-DSIM_ASAN"]
            link = ["-fsanitize=address", "-no-pie", "--coverage", "-Wl,-u,__gcov_dump"]
        else:
            lib = ["-fsanitize=thread", "-fsanitize-coverage=trace-pc", "-DSIM_SCHED"]
            har = ["-DSIM_SCHED", "-Wall", "-Wno-unused-function"]
            link = ["-no-pie"]
        base += ["-fno-pie"]
        jobs_l = []
        for s in srcs:
            p = os.path.join(gen, s) if os.path.exists(os.path.join(gen, s)) else os.path.join(src, s)
            extra = ["-ffast-math"] if s == "mr_value.c" else []
            jobs_l.append((base + lib + extra + inc + ["-c", p, "-o", os.path.join(od, s[:-2] + ".o")]))
        for p in up:
            jobs_l.insert(0, base + har + inc + ["-c", p, "-o", os.path.join(od, "h_" + os.path.basename(p)[:-2] + ".o")])
        for s in HARNESS:
            jobs_l.append((base + har + inc + ["-c", os.path.join(SIM, s), "-o", os.path.join(od, "h_" + s[:-2] + ".o")]))
        with ThreadPoolExecutor(jobs) as ex:
            for o in ex.map(run, jobs_l):
                if o and not quiet:
                    sys.stderr.write(o)
        if True:
            # blocking and bulk-memory calls of the library (only) go to the scheduler, or are counted as work
            for s in srcs:
                run(["objcopy"] + ["--redefine-sym=%s=__wrap_%s" % (x, x) for x in (WRAPS if w == "sched" else COUNTED)] + [os.path.join(od, s[:-2] + ".o")])
        objs = [os.path.join(od, f) for f in sorted(os.listdir(od)) if f.endswith(".o")]
        # GCC has no matching runtime for trace-pc: the simulator supplies it
        run(["gcc", "-g", "-rdynamic", "-o", os.path.join(out, "sim-" + w)] + link + objs + LIBS)
        open(os.path.join(out, "key-" + w), "w").write(key)
    return out

WRAPS = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_once", "sched_yield", "nanosleep", "usleep", "memset", "memcpy", "memmove"]

COUNTED = ["strlen", "memset", "memcpy", "memmove"]

if __name__ == "__main__":
    build(tuple(sys.argv[1:]) or ("asan", "sched"), quiet=False)
