"""Build /repo's current working tree (never a copy of it from some other
time) into /verif/build/<content-hash>/, using the repository's own Makefiles
for the flags and source lists.

Products:
  simlib()   libsim.so: every library object plus spiped/dispatch.c and
             spipe/pushbits.c, ASan + part of UBSan, with system calls and the
             allocator routed through csrc/simk.c (see there)
  softlib()  the same sources compiled with CPU features switched off
  bins()     directory holding ASan builds of spiped and spipe
  plainbins() directory holding plain -O2 builds of spiped and spipe
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys, glob

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SAN = ("-g -O1 -fno-omit-frame-pointer -fsanitize=address,bounds,null,shift,"
       "signed-integer-overflow,integer-divide-by-zero,unreachable "
       "-fno-sanitize-recover=all -U_FORTIFY_SOURCE")
WRAPS = """poll ppoll select recv recvfrom read readv send sendto write writev
accept accept4 connect socket bind listen close shutdown getsockopt setsockopt
fcntl clock_gettime gettimeofday time getaddrinfo freeaddrinfo open
malloc calloc realloc free strdup strndup posix_memalign aligned_alloc
BN_free BN_clear_free getrandom getentropy
setgroups setresgid setregid setgid setegid setresuid setreuid setuid seteuid
getgroups getgrnam getpwnam initgroups getuid geteuid getgid getegid crypto_entropy_read
""".split()


class BuildError(Exception):
    pass


def _src_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", ".vp-state", "tests-output"))
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith((".o", ".a")) or not os.path.isfile(p):
                continue
            # Skip built executables and generated configuration; keep sources.
            if f in ("cpusupport-config.h", "apisupport-config.h", "cflags-filter.sh",
                     "posix-flags.sh", ".vp-state"):
                continue
            rel = os.path.relpath(p, REPO)
            if "." not in f and f not in ("Makefile", "BUILDING", "Build") and os.access(p, os.X_OK):
                with open(p, "rb") as fh:
                    if fh.read(4) == b"\x7fELF":
                        continue
            out.append(rel)
    return out


_hash = None


def tree_hash():
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        for rel in _src_files():
            if not rel.endswith((".c", ".h", ".sh")) and os.path.basename(rel) not in ("Makefile", "Makefile.inc"):
                continue
            h.update(rel.encode() + b"\0")
            with open(os.path.join(REPO, rel), "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        for f in sorted(glob.glob(os.path.join(VERIF, "csrc", "*"))) + [os.path.abspath(__file__)]:
            with open(f, "rb") as fh:
                h.update(fh.read())
        _hash = h.hexdigest()[:20]
    return _hash


def _run(cmd, cwd, env=None, log=None, timeout=900):
    e = dict(os.environ)
    for k in ("MAKEFLAGS", "MAKELEVEL", "MFLAGS", "CPPFLAGS", "LDFLAGS", "LDADD_EXTRA",
              "HAVE_BUILD_FLAGS", "CFLAGS", "LD_PRELOAD", "PYTHONMALLOC", "ASAN_OPTIONS"):
        e.pop(k, None)
    e["LC_ALL"] = "C"
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       stdin=subprocess.DEVNULL, timeout=timeout)
    if p.returncode:
        raise BuildError("%r failed (%d):\n%s" % (cmd, p.returncode, p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout


def _prune(keep):
    """Keep the newest few build trees only."""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d))]
    except OSError:
        return
    ds = sorted((d for d in ds if os.path.basename(d) != keep), key=os.path.getmtime, reverse=True)
    for d in ds[3:]:
        shutil.rmtree(d, ignore_errors=True)


class _Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


CONF = ("cpusupport-config.h", "apisupport-config.h", "cflags-filter.sh", "posix-flags.sh")


TSLD = "-fsanitize=thread -Wl,--wrap=flockfile -Wl,--wrap=funlockfile %s/tsanlock.o"


def _tree(name, cflags, targets, soft=None, cc="gcc"):
    """Copy the sources to build/<hash>/<name> and make `targets` there."""
    base = os.path.join(BUILD, tree_hash())
    d = os.path.join(base, name)
    ok = os.path.join(d, ".ok")
    if os.path.exists(ok):
        return d
    shutil.rmtree(d, ignore_errors=True)
    _prune(tree_hash())
    for rel in _src_files():
        dst = os.path.join(d, rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copy2(os.path.join(REPO, rel), dst)
    # Configuration probes: the repository's own, run once per tree hash.
    conf = os.path.join(base, "conf")
    if not os.path.exists(os.path.join(conf, ".ok")):
        shutil.rmtree(conf, ignore_errors=True)
        os.makedirs(conf)
        _run(["make", "-s", "CC=gcc", *CONF], d, {"CFLAGS": "-std=c99 -O2"})
        for c in CONF:
            shutil.copy2(os.path.join(d, c), conf)
        open(os.path.join(conf, ".ok"), "w").close()
    for c in CONF:
        shutil.copy2(os.path.join(conf, c), d)
    if soft:
        with open(os.path.join(d, "cpusupport-config.h")) as f:
            lines = f.read().splitlines()
        if soft == "soft":
            lines = ["/* CPU features switched off */"]
        else:       # SHA-NI hidden: the SSE2 code is used
            lines = [x for x in lines if "X86_SHANI" not in x]
        with open(os.path.join(d, "cpusupport-config.h"), "w") as f:
            f.write("\n".join(lines) + "\n")
    script = ("export CFLAGS='%s' LDFLAGS='%s' HAVE_BUILD_FLAGS=1; . ./posix-flags.sh; . ./cpusupport-config.h; "
              ". ./cflags-filter.sh; . ./apisupport-config.h; set -e; "
              "make -s -j8 CC=%s -C liball all; make -s -j4 CC=%s -C liball/optional_mutex_pthread all; "
              % (cflags, TSLD % d if "=thread" in cflags else "-fsanitize=memory" if "=memory" in cflags else "-fsanitize=address,undefined" if "sanitize" in cflags else "", cc, cc))
    if "=thread" in cflags:
        script = "gcc -O1 -g -c %s -o tsanlock.o; " % os.path.join(VERIF, "csrc", "tsanlock.c") + script
    for t in targets:
        script += "make -s -j8 CC=%s -C %s %s; " % ((cc,) + t)
    _run(["sh", "-c", script], d)
    open(ok, "w").close()
    return d


def _objs(d, progs):
    objs = sorted(glob.glob(os.path.join(d, "liball", "*.o")))
    objs += sorted(glob.glob(os.path.join(d, "liball", "optional_mutex_pthread", "*.o")))
    for p in progs:
        objs += sorted(o for o in glob.glob(os.path.join(d, p, "*.o")) if os.path.basename(o) != "main.o")
    return objs


def _link(d, out, csrc, wraps, extra_obj=()):
    if os.path.exists(out):
        return out
    cs = []
    incs = ["-I" + os.path.join(d, x) for x in
            ("", "libcperciva/alg", "libcperciva/cpusupport", "libcperciva/crypto", "libcperciva/datastruct",
             "libcperciva/events", "libcperciva/netbuf", "libcperciva/network", "libcperciva/util",
             "libcperciva/external/queue", "lib/dnsthread", "lib/proto", "lib/util")]
    for c in csrc:
        o = out + "." + os.path.basename(c) + ".o"
        _run(["gcc", "-std=gnu11", "-fPIC", "-Wall", *SAN.split(), *incs,
              '-DCPUSUPPORT_CONFIG_FILE="cpusupport-config.h"',
              '-DAPISUPPORT_CONFIG_FILE="apisupport-config.h"',
              "-c", os.path.join(VERIF, "csrc", c), "-o", o], d)
        cs.append(o)
    tmp = out + ".tmp"
    _run(["gcc", "-shared", "-fsanitize=address,undefined", "-Wl,-Bsymbolic", "-Wl,-z,defs",
          *["-Wl,--wrap=" + w for w in wraps], "-o", tmp, *cs, *extra_obj,
          *_objs(d, ("spiped", "spipe")), "-lcrypto", "-lpthread", "-lrt"], d)
    os.rename(tmp, out)
    return out


def _san_tree():
    return _tree("san", "-std=c99 -fPIC " + SAN, [("spiped", "spiped"), ("spipe", "spipe")])


def simlib():
    with _Lock():
        d = _san_tree()
        return _link(d, os.path.join(BUILD, tree_hash(), "libsim.so"), ["simk.c", "glue.c", "glue_getopt.c"], WRAPS)


def softlib(kind="soft"):
    with _Lock():
        d = _tree(kind, "-std=c99 -fPIC " + SAN, [("spiped", "spiped"), ("spipe", "spipe")], soft=kind)
        return _link(d, os.path.join(BUILD, tree_hash(), "lib%s.so" % kind), ["simk.c", "glue.c", "glue_getopt.c"], WRAPS)


def sselib():
    return softlib("sse")


def bins():
    with _Lock():
        return _san_tree()


FAULTS = ("malloc calloc realloc strdup socket socketpair bind listen connect accept setsockopt getsockopt shutdown poll recv send read write "
          "clock_gettime pipe fork fopen pthread_create pthread_mutex_init pthread_cond_init open fcntl close").split()


def faultbins():
    """The programs (ASan) with csrc/faultk.c between them and the system."""
    with _Lock():
        d = _san_tree()
        out = os.path.join(BUILD, tree_hash(), "fault")
        if not os.path.exists(os.path.join(out, "spipe", "spipe")):
            os.makedirs(out, exist_ok=True)
            o = os.path.join(out, "faultk.o")
            _run(["gcc", "-std=gnu11", "-O1", "-Wall", "-fno-builtin", "-c", os.path.join(VERIF, "csrc", "faultk.c"), "-o", o], d)
            lib = _objs(d, ())
            for p in ("spiped", "spipe"):
                os.makedirs(os.path.join(out, p), exist_ok=True)
                t = os.path.join(out, p, p)
                _run(["gcc", "-fsanitize=address,undefined", *["-Wl,--wrap=" + w for w in FAULTS], "-o", t + ".tmp", o,
                      *sorted(glob.glob(os.path.join(d, p, "*.o"))), *lib, "-lcrypto", "-lpthread", "-lrt"], d)
                os.rename(t + ".tmp", t)
        return out


def plainbins():
    with _Lock():
        return _tree("plain", "-std=c99 -O2", [("spiped", "spiped"), ("spipe", "spipe")])


def eraselib(kind="soft"):
    """Ordinary -O2 objects with csrc/erase.c (no sanitizers, which would move the stack)."""
    with _Lock():
        d = _tree("o2" + kind, "-std=c99 -fPIC -O2", [("spiped", "spiped"), ("spipe", "spipe")], soft=None if kind == "native" else kind)
        out = os.path.join(BUILD, tree_hash(), "liberase-%s.so" % kind)
        if not os.path.exists(out):
            _run(["gcc", "-std=gnu11", "-O1", "-Wall", "-fPIC", "-shared", "-Wl,-Bsymbolic", "-Wl,--wrap=entropy_read", "-I" + os.path.join(d, "libcperciva/alg"), "-o", out + ".tmp",
                  os.path.join(VERIF, "csrc", "erase.c"), *_objs(d, ()), "-lcrypto", "-lpthread", "-lrt"], d)
            os.rename(out + ".tmp", out)
        return out


BLOCKS = ("write read syslog vsyslog closelog malloc free clock_gettime clock_getres nanosleep fork pthread_create pthread_mutex_init pthread_cond_init "
          "pthread_mutex_lock pthread_mutex_unlock pthread_cond_wait pthread_cond_signal pthread_cond_destroy pthread_mutex_destroy").split()


def blocklib():
    """The sanitized objects with csrc/blocks.c between them and the system."""
    with _Lock():
        d = _san_tree()
        return _link(d, os.path.join(BUILD, tree_hash(), "libblocks.so"), ["blocks.c"], BLOCKS)


TSWRAPS = "getaddrinfo pthread_mutex_lock pthread_mutex_unlock pthread_cond_wait pthread_cond_signal pthread_create write".split()


def tsanbins():
    """The programs and csrc/tsandns.c, with ThreadSanitizer."""
    with _Lock():
        d = _tree("tsan", "-std=c99 -O1 -g -fsanitize=thread", [("spiped", "spiped"), ("spipe", "spipe")])
        out = os.path.join(d, "tsandns")
        if not os.path.exists(out):
            inc = ["-I" + os.path.join(d, x) for x in ("libcperciva/events", "libcperciva/util", "lib/dnsthread", "lib/util")]
            _run(["gcc", "-std=gnu11", "-O1", "-g", "-Wall", *(TSLD % d).split(), *["-Wl,--wrap=" + w for w in TSWRAPS], *inc, "-o", out + ".tmp",
                  os.path.join(VERIF, "csrc", "tsandns.c"), *_objs(d, ()), "-lcrypto", "-lpthread", "-lrt"], d)
            os.rename(out + ".tmp", out)
        return d


CTWRAPS = ("fread entropy_read send AES_set_encrypt_key AES_encrypt crypto_dh_compute crypto_verify_bytes crypto_aesctr_stream crypto_aesctr_buf BN_mod_exp BN_mod_exp_mont BN_mod_exp_simple").split()


def ctbin():
    """csrc/ct.c with the portable code, all with MemorySanitizer."""
    with _Lock():
        d = _tree("msan", "-std=c99 -O1 -g -fsanitize=memory -fno-sanitize-memory-param-retval", [], soft="soft", cc="clang")
        out = os.path.join(d, "ct")
        if not os.path.exists(out):
            inc = ["-I" + os.path.join(d, x) for x in ("libcperciva/alg", "libcperciva/crypto", "libcperciva/events", "libcperciva/util", "lib/proto")]
            _run(["clang", "-std=gnu11", "-O1", "-g", "-Wall", "-Wno-deprecated-declarations", "-fsanitize=memory", "-fno-sanitize-memory-param-retval", *["-Wl,--wrap=" + w for w in CTWRAPS], *inc, "-o", out + ".tmp",
                  os.path.join(VERIF, "csrc", "ct.c"), *_objs(d, ()), "-lcrypto", "-lpthread", "-lrt"], d)
            os.rename(out + ".tmp", out)
        return out


HW = ("SHA256_Transform_shani SHA256_Transform_sse2 crypto_aes_key_expand_aesni crypto_aes_encrypt_block_aesni crypto_aes_encrypt_block_aesni_m128i "
      "AES_encrypt generate_seed_rdrand entropy_read").split()


def hwlib():
    """Ordinary -O2 objects on a made-up CPU (csrc/hw.c)."""
    with _Lock():
        d = _tree("o2native", "-std=c99 -fPIC -O2", [("spiped", "spiped"), ("spipe", "spipe")])
        out = os.path.join(BUILD, tree_hash(), "libhw.so")
        if not os.path.exists(out):
            inc = ["-I" + os.path.join(d, "libcperciva", x) for x in ("alg", "cpusupport", "crypto", "util")]
            objs = [o for o in _objs(d, ()) if not os.path.basename(o).startswith("cpusupport_x86_")]
            for c in sorted(glob.glob(os.path.join(d, "libcperciva", "cpusupport", "cpusupport_x86_*.c"))):
                o = out + "." + os.path.basename(c) + ".o"
                _run(["gcc", "-std=c99", "-O2", "-fPIC", "-I" + os.path.join(VERIF, "csrc"), *inc, "-I" + d, '-DCPUSUPPORT_CONFIG_FILE="cpusupport-config.h"', "-c", c, "-o", o], d)
                objs.append(o)
            _run(["gcc", "-std=gnu11", "-O1", "-Wall", "-fPIC", "-shared", "-Wl,-Bsymbolic", *["-Wl,--wrap=" + w for w in HW], *inc, "-I" + d, "-o", out + ".tmp",
                  os.path.join(VERIF, "csrc", "hw.c"), *objs, "-lcrypto", "-lpthread", "-lrt"], d)
            os.rename(out + ".tmp", out)
        return out


def preload():
    """libpreload.so, to be preloaded into the plain programs."""
    with _Lock():
        out = os.path.join(BUILD, tree_hash(), "libpreload.so")
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            _run(["gcc", "-O1", "-Wall", "-fPIC", "-shared", "-o", out + ".tmp", os.path.join(VERIF, "csrc", "preload.c"), "-ldl"], VERIF)
            os.rename(out + ".tmp", out)
        return out


def asan_preload():
    return subprocess.check_output(["gcc", "-print-file-name=libasan.so"]).decode().strip()


LIBS = {"sim": simlib, "soft": softlib, "sse": sselib}
BINS = {"san": bins, "plain": plainbins, "preload": preload, "fault": faultbins, "blocks": blocklib, "hw": hwlib, "tsan": tsanbins, "ct": ctbin,
        "erase": lambda: [eraselib(k) for k in ("soft", "sse", "native")]}


def setup():
    simlib(); softlib(); sselib(); bins(); plainbins(); preload(); faultbins(); blocklib(); hwlib(); tsanbins(); ctbin()
    for k in ("soft", "sse", "native"):
        eraselib(k)


if __name__ == "__main__":
    setup()
    print("built", os.path.join(BUILD, tree_hash()))
