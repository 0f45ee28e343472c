#!/usr/bin/env python3
"""Builds the check binaries from /repo's current working tree plus /verif's harness.

usage: build.py VARIANT NAME...   (variant: asan, tsan, fuzz)  -> /verif/build/<variant>/<NAME>
NAME is props/<NAME>.cpp. Everything is (re)built by ninja with dependency files.
"""
import glob, os, subprocess, sys, fcntl

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("SEC_REPO", "/repo") + "/reference"
B = V + "/build"

SAN = {
    "asan": "-fsanitize=address,bounds -fno-sanitize-recover=bounds",
    "tsan": "-fsanitize=thread",
    "fuzz": "-fsanitize=address,bounds,fuzzer-no-link -fno-sanitize-recover=bounds -DPBT_LIBFUZZER",
}
LINKSAN = {"asan": "-fsanitize=address,bounds", "tsan": "-fsanitize=thread", "fuzz": "-fsanitize=address,bounds,fuzzer"}
WRAP = " ".join("-Wl,--wrap=" + f for f in
                "time video_output_poll transport_authenticate_caller malloc calloc realloc free CRYPTO_set_mem_functions "
                "sa_key_release sa_crypto_cipher_release sa_crypto_mac_release BN_free EC_POINT_free CRYPTO_free EVP_DecryptInit_ex EVP_DecryptUpdate".split())
# the tsan variant runs threads under /verif's own scheduler: it needs to see every lock, every basic block and every sleep
WRAP_V = {"tsan": " " + " ".join("-Wl,--wrap=" + f for f in
                                 "pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_once sleep usleep nanosleep sched_yield".split())}
COV = {"tsan": " -fsanitize-coverage=trace-pc-guard"}
INC = " ".join("-I%s/%s" % (R, d) for d in
               "include src/client/include src/client/src src/taimpl/include src/taimpl/include/internal src/util/include "
               "src/clientimpl/src/internal src/clientimpl/src/porting".split())
DEF = '-D_GNU_SOURCE -DENABLE_SOC_KEY_TESTS -DDATA_DIR=\\"%s/data\\" -DREPO_TEST=\\"%s/test\\"' % (V, R)


def sources(provider):
    s = []
    for d in ("taimpl", "clientimpl", "util"):
        s += glob.glob("%s/src/%s/src/**/*.c" % (R, d), recursive=True)
    if provider:
        s += [f for f in glob.glob("%s/src/client/src/**/*.c" % R, recursive=True)]
    return sorted(s)


def main():
    variant, names = sys.argv[1], sys.argv[2:]
    d = B + "/" + variant
    os.makedirs(d, exist_ok=True)
    lock = open(d + "/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    opt = "-O1 -g -fno-omit-frame-pointer -fPIC -w"
    out = ["cflags = %s %s %s %s" % (opt, SAN[variant], DEF, INC),
           "cxxflags = -std=gnu++17 %s %s -I%s/harness %s %s" % (opt, SAN[variant], V, DEF, INC),
           "rule cc", "  command = clang%s $cflags -MD -MF $out.d -c $in -o $out" % COV.get(variant, ""), "  depfile = $out.d", "  deps = gcc",
           "rule cxx", "  command = clang++ $cxxflags -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
           "rule ar", "  command = rm -f $out && ar crs $out $in",
           "rule link", "  command = clang++ %s %s $in -o $out -lcrypto -lyajl -lpthread" % (LINKSAN[variant], WRAP + WRAP_V.get(variant, ""))]
    seen = set()

    def obj(src):
        o = "%s/obj/%s.o" % (d, src.replace("/", "_"))
        if o not in seen:
            seen.add(o)
            out.append("build %s: %s %s" % (o, "cc" if src.endswith(".c") else "cxx", src))
        return o

    harness = [V + "/harness/pbt.cpp", V + "/harness/sec.cpp"]
    for n in names:
        src = "%s/props/%s.cpp" % (V, n)
        provider = "//@provider" in open(src).read(200)
        objs = [obj(s) for s in [src] + harness + sources(provider)]
        out.append("build %s/%s: link %s" % (d, n, " ".join(objs)))
    nf = "%s/build-%s.ninja" % (d, "_".join(names)[:80])
    text = "builddir = %s\n" % d + "\n".join(out) + "\n"
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    env = dict(os.environ)
    r = subprocess.run(["ninja", "-f", nf] + ["%s/%s" % (d, n) for n in names], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, env=env)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
