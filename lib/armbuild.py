"""Builds the ops for AArch64 (clang can target it; there is no emulator here) and an
ops_driver that runs them by interpretation (arm/a64*.h)."""
import glob, os, re, shutil, subprocess
import vlib
from vlib import CheckError

LLVM = "/usr/lib/llvm-18/bin/"
OPS = ("bconv2d.cc", "bmaxpool.cc", "quantization.cc")
FLAGS = ["--target=aarch64-linux-gnu", "-std=c++17", "-fwrapv", "-w", "-DTFLITE_WITH_RUY", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-fno-exceptions", "-fno-rtti",
         "-fno-asynchronous-unwind-tables", "-fno-pic", "-nostdinc++", "-DRUY_SHIM_REMOTE", "-DRUY_PLATFORM_NEON=1", "-DRUY_PLATFORM_NEON_64=1", "-DRUY_PLATFORM_ARM_64=1", "-DRUY_PLATFORM_ARM=1"]
SYS = "/usr/include/x86_64-linux-gnu"


def headers(dst):
    """The host's system headers, where they ask for x86-64, asked for nothing."""
    cxx = sorted(glob.glob(SYS + "/c++/*"), key=lambda p: int(os.path.basename(p)))[-1]
    for root in (SYS + "/bits", SYS + "/gnu", SYS + "/sys", cxx + "/bits"):
        for d, _, fs in os.walk(root):
            for f in fs:
                p = os.path.join(d, f)
                t = open(p, errors="replace").read()
                if "__x86_64__" not in t or f == "floatn.h":
                    continue
                q = os.path.join(dst, os.path.relpath(p, cxx if p.startswith(cxx) else SYS))
                os.makedirs(os.path.dirname(q), exist_ok=True)
                t = re.sub(r"defined *\(? *__x86_64__ *\)?", "1", t)
                t = re.sub(r"#( *)ifdef +__x86_64__", r"#\1if 1", t)
                t = re.sub(r"#( *)ifndef +__x86_64__", r"#\1if 0", t)
                open(q, "w").write(t)
    os.makedirs(dst + "/gnu", exist_ok=True)
    open(dst + "/gnu/stubs.h", "w").close()
    open(dst + "/bits/wordsize.h", "w").write("#define __WORDSIZE 64\n#define __WORDSIZE_TIME64_COMPAT32 1\n")
    return ["-isystem", dst, "-isystem", "/usr/include/c++/" + os.path.basename(cxx), "-isystem", cxx, "-isystem", SYS, "-isystem", "/usr/include"]


def out(cmd):
    r = vlib.sh(cmd)
    if r.returncode:
        raise CheckError("%s failed\n%s" % (" ".join(cmd)[:300], r.stderr[-2000:]))
    return r.stdout


def image(dst, objs):
    """Links the objects at fixed addresses; writes image.elf, image.dis, image.sym."""
    one = os.path.join(dst, "all.o")
    out([LLVM + "ld.lld", "-r", "-o", one] + objs)
    und = [l.split()[-1] for l in out([LLVM + "llvm-nm", "-u", one]).splitlines()]
    host = [(0x30000000 + 16 * i, s) for i, s in enumerate(und)]
    elf = os.path.join(dst, "image.elf")
    out([LLVM + "ld.lld", "-e", "0", "--image-base=0x20000000", "-z", "norelro", "-o", elf] + ["--defsym=%s=0x%x" % (s, a) for a, s in host] + [one])
    with open(os.path.join(dst, "image.dis"), "w") as f:
        for l in out([LLVM + "llvm-objdump", "-d", "--no-show-raw-insn", elf]).splitlines():
            m = re.match(r"\s*([0-9a-f]+):\s+(\S+)(?:\s+(.*))?$", l)
            if m:
                f.write("%s\t%s\t%s\n" % (m.group(1), m.group(2), re.sub(r"\s*(//|<).*", "", m.group(3) or "")))
    with open(os.path.join(dst, "image.sym"), "w") as f:
        for a, s in host:
            f.write("! %x %s\n" % (a, s))
        for l in out([LLVM + "llvm-nm", elf]).splitlines():
            p = l.split()
            m = re.match(r"_ZN14compute_engine6tflite\d+(Register_\w+?)Ev$", p[-1])
            if len(p) == 3 and m:
                f.write("%s %s\n" % (p[0], m.group(1)))
        sec = [l.split() for l in out([LLVM + "llvm-objdump", "-h", elf]).splitlines() if ".init_array" in l]
        for s in sec:
            raw = out([LLVM + "llvm-objdump", "-s", "-j", ".init_array", elf])
            hx = "".join("".join(re.match(r"\s*[0-9a-f]+ ((?:[0-9a-f]+ ?)+?)  ", l).group(1).split()) for l in raw.splitlines() if re.match(r"\s[0-9a-f]{4,} ", l))
            b = bytes.fromhex(hx)
            for i in range(0, len(b), 8):
                f.write("%x __init_fn_%02d\n" % (int.from_bytes(b[i:i + 8], "little"), i // 8))
    os.unlink(one)


SAN = ["-g", "-fsanitize=address"]


def build(opt="-O1", sanitize=False, defs=()):
    """-> the driver's path.  sanitize: the interpreter's own memory accesses,
    which are those of the interpreted code, are checked."""
    lce = os.path.join(vlib.REPO, "larq_compute_engine")
    shim = os.path.join(vlib.VERIF, "shim", "include")
    arm = os.path.join(vlib.VERIF, "arm")
    drv = os.path.join(vlib.VERIF, "drivers", "ops_driver.cc")
    flags = FLAGS + [opt] + list(defs)
    hflags = list(vlib.KFLAGS) + ["-O2"] + (SAN if sanitize else [])
    key = vlib.tree_hash([os.path.join(lce, "core"), os.path.join(lce, "tflite", "kernels"), shim, arm, drv, __file__], " ".join(flags + hflags))

    def builder(dst):
        inc = headers(os.path.join(dst, "inc"))
        objs = [os.path.join(dst, f + ".arm.o") for f in OPS]
        host = [(drv, os.path.join(dst, "driver.o")), (os.path.join(arm, "a64_ops.cc"), os.path.join(dst, "a64_ops.o"))]
        vlib.parallel_compile([[LLVM + "clang++"] + flags + inc + ["-I" + shim, "-I" + vlib.REPO, "-c", os.path.join(lce, "tflite/kernels", f), "-o", o] for f, o in zip(OPS, objs)] +
                              [["g++"] + hflags + ["-I" + shim, "-I" + vlib.REPO, "-c", s, "-o", o] for s, o in host])
        image(dst, objs)
        vlib.parallel_compile([["g++", "-rdynamic"] + (SAN if sanitize else []) + [o for _, o in host] + ["-ldl", "-lpthread", "-o", os.path.join(dst, "ops_driver")]])
        shutil.rmtree(os.path.join(dst, "inc"))
    name = "ops-a64" + ("-san" if sanitize else "") + opt + "".join(defs).replace("-D", "-").replace("=", "")
    return os.path.join(vlib.locked_build(name, key, builder), "ops_driver")
