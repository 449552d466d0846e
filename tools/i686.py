"""The 32-bit build: std is built from source (rust-src of the nightly
toolchain) for i686-unknown-linux-gnu. There are 32-bit shared libraries here,
but no 32-bit start files or libgcc, so a minimal _start stands in for those
(shared libraries bring what else is needed)."""
import os, subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
TARGET = "i686-unknown-linux-gnu"
PROFILE = {"i686": "checked", "i686r": "release"}


def link_dir():
    d = os.path.join(VERIF, "build", "link32")
    done = os.path.join(d, "done")
    if os.path.exists(done):
        return d
    os.makedirs(d, exist_ok=True)

    def run(*a):
        subprocess.run(a, cwd=d, check=True)

    run("gcc", "-m32", "-c", os.path.join(HERE, "i686", "start.S"), "-o", "Scrt1.o")
    open(os.path.join(d, "empty.S"), "w").write('.section .note.GNU-stack,"",@progbits\n')
    for o in ("crti.o", "crtn.o", "crtbeginS.o", "crtendS.o"):
        run("gcc", "-m32", "-c", "empty.S", "-o", o)
    for a in ("libgcc.a", "libgcc_eh.a"):
        open(os.path.join(d, a), "wb").write(b"!<arch>\n")
    libs = {"libc.so": "libc.so.6", "libm.so": "libm.so.6", "libdl.so": "libdl.so.2", "libpthread.so": "libpthread.so.0",
            "librt.so": "librt.so.1", "libutil.so": "libutil.so.1", "libgcc_s.so": "libgcc_s.so.1"}
    for a, b in libs.items():
        p = os.path.join(d, a)
        if not os.path.islink(p):
            os.symlink(os.path.join("/usr/lib32", b), p)
    cc = os.path.join(d, "cc")
    open(cc, "w").write('#!/bin/sh\nexec gcc -B"%s" -L"%s" "$@"\n' % (d, d))
    os.chmod(cc, 0o755)
    open(done, "w").close()
    return d


def start_build(env, variant, binary):
    d = link_dir()
    env = dict(env, RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER=os.path.join(d, "cc"))
    env.pop("RUSTC_WRAPPER", None)
    cmd = ["cargo", "build", "--offline", "-q", "-Zbuild-std=std,panic_unwind", "--target", TARGET,
           "--profile", PROFILE[variant], "--bin", binary,
           "--config", "profile.%s.package.harness.opt-level=1" % PROFILE[variant],
           "--config", "profile.%s.debug=false" % PROFILE[variant]]
    return subprocess.Popen(cmd, cwd=os.path.join(VERIF, "harness"), env=env,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def exe(variant, binary):
    return os.path.join(VERIF, "build", variant, TARGET, PROFILE[variant], binary)
