"""Builds the MIR driver and dumps the resolved program reachable from roots/, from /repo's
current working tree.  Results are cached under /verif/build, keyed on the content of the inputs."""
import fcntl, hashlib, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SKIP = ("@rayon;@rayon_core;@rand;@rand_core;@parity_scale_codec;@blake2b_simd;"
        "std::fmt;core::fmt;alloc::fmt")
CRATES = "zkstd,bn_254,grumpkin,zkgroth16,zknova"


class BuildError(Exception):
    pass


def digest(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            fs = [root]
        else:
            fs = []
            for d, ds, names in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
                fs += [os.path.join(d, n) for n in sorted(names)
                       if n.endswith((".rs", ".toml", ".lock"))]
        for f in fs:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def run(cmd, env=None, cwd=None, what=""):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        tail = "\n".join(r.stdout.splitlines()[-60:])
        raise BuildError("%s failed (exit %d)\n%s" % (what, r.returncode, tail))
    return r.stdout


def base_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
        env.pop(k, None)
    env["RUSTUP_TOOLCHAIN"] = "nightly"
    return env


def sysroot():
    return run(["rustc", "+nightly", "--print", "sysroot"], env=base_env(), what="rustc").strip()


def driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    out = os.path.join(BUILD, "mirdump-" + digest([src]))
    if not os.path.exists(out):
        tmp = out + ".tmp"
        run(["rustc", "+nightly", "--edition", "2024", "-O", src, "-o", tmp], env=base_env(), what="driver build")
        os.rename(tmp, out)
    return out


def vendor_args():
    v = "/opt/vp/vendor"
    if os.path.isdir(v):
        return ["--config", 'source.crates-io.replace-with="vp-vendor"',
                "--config", 'source.vp-vendor.directory="%s"' % v]
    return []


def extract():
    """path of the JSONL dump of the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    roots = os.path.join(VERIF, "roots")
    key = digest([REPO, os.path.join(roots, "src"), os.path.join(roots, "Cargo.toml"),
                  os.path.join(roots, "Cargo.lock"),
                  os.path.join(VERIF, "driver", "main.rs"), os.path.abspath(__file__)])
    out = os.path.join(BUILD, "mir-%s.jsonl" % key)
    if os.path.exists(out):
        return out
    drv = driver()
    for f in os.listdir(BUILD):
        if f.startswith("mir-") and f.endswith(".jsonl"):
            os.unlink(os.path.join(BUILD, f))
    work = roots
    if REPO != "/repo":
        # analyse another tree: a copy of the root crate with its path dependencies moved
        work = os.path.join(BUILD, "roots-copy")
        shutil.rmtree(work, ignore_errors=True)
        shutil.copytree(roots, work, ignore=shutil.ignore_patterns("target"))
        p = os.path.join(work, "Cargo.toml")
        t = open(p).read().replace('"/repo/', '"%s/' % REPO)
        open(p, "w").write(t)
    env = base_env()
    tmp = out + ".tmp"
    env.update(CARGO_TARGET_DIR=os.path.join(BUILD, "target"), RUSTC_WORKSPACE_WRAPPER=drv,
               LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"), VERIF_ROOT_CRATE="verif_roots",
               VERIF_MIR_OUT=tmp, VERIF_CRATES=CRATES, VERIF_MIR_SKIP=SKIP, CARGO_NET_OFFLINE="true",
               RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=off "
                         "-Cdebug-assertions=off --cap-lints allow")
    if os.path.exists(tmp):
        os.unlink(tmp)
    # cargo only reruns the driver when it believes an input changed
    for f in os.listdir(os.path.join(work, "src")):
        os.utime(os.path.join(work, "src", f))
    run(["cargo", "check", "--lib", "--offline"] + vendor_args(), env=env, cwd=work, what="extraction")
    if not os.path.exists(tmp):
        raise BuildError("extraction produced no dump")
    with open(tmp, "rb") as fh:
        fh.seek(0, 2)
        n = fh.tell()
        fh.seek(max(0, n - 4096))
        if b'"END"' not in fh.read():
            raise BuildError("extraction produced a truncated dump")
    os.rename(tmp, out)
    return out


if __name__ == "__main__":
    print(extract())
