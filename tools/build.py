"""Builds cernan from /repo's working tree (hooks on) and links witness programs against it."""
import fcntl, glob, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CERNAN_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", VERIF + "/.cache")
TARGET = CACHE + "/target"
CARGO_HOME = CACHE + "/cargo-home"
HOOK_CFG = "cernan_verif"


def env():
    e = dict(os.environ)
    for k in ("RUSTC", "RUSTC_WRAPPER", "RUSTFLAGS", "RUST_BACKTRACE"):
        e.pop(k, None)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="1.39.0", CARGO_HOME=CARGO_HOME,
             CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
             CARGO_TERM_COLOR="never", LANG=e.get("LANG", "C.UTF-8"))
    e["PATH"] = "/root/.cargo/bin:" + e["PATH"]
    return e


class BuildError(Exception):
    pass


def seed():
    """Copy the dependency artifacts of /repo/target so that only cernan itself is compiled."""
    if os.path.isdir(TARGET + "/debug/deps"):
        return
    os.makedirs(TARGET + "/debug", exist_ok=True)
    src = REPO + "/target/debug"
    if not os.path.isdir(src + "/deps"):
        src = "/repo/target/debug"
    for d in ("deps", ".fingerprint", "build"):
        if os.path.isdir(src + "/" + d):
            subprocess.call(["cp", "-a", src + "/" + d, TARGET + "/debug/"])
    for f in glob.glob(TARGET + "/debug/.fingerprint/cernan-*"):
        shutil.rmtree(f, ignore_errors=True)
    for f in glob.glob(TARGET + "/debug/deps/*cernan-*"):
        os.unlink(f)


def build_lib(hooks=True):
    """Returns dict: crate name -> rlib, plus native search paths."""
    os.makedirs(CACHE, exist_ok=True)
    with open(CACHE + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # a cargo home of our own, with the settings of /opt/vp's: cargo writes into it
        os.makedirs(CARGO_HOME, exist_ok=True)
        shutil.copyfile("/opt/vp/cargo-home/config", CARGO_HOME + "/config")
        seed()
        for f in glob.glob(TARGET + "/debug/.fingerprint/cernan-*"):
            shutil.rmtree(f, ignore_errors=True)
        cmd = ["cargo", "rustc", "--lib", "--offline", "--locked", "--message-format=json"]
        cmd += ["--", "-C", "debuginfo=0"]
        if hooks:
            cmd += ["--cfg", HOOK_CFG]
        p = subprocess.run(cmd, cwd=REPO, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        libs, native = {}, []
        for ln in p.stdout.splitlines():
            try:
                j = json.loads(ln)
            except ValueError:
                continue
            if j.get("reason") == "compiler-artifact":
                for f in j["filenames"]:
                    if f.endswith(".rlib") or "proc-macro" in j["target"]["kind"]:
                        libs.setdefault(j["target"]["name"].replace("-", "_"), []).append((j["package_id"], f))
            elif j.get("reason") == "build-script-executed":
                native += j.get("linked_paths", [])
        if p.returncode != 0 or "cernan" not in libs:
            errs = []
            for ln in p.stdout.splitlines():
                try:
                    j = json.loads(ln)
                    if j.get("message", {}).get("level") == "error":
                        errs.append(j["message"]["rendered"])
                except (ValueError, AttributeError):
                    pass
            raise BuildError("cernan does not build:\n" + "\n".join(errs)[:3000] + p.stderr[-1500:])
        return libs, native


def direct_versions():
    """Versions of cernan's direct dependencies from Cargo.lock."""
    import re
    txt = open(REPO + "/Cargo.lock").read()
    res = {}
    for blk in txt.split("[[package]]"):
        if re.search(r'name = "cernan"', blk):
            for m in re.finditer(r'"([\w-]+) ([\d.]+[\w.-]*) ?', blk):
                res[m.group(1).replace("-", "_")] = m.group(2)
    return res


def splice(src):
    """`// @splice FILE INNER NAME`: .cache/splice/NAME is the text of FILE in /repo followed by that of
    witness/INNER, so that INNER sees the private items of FILE."""
    import re
    for f, inner, name in re.findall(r"^// @splice (\S+) (\S+) (\S+)$", open(src).read(), re.M):
        os.makedirs(VERIF + "/.cache/splice", exist_ok=True)
        with open(VERIF + "/.cache/splice/" + name, "w") as o:
            o.write(open(REPO + "/" + f).read() + "\n" + open(VERIF + "/witness/" + inner).read())


def shims(src, e):
    """`// @shim NAME`: witness/shim/NAME.rs stands for the crate NAME in what is spliced."""
    import re
    out = []
    for name in re.findall(r"^// @shim (\S+)$", open(src).read(), re.M):
        os.makedirs(VERIF + "/.cache/shim", exist_ok=True)
        lib = VERIF + "/.cache/shim/lib%s.rlib" % name
        cmd = ["rustc", "--edition", "2018", "--crate-type", "rlib", "--crate-name", name, "-C", "metadata=shim",
               "-C", "opt-level=1", "-A", "warnings", VERIF + "/witness/shim/%s.rs" % name, "-o", lib]
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise BuildError("stand-in for %s does not compile:\n%s" % (name, p.stderr[:4000]))
        out += ["--extern", name + "=" + lib]
    return out


def bins(src, libs, native):
    """`// @bin NAME CRATES`: .cache/bin/NAME is /repo's program NAME, which a witness runs."""
    import re
    for name, crates in re.findall(r"^// @bin (\S+) (.*)$", open(src).read(), re.M):
        os.makedirs(CACHE + "/bin", exist_ok=True)
        tmp = CACHE + "/bin/%s.%d" % (name, os.getpid())
        link(REPO + "/src/bin/%s.rs" % name, tmp, libs, native, crates.split())
        os.rename(tmp, CACHE + "/bin/" + name)


def link(src, out, libs, native, externs=()):
    splice(src)
    bins(src, libs, native)
    e = env()
    shim = shims(src, e)
    vers = direct_versions()
    cmd = ["rustc", "--edition", "2018", "-C", "debuginfo=0", "-C", "opt-level=1",
           "-A", "warnings", "-L", "dependency=" + TARGET + "/debug/deps", src, "-o", out,
           "-C", "link-arg=@/opt/vp/openssl-absent.args"]
    cmd += shim
    for n in native:
        cmd += ["-L", n]
    for c in ("cernan",) + tuple(externs):
        alias, _, c = c.rpartition("=")   # "alias=crate", or "crate"
        alias = alias or c
        cands = libs.get(c, [])
        if len(cands) > 1:
            v = vers.get(c)
            cands = [x for x in cands if v and (" " + v + " ") in x[0]] or cands
        if not cands:
            raise BuildError("no rlib for " + c)
        cmd += ["--extern", alias + "=" + cands[0][1]]
    p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise BuildError("witness program does not compile:\n" + p.stderr[:4000])


def dictionary(pid, proofs):
    """.cache/dict/ID: the integers, characters and short texts in the source files a property is anchored in,
    from which the witness programs draw some of their inputs."""
    import re
    files, seen = [], set()
    todo = list(proofs)
    while todo:
        pf = todo.pop()
        if pf in seen or not os.path.exists(VERIF + "/proofs/" + pf):
            continue
        seen.add(pf)
        t = open(VERIF + "/proofs/" + pf).read()
        files += re.findall(r"^/\*@ (?:fn|item) (\S+)", t, re.M)
        todo += re.findall(r"^//@include (\S+)", t, re.M)
    nums, words = set(), set()
    for f in sorted(set(files)):
        if not os.path.exists(REPO + "/" + f):
            continue
        t = open(REPO + "/" + f, errors="replace").read()
        t = t.split("#[cfg(test)]")[0]
        t = re.sub(r"//[^\n]*", "", t)
        for x in re.findall(r'"((?:[^"\\]|\\.)*)"', t) + re.findall(r"'([^'\\\s]|\\.)'", t):
            try:
                x = x.encode("latin1", "backslashreplace").decode("unicode_escape")
            except (UnicodeError, ValueError):
                continue
            if 0 < len(x) <= 12 and "{" not in x:
                words.add(x)
        for a in re.findall(r"\b(?:0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|size))?(?:\s*(?:\*|<<)\s*[0-9][0-9_]*)*", t):
            try:
                v = eval(re.sub(r"[ui](8|16|32|64|size)", "", a).replace("_", "").lstrip(), {"__builtins__": {}})
            except (SyntaxError, ValueError):
                try:
                    v = int(a.replace("_", ""))
                except ValueError:
                    continue
            if 1 < abs(v) < 2 ** 63:
                nums.add(v)
    os.makedirs(CACHE + "/dict", exist_ok=True)
    p = CACHE + "/dict/" + pid
    with open(p, "w") as o:
        for n in sorted(nums):
            o.write("n %d\n" % n)
        for w in sorted(words):
            o.write("w %s\n" % " ".join("%02x" % b for b in w.encode("utf8", "surrogatepass")))
    return p


if __name__ == "__main__":
    libs, native = build_lib()
    print(libs["cernan"], native)
