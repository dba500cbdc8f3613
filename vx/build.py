"""Builds the harness crate against /repo's current tree, links and simplifies its LLVM IR."""
import glob
import os
import re
import shutil
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
TC = "stable-x86_64-unknown-linux-gnu"
CRATES = re.compile(r"^(mh|momentous|numcmp|num_\w+|autocfg)-[0-9a-f]+\.bc$")


class BuildError(Exception):
    pass


def home():
    return os.environ.get("RUSTUP_HOME") or os.path.expanduser("~/.rustup")


def llvm(tool):
    p = os.path.join(home(), "toolchains", TC, "lib/rustlib/x86_64-unknown-linux-gnu/bin", tool)
    if not os.path.exists(p):
        p = os.path.join("/root/.rustup/toolchains", TC, "lib/rustlib/x86_64-unknown-linux-gnu/bin", tool)
    return p


def run(cmd, env=None, cwd=None, tmo=600):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tmo)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd[:6]), r.stdout[-4000:]))
    return r.stdout


def base_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "TZDIR"):
            del e[k]
    e["RUSTUP_TOOLCHAIN"] = TC
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTC_BOOTSTRAP"] = "1"
    return e


HOOK = "--cfg momentous_verif "


def hooked(harnesses):
    """only the harnesses of private items are built with the hooks"""
    return any(re.match(r"h_(c19|c20|spec)_", h) for h in harnesses)


def build_ir(target, harnesses, profile="vx"):
    """-> path of the .ll text"""
    e = base_env()
    hk = hooked(harnesses)
    e["RUSTFLAGS"] = (HOOK if hk else "") + "--emit=llvm-bc -C no-prepopulate-passes -Z share-generics=n -C embed-bitcode=no -A warnings"
    tdir = os.path.join(target, profile + ("-ht" if hk else "-t"))
    run(["cargo", "build", "--offline", "--lib", "--profile", profile, "--target-dir", tdir] + (["--features", "hooks"] if hk else []), env=e, cwd=HARNESS)
    deps = os.path.join(tdir, profile, "deps")
    newest = {}
    for f in os.listdir(deps):
        if CRATES.match(f):
            c, t = f.rsplit("-", 1)[0], os.path.getmtime(os.path.join(deps, f))
            newest[c] = max(newest.get(c, (0, "")), (t, f))
    bcs = sorted(f for _, f in newest.values())
    if not any(f.startswith("momentous-") for f in bcs) or not any(f.startswith("mh-") for f in bcs):
        raise BuildError("bitcode missing in " + deps)
    all_bc = os.path.join(target, profile + ".all.bc")
    run([llvm("llvm-link")] + [os.path.join(deps, f) for f in bcs] + ["-o", all_bc])
    return all_bc


STUBS = ["vx_stub_join", "vx_stub_var", "vx_stub_read", "vx_stub_parse", "vx_stub_now", "vx_stub_since", "vx_stub_gmtime"]


def reduce_ir(all_bc, harnesses, out):
    o = out + ".bc"
    run([llvm("opt"), "-passes=internalize,globaldce,function(sroa),cgscc(inline),function(sroa,instsimplify,early-cse),globaldce",
         "-internalize-public-api-list=" + ",".join(list(harnesses) + STUBS), all_bc, "-o", o])
    run([llvm("llvm-dis"), o, "-o", out])
    return out


def functions(all_bc, harnesses):
    """functions of the crate under test that the harnesses reach (before inlining), demangled"""
    text = run([llvm("llvm-dis"), all_bc, "-o", "-"])
    calls, cur = {}, None
    for l in text.split("\n"):
        if l.startswith("define "):
            m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
            cur = calls.setdefault(m.group(1), set())
        elif l.startswith("}"):
            cur = None
        elif cur is not None and "@" in l:
            cur.update(re.findall(r'@("[^"]*"|[-\w.$]+)', l))
    seen, todo = set(), list(harnesses)
    while todo:
        f = todo.pop()
        if f not in seen and f in calls:
            seen.add(f)
            todo += calls[f]
    names = sorted(f for f in seen if "momentous" in f)
    try:
        names = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True).stdout.split("\n")
    except OSError:
        pass
    names = [re.sub(r"\[[0-9a-f]{8,}\]", "", n) for n in names]
    return sorted(set(n for n in names if re.match(r"<?&?(mut )?momentous::", n)))


def build_native(target, harnesses, profile="dev"):
    e = base_env()
    hk = hooked(harnesses)
    e["RUSTFLAGS"] = (HOOK if hk else "") + "-A warnings"
    tdir = os.path.join(target, "native-ht" if hk else "native-t")
    run(["cargo", "build", "--offline", "--features", "native,hooks" if hk else "native", "--bin", "replay", "--profile", profile, "--target-dir", tdir], env=e, cwd=HARNESS)
    return os.path.join(tdir, "debug" if profile == "dev" else profile, "replay")


def noreturn_decls(text):
    """names of external functions that never return (panics, aborts)"""
    groups = {}
    for m in re.finditer(r"^attributes (#\d+) = \{(.*)\}", text, re.M):
        groups[m.group(1)] = "noreturn" in m.group(2)
    out = set()
    for m in re.finditer(r'^(?:declare|define) [^\n]*?@("(?:[^"\\]|\\.)*"|[-\w.$]+)\([^\n]*', text, re.M):
        l = m.group(0)
        g = re.search(r"\) .*?(#\d+)", l)
        if (g and groups.get(g.group(1))) or " noreturn " in l:
            n = m.group(1).strip('"')
            if l.startswith("declare"):
                out.add(n)
    return out
