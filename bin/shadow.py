"""The on-chain build of /repo's crates, made verifiable.

The crates select, by `cfg(target_os = "solana")`, code that calls the Solana
runtime.  Kani compiles for the host, where that code is absent.  `prepare`
copies the crates' sources from /repo's current tree into .build/shadow and
applies exactly these mechanical rewrites, none of which adds or removes a
line:
  1. `target_os = "solana"` becomes `unix` (the on-chain branches are taken,
     the host stand-ins are dropped);
  2. `pinocchio::syscalls` becomes `ghost_syscalls`, a crate whose functions
     state the runtime's contract: they record what they were given and return
     unconstrained results;
  3. a module-level `fn` of the listed files becomes `pub fn`, so that its
     contract can be stated on its own; in the program crate, `pub(crate)`
     becomes `pub`, and `mod error` is public.
  4. for the program crate, the calls of the pinocchio library into the
     runtime (cross-program calls, clock and rent, program addresses, memory
     operations) are `ghost_syscalls` too, by the same two rewrites.
The program crate's build script, security text and entry point are left out;
`shank` and `pinocchio-token` (not available offline) are stood in for by
shadow/shank and shadow/token.
Test modules stay in place (they are not compiled).
"""
import glob, os, re, shutil
REPO = "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATES = ["assertions", "state", "instructions", "no-padding", "program"]

def rewrite(path, text):
    text = text.replace('target_os = "solana"', "unix").replace("pinocchio::syscalls", "ghost_syscalls")
    if path.startswith("state/src/authority/") or path in ("program/src/util/mod.rs", "program/src/actions/replace_authority_v1.rs", "program/src/actions/update_authority_v1.rs", "program/src/actions/sign_v2.rs"):
        head, sep, tail = text.partition("#[cfg(test)]\nmod tests")
        text = re.sub(r"(?m)^(unsafe )?fn ", r"pub \1fn ", head) + sep + tail
    if path.startswith("program/src/"):
        head, sep, tail = text.partition("#[cfg(test)]\nmod tests")
        text = re.sub(r"\bpub\(crate\) ", "pub ", head) + sep + tail
        if path == "program/src/lib.rs":
            head, sep, tail = text.partition("#[cfg(test)]\nmod tests")
            text = re.sub(r"(?m)^(unsafe )?fn ", r"pub \1fn ", head).replace("\nmod error;", "\npub mod error;") + sep + tail
    return text

def put(path, text):
    if os.path.exists(path) and open(path).read() == text: return
    os.makedirs(os.path.dirname(path), exist_ok=True); open(path, "w").write(text)

def prepare(build, crates=CRATES):
    root = os.path.join(build, "shadow"); keep = set()
    def out(rel, text):
        p = os.path.join(root, rel); keep.add(p); put(p, text)
    top = open(os.path.join(REPO, "Cargo.toml")).read()
    top = re.sub(r"members = \[.*?\]", "members = [" + ", ".join(f'"{c}"' for c in crates) + "]", top, flags=re.S)
    top = re.sub(r'(?m)^default-"?members.*\n', "", top); top = re.sub(r'default-members = .*\n', "", top)
    out("Cargo.toml", top[:top.find("[workspace.lints")])
    for c in crates:
        toml = open(os.path.join(REPO, c, "Cargo.toml")).read()
        toml = re.sub(r"(?ms)^\[(target\.[^\]]*)?dev-dependencies\].*?(?=^\[|\Z)", "", toml)
        toml = re.sub(r"(?ms)^\[build-dependencies\].*?(?=^\[|\Z)", "", toml)
        toml = re.sub(r"(?ms)^\[lints[^\]]*\].*?(?=^\[|\Z)", "", toml)
        if c == "program":
            toml = re.sub(r"(?m)^(solana-security-txt|default-env) .*\n", "", toml)
            toml = re.sub(r"(?m)^shank .*", f'shank = {{ path = "{V}/shadow/shank" }}', toml)
            toml = re.sub(r"(?m)^pinocchio-token .*", f'pinocchio-token = {{ path = "{V}/shadow/token" }}', toml)
        if c != "no-padding":
            toml = toml.replace("[dependencies]\n", f'[dependencies]\nghost_syscalls = {{ path = "{V}/shadow/ghost" }}\n', 1)
        out(c + "/Cargo.toml", toml)
        for r, ds, fs in os.walk(os.path.join(REPO, c, "src")):
            for f in fs:
                if not f.endswith(".rs"): continue
                p = os.path.join(r, f); rel = os.path.relpath(p, REPO)
                out(rel, rewrite(rel, open(p).read()))
    if "program" in crates:
        # the runtime's own calls, for whole instruction handlers
        src = sorted(glob.glob(os.path.expanduser("~/.cargo/registry/src/*/pinocchio-0.9.0")))[0]
        out("pinocchio/Cargo.toml", '[package]\nname = "pinocchio"\nversion = "0.9.0"\nedition = "2021"\n[features]\nstd = []\n[dependencies]\n' + f'ghost_syscalls = {{ path = "{V}/shadow/ghost" }}\n[lints.rust]\nunexpected_cfgs = "allow"\n')
        for r, ds, fs in os.walk(os.path.join(src, "src")):
            for f in fs:
                if not f.endswith(".rs"): continue
                p = os.path.join(r, f); rel = os.path.relpath(p, os.path.join(src, "src")); text = open(p).read()
                if rel == "syscalls.rs": text = "pub use ghost_syscalls::*;\n"
                elif not rel.startswith("entrypoint"): text = text.replace('target_os = "solana"', "unix")
                out("pinocchio/src/" + rel, text)
    for r, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(r, f)
            if p not in keep and f != "Cargo.lock": os.unlink(p)
    return os.path.join(V, "shadow")

if __name__ == "__main__":
    print(prepare(os.path.join(V, ".build")))
