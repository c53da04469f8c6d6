"""Turns every binary of /repo/command into a library crate with a public entry point, so that one
module holds all of them. The source text is copied unchanged from the working tree on every run; only
the entry point is appended."""
import os, shutil

BINS = ["gc-add", "gc-build", "gc-clean", "gc-csp", "gc-cycle", "gc-delete", "gc-desc", "gc-init", "gc-random", "gc-short-path", "gc-topo-sort"]

ENTRY = '''

#[doc(hidden)]
pub fn __symx_entry() -> i32 {
    let r = ::std::panic::catch_unwind(|| ::std::process::Termination::report(main()));
    let _ = ::std::io::Write::flush(&mut ::std::io::stdout());
    match r {
        Ok(c) if c == ::std::process::ExitCode::SUCCESS => 0,
        Ok(_) => 1,
        Err(_) => 101,
    }
}
'''

TOML = '''[package]
name = "bin-%(n)s"
version = "0.1.0"
edition = "2018"
[workspace]
[lib]
name = "bin_%(u)s"
path = "%(f)s"
doctest = false
[dependencies]
gc-core = { path = "%(v)s/model/gc-core" }
gc-command = { path = "%(v)s/model/gc-command" }
clap = "=2.33.0"
lazy_static = "1.4.0"
regex = { path = "%(v)s/model/regex" }
itertools = { path = "%(v)s/model/itertools" }
rand = { path = "%(v)s/model/rand" }
std = { package = "vstd", path = "%(v)s/model/vstd" }
'''


BINTOML = '''[package]
name = "hbins"
version = "0.1.0"
edition = "2018"
autobins = false
[workspace]
[dependencies]
gc-core = { path = "%(r)s/core" }
gc-command = { path = "%(r)s/command" }
clap = "2.33.0"
lazy_static = "1.4.0"
regex = "1.3.5"
itertools = "0.9.0"
rand = { path = "%(v)s/model/rand" }
[profile.dev]
debug = 0
'''


def put(p, t):
    if os.path.exists(p) and open(p).read() == t:
        return
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write(t)


def generate(V, REPO):
    own = os.path.join(V, "harness", "tool")
    for n in BINS + ["gc-lib"]:
        src = own if n == "gc-lib" else os.path.join(REPO, "command", "src", "bin")
        d = os.path.join(V, "build", "gen", n)
        one = os.path.join(src, n + ".rs")
        if os.path.exists(one):
            put(os.path.join(d, "entry.rs"), open(one).read() + ENTRY)
        else:
            # src/bin/NAME/main.rs with its modules
            t = os.path.join(src, n)
            for f in os.listdir(t):
                if f.endswith(".rs") and f != "main.rs":
                    put(os.path.join(d, f), open(os.path.join(t, f)).read())
            put(os.path.join(d, "entry.rs"), open(os.path.join(t, "main.rs")).read() + ENTRY)
        put(os.path.join(d, "Cargo.toml"), TOML % {"n": n, "u": n.replace("-", "_"), "v": V, "f": "entry.rs"})
    # the real binaries, for replays: real std, clap and regex; only gc-random's source of random
    # numbers is replaced, so that recorded numbers can be fed to it
    t = BINTOML % {"v": V, "r": REPO}
    for n in BINS:
        one = os.path.join(REPO, "command", "src", "bin", n + ".rs")
        t += '[[bin]]\nname = "%s"\npath = "%s"\n' % (n, one if os.path.exists(one) else os.path.join(REPO, "command", "src", "bin", n, "main.rs"))
    t += '[[bin]]\nname = "gc-lib"\npath = "%s"\n' % os.path.join(own, "gc-lib.rs")
    d = os.path.join(V, "build", "gen", "bins")
    put(os.path.join(d, "Cargo.toml"), t)
    lock = os.path.join(d, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists(os.path.join(REPO, "Cargo.lock")):
        shutil.copy(os.path.join(REPO, "Cargo.lock"), lock)


if __name__ == "__main__":
    generate(os.path.dirname(os.path.abspath(__file__)), "/repo")
