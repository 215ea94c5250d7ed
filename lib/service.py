"""Builds the service harness: /repo/service's sources with a harness module
appended, over stand-ins for the host interface and the real SQLite."""
import os, re, shutil, subprocess, glob, threading

SQLITE_FLAGS = """-DSQLITE_OS_OTHER=1 -DSQLITE_THREADSAFE=0 -DSQLITE_DEFAULT_MEMSTATUS=0
 -DSQLITE_OMIT_LOAD_EXTENSION -DSQLITE_OMIT_DEPRECATED -DSQLITE_OMIT_WAL -DSQLITE_OMIT_PROGRESS_CALLBACK
 -DSQLITE_OMIT_SHARED_CACHE -DSQLITE_TEMP_STORE=3 -DSQLITE_OMIT_TRACE -DSQLITE_OMIT_DESERIALIZE
 -DSQLITE_UNTESTABLE -DNDEBUG""".split()


def sqlite_dir(m):
    d = glob.glob("/root/.cargo/registry/src/*/libsqlite3-sys-0.25.2/sqlite3")
    if d:
        return d[0]
    c = glob.glob("/root/.cargo/registry/cache/*/libsqlite3-sys-0.25.2.crate")
    if not c:
        raise m.BuildError("SQLite's source is not in the cargo registry")
    t = os.path.join(m.WORK, "sqlite-src")
    os.makedirs(t, exist_ok=True)
    subprocess.run(["tar", "xzf", c[0], "-C", t], check=True)
    return os.path.join(t, "libsqlite3-sys-0.25.2", "sqlite3")


def build_sqlite(m, errors):
    d = os.path.join(m.WORK, "sqlite")
    os.makedirs(d, exist_ok=True)
    osc = os.path.join(m.V, "harness", "svc", "sqlite", "os.c")
    with open(osc) as f:
        key = f.read() + " ".join(SQLITE_FLAGS) + open(osc.replace("os.c", "libc.c")).read()
    stamp = os.path.join(d, "done")
    if os.path.exists(stamp) and open(stamp).read() == key:
        return
    src = sqlite_dir(m)
    jobs = []
    ir = ["-S", "-emit-llvm", "-fno-vectorize", "-fno-slp-vectorize", "-fno-jump-tables"]
    libc = os.path.join(m.V, "harness", "svc", "sqlite", "libc.c")
    for name, file in (("sqlite3", os.path.join(src, "sqlite3.c")), ("os", osc), ("libc", libc)):
        for ext, fl in ((".ll", ir + (["-fno-builtin"] if name == "libc" else [])), (".o", ["-c", "-fPIC"])):
            if name + ext == "libc.o":
                continue
            jobs.append(subprocess.Popen(
                ["clang", "-O1", "-w", "-I" + src] + SQLITE_FLAGS + fl + [file, "-o", os.path.join(d, name + ext)],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    for j in jobs:
        o, _ = j.communicate()
        if j.returncode:
            errors.append("SQLite does not compile: " + o[-500:])
            return
    for f in ("libtgsqlite.a",):
        p = os.path.join(d, f)
        if os.path.exists(p):
            os.unlink(p)
    subprocess.run(["ar", "crs", os.path.join(d, "libtgsqlite.a"), os.path.join(d, "sqlite3.o"),
                    os.path.join(d, "os.o")], check=True)
    with open(stamp, "w") as f:
        f.write(key)


def write_if_changed(p, text):
    if os.path.exists(p):
        with open(p) as f:
            if f.read() == text:
                return
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(text)


def assemble(m):
    """the crate: a copy of the service's sources plus the harness"""
    root = os.path.join(m.WORK, "svc")
    src = os.path.join(root, "src")
    H = os.path.join(m.V, "harness")
    S = os.path.join(m.REPO, "service", "src")
    keep = set()
    for d, _, files in os.walk(S):
        for f in files:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, S)
            if rel == "main.rs":
                continue
            with open(p, errors="surrogateescape") as fh:
                t = fh.read()
            write_if_changed(os.path.join(src, rel), t)
            keep.add(rel)
    with open(os.path.join(S, "main.rs")) as f:
        main = f.read()
    mods = ""
    for n, p in (("vrt", "src/rt.rs"), ("vpool", "src/pool.rs"), ("vsvc", "svc/svc.rs")):
        mods += '#[path = "%s"]\npub mod %s;\n' % (os.path.join(H, p), n)
    with open(os.path.join(H, "svc", "svc.rs")) as f:
        names = re.findall(r'^pub extern "C" fn (\w+)', f.read(), re.M)
    mods += 'pub static VENTRIES: &[(&str, extern "C" fn())] = &[%s];\n' % ", ".join(
        '("%s", vsvc::%s)' % (n, n) for n in names)
    write_if_changed(os.path.join(src, "lib.rs"), main + "\n" + mods)
    with open(os.path.join(H, "svc", "main.rs")) as f:
        write_if_changed(os.path.join(src, "main.rs"), f.read())
    keep |= {"lib.rs", "main.rs"}
    for d, _, files in os.walk(src):
        for f in files:
            if os.path.relpath(os.path.join(d, f), src) not in keep:
                os.unlink(os.path.join(d, f))
    for k in ("sym", "native"):
        with open(os.path.join(H, "svc", k + ".toml")) as f:
            write_if_changed(os.path.join(root, k, "Cargo.toml"), f.read().replace("@H@", H))
        lock = os.path.join(H, "svc", k + ".lock")
        if os.path.exists(lock):
            with open(lock) as f:
                write_if_changed(os.path.join(root, k, "Cargo.lock"), f.read())
    return root


def jobs(m):
    """two builds that can run at the same time: the linked IR and the native program"""
    sq = threading.Event()
    errors = []
    root = assemble(m)

    def sqlite():
        try:
            build_sqlite(m, errors)
        except Exception as e:  # noqa: BLE001
            errors.append(str(e))
        finally:
            sq.set()
    threading.Thread(target=sqlite).start()

    def wait():
        sq.wait()
        if errors:
            raise m.BuildError(errors[0])
    return [lambda: build_ir(m, root, wait), lambda: build_native(m, root, wait)]


def build(m):
    return tuple(m.parallel(*jobs(m)))


PK = ["trust-graph", "fluence-keypair", "marine-rs-sdk", "marine-sqlite-connector", "marine-macro"]


def sources(m):
    return m.core_sources() + [os.path.join(m.REPO, "service")]


def build_ir(m, root, wait):
    target = os.path.join(m.WORK, "svcsym")
    os.makedirs(target, exist_ok=True)
    cwd = os.path.join(root, "sym")
    stamp, h = m.fresh_if_changed(target, sources(m), PK + ["tgsvcsym"], cwd)
    r = m.run(["cargo", "rustc", "--release", "--offline", "-q", "--", "--emit=llvm-ir",
               "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], cwd, m.cargo_env(target))
    if r.returncode:
        raise m.BuildError("service harness does not build against /repo:\n" + r.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(h)
    lls = [os.path.join(target, "release", "deps", x)
           for x in os.listdir(os.path.join(target, "release", "deps"))
           if x.startswith("tgsvcsym") and x.endswith(".ll")]
    lls.sort(key=os.path.getmtime)
    if not lls:
        raise m.BuildError("no IR produced")
    wait()
    sq = os.path.join(m.WORK, "sqlite")
    ll = os.path.join(target, "linked.ll")
    r = m.run(["/usr/lib/llvm-18/bin/llvm-link", "-S", lls[-1], os.path.join(sq, "sqlite3.ll"),
               os.path.join(sq, "os.ll"), os.path.join(sq, "libc.ll"), "-o", ll], target)
    if r.returncode:
        raise m.BuildError("linking with SQLite failed:\n" + r.stdout[-2000:])
    return ll


def build_native(m, root, wait):
    target = os.path.join(m.WORK, "svcnative")
    os.makedirs(target, exist_ok=True)
    cwd = os.path.join(root, "native")
    stamp, h = m.fresh_if_changed(target, sources(m), PK + ["tgsvcnative"], cwd)
    m.run(["cargo", "build", "--offline", "-q", "--lib"], cwd, m.cargo_env(target))
    wait()
    # only the last step needs the library
    r = m.run(["cargo", "rustc", "--offline", "-q", "--bin", "tgsvcnative", "--", "-C",
               "link-arg=" + os.path.join(m.WORK, "sqlite", "libtgsqlite.a")], cwd, m.cargo_env(target))
    if r.returncode:
        raise m.BuildError("service replay program does not build against /repo:\n" + r.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(h)
    return os.path.join(target, "debug", "tgsvcnative")
