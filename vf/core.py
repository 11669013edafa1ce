"""Shared plumbing: building /repo, running the tsgolint binary, oracle pool, evidence, violations."""
import atexit, collections, contextlib, fcntl, hashlib, json, os, random, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
BIN = os.path.join(BUILD, "bin")
GOROOT = "/opt/veriftools/go1.26.10"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"


class Inconclusive(Exception):
    """Infrastructure trouble (build failure, timeout, dead worker): never a violation."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- build
def go_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "CGO"))}
    e.update(
        HOME=os.environ.get("HOME", "/root"), GOROOT=GOROOT,
        PATH=GOROOT + "/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
        GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", CGO_ENABLED="0", GOFLAGS="-mod=mod",
        GOCACHE=os.path.join(BUILD, "gocache"), GOSUMDB="off", GONOSUMDB="*",
    )
    return e


def _modcache():
    return os.environ.get("GOMODCACHE") or os.path.join(os.environ.get("HOME", "/root"), "go/pkg/mod")


def _write_if_changed(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except FileNotFoundError:
        pass
    tmp = path + ".tmp"
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


@contextlib.contextmanager
def build_lock():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def prepare():
    """typescript-go as the project's own `just init` assembles it: the module version go.mod pins,
    plus patches/*.patch; internal/collections comes from it through an overlay."""
    gomod = open(REPO + "/go.mod").read()
    m = re.search(r"github\.com/microsoft/typescript-go (v\S+)", gomod)
    if not m:
        raise Inconclusive("go.mod does not pin typescript-go")
    src = f"{_modcache()}/github.com/microsoft/typescript-go@{m.group(1)}"
    patches = sorted(p for p in os.listdir(REPO + "/patches") if p.endswith(".patch"))
    h = hashlib.sha256(m.group(1).encode())
    for p in patches:
        h.update(p.encode() + b"\0" + open(f"{REPO}/patches/{p}", "rb").read())
    stamp = h.hexdigest()
    tsgo = BUILD + "/tsgo"
    have = None
    with contextlib.suppress(FileNotFoundError):
        have = open(BUILD + "/tsgo.stamp").read()
    if have != stamp:
        new = BUILD + "/tsgo.new"
        shutil.rmtree(new, ignore_errors=True)
        os.makedirs(new)
        for name in ("go.mod", "go.sum", "internal"):
            s = f"{src}/{name}"
            if os.path.isdir(s):
                shutil.copytree(s, f"{new}/{name}", ignore=shutil.ignore_patterns("*_test.go"))
            else:
                shutil.copy(s, f"{new}/{name}")
        subprocess.run(["chmod", "-R", "u+w", new], check=True)
        for p in patches:
            r = subprocess.run(["patch", "-p1", "-s", "-i", f"{REPO}/patches/{p}"], cwd=new, capture_output=True, text=True)
            if r.returncode:
                raise Inconclusive(f"patch {p} does not apply: {r.stdout}{r.stderr}")
        shutil.rmtree(tsgo, ignore_errors=True)
        os.rename(new, tsgo)
        _write_if_changed(BUILD + "/tsgo.stamp", stamp)
    # module file
    sums = set(open(REPO + "/go.sum").read().split("\n"))
    for extra in ("/opt/vp/mod/extra.sum", VERIF + "/go/extra.sum"):
        with contextlib.suppress(FileNotFoundError):
            sums |= set(open(extra).read().split("\n"))
    return gomod, "\n".join(sorted(s for s in sums if s)) + "\n"


def _overlay(extra, name):
    rep = {}
    coll = BUILD + "/tsgo/internal/collections"
    for f in sorted(os.listdir(coll)):
        if f.endswith(".go") and not f.endswith("_test.go"):
            rep[f"{REPO}/internal/collections/{f}"] = f"{coll}/{f}"
    for dst, s in (extra or {}).items():
        rep[f"{BUILD}/tsgo/{dst[5:]}" if dst.startswith("tsgo/") else f"{REPO}/{dst}"] = os.path.join(VERIF, s)
    p = f"{BUILD}/overlay.{name}.json"
    _write_if_changed(p, json.dumps({"Replace": rep}, indent=1))
    return p


TARGETS = {
    # name: (kind, package, overlay {repo-relative: verif-relative})
    "tsgolint": ("build", "./cmd/tsgolint", {}),
    "tsgolint_race": ("race", "./cmd/tsgolint", {}),
    "probe_linter": ("build", "./internal/verif_probe_linter", {"internal/verif_probe_linter/main.go": "go/probe_linter/main.go"}),
    "probe_utils": ("build", "./internal/verif_probe_utils", {"internal/verif_probe_utils/main.go": "go/probe_utils/main.go"}),
    "probe_tsconfig": ("build", "./internal/verif_probe_tsconfig", {"internal/verif_probe_tsconfig/main.go": "go/probe_tsconfig/main.go"}),
    "probe_cmd": ("testc", "./cmd/tsgolint", {"cmd/tsgolint/verif_probe_test.go": "go/probe_cmd/verif_probe_test.go"}),
    "shimcheck": ("build", "./internal/verif_shimcheck", {"internal/verif_shimcheck/main.go": "go/shimcheck/main.go"}),
    "shimcmp": ("build", "github.com/microsoft/typescript-go/verifshim", {"tsgo/verifshim/rt.go": "go/shimrt/rt.go", "tsgo/verifshim/pool.go": "go/shimrt/pool.go", "tsgo/verifshim/main.go": ".build/shim/main.go"}),
    "ref": ("build", "github.com/microsoft/typescript-go/verifref", {"tsgo/verifref/main.go": "go/ref/main.go"}),
    "gen_shims": ("build", "./tools/gen_shims", {}),
}


def build(*names, timeout=840):
    """Build the named targets from /repo's working tree. Returns {name: path}."""
    out = {}
    with build_lock():
        gomod, gosum = prepare()
        for n in names:
            kind, pkg, ov = TARGETS[n]
            os.makedirs(BIN, exist_ok=True)
            mf = f"{BUILD}/{n}.mod"
            _write_if_changed(mf, gomod.rstrip() + f"\n\nreplace github.com/microsoft/typescript-go => {BUILD}/tsgo\n")
            _write_if_changed(f"{BUILD}/{n}.sum", gosum)
            ovp = _overlay(ov, n)
            exe = f"{BIN}/{n}"
            cmd = [GOROOT + "/bin/go"] + (["test", "-c", "-vet=off"] if kind == "testc" else ["build"])
            env = go_env()
            if kind == "race":
                cmd.append("-race")
                env["CGO_ENABLED"] = "1"
            cmd += ["-modfile", mf, "-overlay", ovp, "-o", exe, pkg]
            t = time.time()
            try:
                r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise Inconclusive(f"building {n} timed out")
            if r.returncode:
                raise Inconclusive(f"building {n} failed:\n{r.stderr[-3000:]}")
            log(f"[build] {n} {time.time() - t:.1f}s")
            out[n] = exe
    return out


# ---------------------------------------------------------------- scratch
_scratch_root = None
_scratch_lock = threading.Lock()


def scratch(prefix="c"):
    """A fresh scratch directory, removed when the process ends."""
    global _scratch_root
    with _scratch_lock:
        if _scratch_root is None:
            _scratch_root = tempfile.mkdtemp(prefix="vf.", dir="/tmp")
            atexit.register(shutil.rmtree, _scratch_root, True)
    return tempfile.mkdtemp(prefix=prefix + ".", dir=_scratch_root)


def write_tree(root, files):
    for p, text in files.items():
        full = p if p.startswith("/") else os.path.join(root, p)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode("utf-8", "surrogatepass"))


# ---------------------------------------------------------------- running tsgolint
class Run:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err
        self.frames, self.junk = parse_frames(out)

    @property
    def diags(self):
        return [f[1] for f in self.frames if f[0] == 1]

    @property
    def errors(self):
        return [f[1] for f in self.frames if f[0] == 0]

    @property
    def timings(self):
        return [f[1] for f in self.frames if f[0] == 2]


def parse_frames(b):
    """Strict parse of the framed stream: (frames [(type, payload)], leftover description or None)."""
    i, frames = 0, []
    while i < len(b):
        if i + 5 > len(b):
            return frames, f"truncated header at byte {i}"
        n, t = struct.unpack_from("<IB", b, i)
        if i + 5 + n > len(b):
            return frames, f"truncated payload at byte {i}: type {t} length {n}, {len(b) - i - 5} left"
        try:
            frames.append((t, json.loads(b[i + 5 : i + 5 + n].decode("utf-8"))))
        except ValueError as e:
            return frames, f"payload at byte {i} is not JSON: {e}"
        i += 5 + n
    return frames, None


def run_bin(exe, args, stdin=b"", cwd=None, env=None, timeout=120):
    e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent"}
    e.update(env or {})
    try:
        r = subprocess.run([exe, *args], input=stdin, cwd=cwd, env=e, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive(f"{os.path.basename(exe)} {args} timed out after {timeout}s")
    if r.returncode < 0 and -r.returncode in (9, 15):
        raise Inconclusive(f"{os.path.basename(exe)} was killed by signal {-r.returncode}")
    return Run(r.returncode, r.stdout, r.stderr.decode("utf-8", "replace"))


def headless(exe, payload, cwd, args=(), env=None, timeout=120):
    data = payload if isinstance(payload, bytes) else json.dumps(payload).encode()
    return run_bin(exe, ["headless", *args], data, cwd, env, timeout)


# ---------------------------------------------------------------- line-JSON child processes
class Child:
    def __init__(self, argv, env=None, cwd=None):
        self.argv, self.env, self.cwd, self.p = argv, env, cwd, None
        self.lock = threading.Lock()

    def _start(self):
        self.errf = tempfile.TemporaryFile()
        self.p = subprocess.Popen(self.argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, env=self.env, cwd=self.cwd)
        atexit.register(self.close)

    def call(self, req, timeout=300):
        with self.lock:
            if self.p is None:
                self._start()
            timer = threading.Timer(timeout, self.p.kill)
            timer.start()
            try:
                self.p.stdin.write(json.dumps(req).encode() + b"\n")
                self.p.stdin.flush()
                line = self.p.stdout.readline()
            except BrokenPipeError:
                line = b""
            finally:
                timer.cancel()
            if not line:
                rc = self.p.wait()
                self.errf.seek(0)
                err = self.errf.read().decode("utf-8", "replace")
                self.p = None
                raise ChildDied(rc, err)
            return json.loads(line)

    def close(self):
        if self.p:
            with contextlib.suppress(Exception):
                self.p.kill()
            self.p = None


class ChildDied(Exception):
    def __init__(self, rc, err):
        super().__init__(f"child ended with {rc}: {err[-1500:]}")
        self.rc, self.err = rc, err


class Pool:
    """Pool of line-JSON worker processes."""

    def __init__(self, argv, n=None, env=None):
        self.workers = [Child(argv, env=env) for _ in range(n or min(8, os.cpu_count() or 4))]

    def call(self, req):
        return self.map([req])[0]

    def map(self, reqs):
        res = [None] * len(reqs)
        it = iter(range(len(reqs)))
        lk = threading.Lock()
        errs = []

        def work(w):
            while not errs:
                with lk:
                    i = next(it, None)
                if i is None:
                    return
                try:
                    r = w.call(reqs[i])
                except ChildDied as e:
                    errs.append(Inconclusive(f"oracle worker: {e}"))
                    return
                if "error" in r:
                    errs.append(Inconclusive("oracle: " + r["error"][:2000]))
                    return
                res[i] = r

        ts = [threading.Thread(target=work, args=(w,)) for w in self.workers[: max(1, min(len(self.workers), len(reqs)))]]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]
        return res

    def close(self):
        for w in self.workers:
            w.close()


def Oracle(n=None):
    """Pool of node workers running typescript-eslint / TypeScript."""
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": os.environ.get("HOME", "/root")}
    node = shutil.which("node") or "/usr/local/bin/node"
    return Pool([node, "--max-old-space-size=3000", VERIF + "/node/oracle.mjs"], n, env)


def Reference(n=None):
    """Pool of workers answering from the pinned compiler itself."""
    return Pool([build("ref")["ref"]], n)


def u16_to_byte(text):
    """Map UTF-16 offsets of text to UTF-8 byte offsets (list of len+1)."""
    m, b = [], 0
    for ch in text:
        n = len(ch.encode("utf-8", "surrogatepass"))
        m.append(b)
        if ord(ch) > 0xFFFF:
            m.append(b)
        b += n
    m.append(b)
    return m


def pmap(fn, items, workers=6):
    """Ordered parallel map (threads driving child processes)."""
    from concurrent.futures import ThreadPoolExecutor
    if len(items) <= 1:
        return [fn(x) for x in items]
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))


def rmtree(d):
    assert _scratch_root and d.startswith(_scratch_root + "/"), d
    shutil.rmtree(d, True)
