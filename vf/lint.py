"""Linting generated programs with the real binary."""
import gzip
from .core import *

_corpus = None


def corpus():
    """The rule cases of the project's own test-suite (see corpus/README): seeds for generators."""
    global _corpus
    if _corpus is None:
        with gzip.open(VERIF + "/corpus/rules.jsonl.gz", "rt", encoding="utf-8") as f:
            _corpus = [json.loads(l) for l in f]
        for i, c in enumerate(_corpus):
            c["i"] = i
            c["fn"] = c["FileName"] or ("react.tsx" if c["Tsx"] else "file.ts")
    return _corpus


def rules():
    return sorted({c["Rule"] for c in corpus()})


def rule_entry(name, opts=None):
    return {"name": name} if opts is None else {"name": name, "options": opts}


def mkconfigs(jobs, root=""):
    """jobs: [(path, [(rule, opts)])] -> configs"""
    return [{"file_paths": [os.path.join(root, p)], "rules": [rule_entry(n, o) for n, o in rs]} for p, rs in jobs]


def norm(d, root=None, drop=()):
    """A diagnostic as a hashable value, with paths relative to root."""
    d = {k: v for k, v in d.items() if k not in drop}
    if root and d.get("file_path"):
        d["file_path"] = os.path.relpath(d["file_path"], root)
    s = json.dumps(d, sort_keys=True)
    return s.replace(root + "/", "<root>/") if root else s


def multiset(diags, root=None, drop=()):
    return collections.Counter(norm(d, root, drop) for d in diags)


def msdiff(a, b, la="first", lb="second", lim=3):
    x, y = list((a - b).elements()), list((b - a).elements())
    if not x and not y:
        return None
    return f"only in {la} ({len(x)}): {x[:lim]}; only in {lb} ({len(y)}): {y[:lim]}"


DEFAULT_OPTS = {"target": "esnext", "module": "esnext", "moduleResolution": "bundler", "strict": True, "lib": ["esnext", "dom"], "types": [], "jsx": "preserve", "noEmit": True, "skipLibCheck": True}


def tsconfig(opts=None, files=None, **kw):
    j = {"compilerOptions": opts if opts is not None else DEFAULT_OPTS, **kw}
    if files is not None:
        j["files"] = files
    return json.dumps(j)


def crashed(r):
    """A description when a run that must succeed did not."""
    if r.rc != 0:
        return f"exit status {r.rc}, stderr: {r.err[-1200:]}"
    if r.junk:
        return f"stdout is not a message stream: {r.junk}"
    return None
