"""Driving a probe: a program built from /repo that answers one JSON line per JSON line."""
import queue
from .core import *


def probe(exe, batches, procs=8, timeout=300, env=None, argv=()):
    """One answer per batch; {'died': ...} where the process ended instead."""
    out = [None] * len(batches)
    q = queue.Queue()
    for i, b in enumerate(batches):
        q.put((i, b))

    def work():
        p = None
        while True:
            try:
                i, b = q.get_nowait()
            except queue.Empty:
                break
            if p is None:
                err = tempfile.TemporaryFile()
                p = subprocess.Popen([exe, *argv], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, env={**os.environ, "GOMAXPROCS": "4", **(env or {})}, start_new_session=True)
            t = threading.Timer(timeout, p.kill)
            t.start()
            try:
                p.stdin.write(json.dumps(b).encode() + b"\n")
                p.stdin.flush()
                line = p.stdout.readline()
            except OSError:
                line = b""
            late = not t.is_alive()
            t.cancel()
            if line.endswith(b"\n"):
                out[i] = json.loads(line)
                continue
            p.kill()
            p.wait()
            if late:
                out[i] = {"timeout": True}
            else:
                err.seek(0)
                out[i] = {"died": err.read()[-3000:].decode("utf-8", "replace")}
            p = None
        if p is not None:
            p.stdin.close()
            p.wait()
    ts = [threading.Thread(target=work) for _ in range(min(procs, len(batches)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if any(o and "timeout" in o for o in out if isinstance(o, dict)):
        raise Inconclusive("a probe did not answer in time")
    return out
