"""Bundles the repository's front-end sources as they are now and runs them
under node; queries go through the entry files of lib/js."""
import json, os, shutil, subprocess, tempfile
import harness

_dirs = {}
_nodes = {}
_asked = 0


def _swollen(node):
    """Whether the engine keeps much of what earlier cases drew (every request is self-contained)."""
    try:
        with open("/proc/%d/statm" % node.pid) as f:
            return int(f.read().split()[1]) * 4096 > 1.2e9
    except (OSError, ValueError, IndexError):
        return False


def build(*entries):
    js = os.path.join(harness.VERIF, "lib", "js")
    for entry in entries or ("server.js",):
        _dirs[entry] = tempfile.mkdtemp(prefix="verif-js-")
        r = subprocess.run(["node", os.path.join(js, "build.js"), harness.REPO, os.path.join(_dirs[entry], "bundle.js"), entry], capture_output=True, text=True, timeout=200)
        if r.returncode:
            clean()
            raise RuntimeError("the front-end sources do not bundle: " + r.stderr[-2000:])


def clean():
    for d in _dirs.values():
        if d.startswith(os.path.join(tempfile.gettempdir(), "verif-js-")):
            shutil.rmtree(d, ignore_errors=True)


def ask(m, *q, entry=None):
    global _asked
    entry = entry or next(iter(_dirs))
    _asked += 1
    if entry in _nodes and _asked % 20 == 0 and _swollen(_nodes[entry]):
        stop()
    if entry not in _nodes:
        _nodes[entry] = subprocess.Popen(["node", os.path.join(_dirs[entry], "bundle.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    node = _nodes[entry]
    try:
        node.stdin.write((json.dumps(q) + "\n").encode())
        node.stdin.flush()
        line = node.stdout.readline()
    except BrokenPipeError:
        line = b""
    if not line:
        stop()
        raise RuntimeError("the JavaScript engine ended")
    a = json.loads(line)
    m.ok("error" not in a, "front_end_answers", a.get("error", "")[:600])
    return a["ok"]


def stop():
    while _nodes:
        _, node = _nodes.popitem()
        try:
            node.stdin.close()
        except BrokenPipeError:
            pass
        node.wait()
