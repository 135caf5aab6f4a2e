"""C20: notebook widgets receive exactly the planes that were passed."""
import collections, importlib.util, json, math, os, re, subprocess, sys, tempfile
from html.parser import HTMLParser
from common import *
import harness
from attitude import Orientation, ReconstructedPlane
from attitude.orientation.grouped import GroupedOrientation

RULE = ("lists, tuples and single values of fits, grouped fits, planes given by angles and plain mappings, whose text fields and keys hold quotes, backslashes, newlines, markup, script and comment delimiters, template markers, separators, control and astral characters; several outputs on one page and sessions with repeated initialisation; "
        "each output is parsed like a browser does and its script run by a JavaScript engine; distinct by shape of the input and character classes")
CASES = dict(quick=4800, thorough=60000)
FILES = ["display/nbextension.py"]

_tmp = None
_node = None
_pub = None


def setup():
    global _tmp, _pub
    _tmp = tempfile.mkdtemp(prefix="verif-c20-")
    os.environ["IPYTHONDIR"] = _tmp
    from traitlets.config import Config
    from IPython.core.interactiveshell import InteractiveShell
    from IPython.core.displaypub import CapturingDisplayPublisher
    cfg = Config()
    cfg.HistoryManager.enabled = False
    cfg.HistoryManager.hist_file = ":memory:"
    ip = InteractiveShell.instance(config=cfg)
    _pub = CapturingDisplayPublisher()
    ip.display_pub = _pub


def finish(m):
    global _node
    if _node:
        _node.stdin.close()
        _node.wait()
        _node = None
    import shutil
    if _tmp and _tmp.startswith(tempfile.gettempdir() + "/verif-c20-"):
        shutil.rmtree(_tmp, ignore_errors=True)


def session():
    """The module as a fresh Python session would load it."""
    fn = os.path.join(harness.REPO, "attitude", "display", "nbextension.py")
    spec = importlib.util.spec_from_file_location("attitude.display.nbextension_session", fn)
    mod = importlib.util.module_from_spec(spec)
    mod.__package__ = "attitude.display"
    spec.loader.exec_module(mod)
    return mod


def shown(fn, *a):
    """What a call displays."""
    del _pub.outputs[:]
    fn(*a)
    out = list(_pub.outputs)
    del _pub.outputs[:]
    return [o["data"] for o in out]


class Page(HTMLParser):
    def __init__(self, text):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.ids, self.scripts, self.tags, self._in = [], [], [], False
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        self.tags.append(tag)
        a = dict(attrs)
        if "id" in a:
            self.ids.append(a["id"])
        if tag == "script":
            self._in = True
            self.scripts.append("")
            self.type = a.get("type")

    def handle_endtag(self, tag):
        if tag == "script":
            self._in = False

    def handle_data(self, d):
        if self._in:
            self.scripts[-1] += d


def node(req):
    global _node
    if _node is None:
        _node = subprocess.Popen(["node", os.path.join(harness.VERIF, "lib", "widget.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    _node.stdin.write((json.dumps(req) + "\n").encode())
    _node.stdin.flush()
    return json.loads(_node.stdout.readline())


def dec(v):
    if isinstance(v, dict):
        if set(v) == {"$num"}:
            return float(v["$num"])
        return {k[1:]: dec(x) for k, x in v.items()}
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


def same(a, b):
    if isinstance(a, (dict, list)) or isinstance(b, (dict, list)):
        if type(a) is not type(b):
            return False
        if isinstance(a, dict):
            return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    # JavaScript prints large numbers without all their digits
    return float(a) == float(b) or (a != a and b != b)


PIECES = ["'", '"', "\\", "\n", "\r", "\t", "</script>", "</SCRIPT >", "<script>", "<!--", "-->", "<![CDATA[", "]]>", "&amp;", "&lt;", "<div id='x'>", "<<<data>>>", "<<<hash>>>", "${x}", "`", "%s", "{}", "{0}", "\\u003c", "\\n", "\\'", "\\\\",
          "\u2028", "\u2029", "\x00", "\x1b", "\x7f", "\x85", "\u00e9", "\u96ea", "\U0001f300", "\ud800", "//", "/*", "*/", ";alert(1)//", "\\g<0>", "\\1", "$&", "$1", "plane", "Bed 12", " ", ""]


def text(rng):
    return "".join(PIECES[int(i)] for i in rng.integers(0, len(PIECES), int(rng.integers(0, 7))))


def value(rng, depth=0):
    u = rng.random()
    if u < .45:
        return text(rng)
    if u < .55:
        return float(rng.normal() * 10 ** rng.uniform(-300, 300)) if rng.random() < .5 else float(rng.normal())
    if u < .6:
        return float(rng.choice([N.nan, N.inf, -N.inf, -0., 5e-324, 1.7976931348623157e308]))
    if u < .7:
        return int(rng.integers(-2 ** 53 + 1, 2 ** 53))
    if u < .8:
        return [True, False, None][int(rng.integers(3))]
    if depth > 2:
        return []
    if u < .9:
        return [value(rng, depth + 1) for i in range(int(rng.integers(0, 4)))]
    return {text(rng) or "k": value(rng, depth + 1) for i in range(int(rng.integers(0, 4)))}


class Named:
    """Anything that exports itself."""
    def __init__(self, v):
        self.v = v

    def to_mapping(self):
        return self.v


def item(rng):
    u = rng.random()
    if u < .25:
        c = gen.cloud(rng, lo=4, hi=60, noise=.01, dtypes=False)
        f = Orientation(c.arr)
        return "fit", f, f.to_mapping()
    if u < .35:
        fs = [Orientation(gen.cloud(rng, lo=4, hi=30, noise=.01, dtypes=False).arr) for i in range(2)]
        f = GroupedOrientation(*fs)
        return "group", f, f.to_mapping()
    if u < .5:
        f = ReconstructedPlane(float(rng.uniform(0, 360)), float(rng.uniform(1, 89)), float(rng.uniform(0, 180)), float(rng.uniform(1, 9)), float(rng.uniform(1, 30)))
        return "angles", f, f.to_mapping()
    if u < .65:
        c = gen.cloud(rng, lo=4, hi=30, noise=.01, dtypes=False)
        mp = Orientation(c.arr).to_mapping(name=text(rng), color=text(rng), notes=value(rng))
        return "mapping", mp, mp
    mp = {text(rng) or "k": value(rng) for i in range(int(rng.integers(0, 6)))}
    if rng.random() < .3:
        return "exporter", Named(mp), mp
    return "dict", mp, mp


def plain(v):
    """What the exported mapping is, as JSON data."""
    return json.loads(json.dumps(v))


def check_output(m, data, want, seen):
    m.ok(len(data) == 1, "one_output", "%d outputs" % len(data))
    m.ok("text/html" in data[0], "output_is_html", str(list(data[0])))
    html = data[0]["text/html"]
    m.note(html=html[:800])
    page = Page(html)
    m.ok(len(page.scripts) == 1, "one_script", "%d script elements in %r" % (len(page.scripts), page.tags))
    # a browser would not leave the script at the same place if it saw a comment opening in it
    body = page.scripts[0]
    m.ok(not re.search(r"<!--", body) or not re.search(r"<script", body, re.I), "no_double_escape")
    m.ok(len(page.ids) == 1, "one_element", str(page.ids))
    el = page.ids[0]
    m.ok(el not in seen, "own_element", el)
    m.ok(sorted(page.tags) == ["div", "script"] or (len(page.tags) <= 4 and page.tags.count("script") == 1), "only_the_element_and_the_script", str(page.tags))
    seen.add(el)
    m.ok(getattr(page, "type", None) in (None, "text/javascript", "application/javascript", "module"), "script_type")
    try:
        r = node(dict(scripts=[body], ids=[el]))
    except UnicodeDecodeError as e:
        m.fail("engine", e)
    m.ok("error" not in r, "script_runs", r.get("error"))
    m.ok(len(r["calls"]) == 1, "viewer_called_once", str(len(r["calls"])))
    c = r["calls"][0]
    m.ok(c["el"] == el, "viewer_gets_its_element", "%r" % c["el"])
    got = dec(c["data"])
    m.ok(isinstance(got, list) and len(got) == len(want), "data_length", "%s" % type(got))
    for g, w in zip(got, want):
        m.ok(same(g, w), "data_equals_export", "got %s, expected %s" % (repr(g)[:500], repr(w)[:500]))
    return body, el


def run_case(m, rng, idx):
    mod = session() if rng.random() < .5 else sys.modules["attitude.display.nbextension"]
    if idx % 4 == 0:
        return sessions(m, rng)
    seen, pages = set(), []
    items = None
    for k in range(int(rng.integers(1, 5))):
        if items is None or rng.random() < .7:
            n = int(rng.choice([0, 1, 1, 2, 3, 5]))
            if rng.random() < .01:
                n = int(rng.choice([51, 101, 257]))
            items = [item(rng) for i in range(n)]
            if n > 1 and rng.random() < .2:
                # the same plane twice, or two versions of it under one identifier
                i, j = (int(x) for x in rng.integers(0, n, 2))
                items[i] = items[j]
            elif n > 1 and rng.random() < .2:
                for i in (0, -1):
                    mp = dict(uid="same", name=text(rng), order=int(rng.integers(9)))
                    items[i] = ("dict", mp, mp)
        want = [plain(i[2]) for i in items]
        objs = [i[1] for i in items]
        shape = "list"
        if n == 1 and rng.random() < .5:
            arg, shape = objs[0], "single"
        elif rng.random() < .4:
            shape = ("tuple", "tuple", "deque", "UserList")[rng.integers(4)]
            arg = dict(tuple=tuple, deque=collections.deque, UserList=collections.UserList)[shape](objs)
        else:
            arg = objs
        keep = list(objs)
        before = [plain(o) if isinstance(o, dict) else None for o in objs]
        m.note(shape=shape, kinds=[i[0] for i in items])
        pages.append(check_output(m, shown(mod.plot_interactive, arg), want, seen) + (want,))
        m.ok(all(a is b for a, b in zip(keep, objs)) and len(keep) == len(objs), "list_untouched")
        m.ok(all(b is None or same(b, plain(o)) for b, o in zip(before, objs)), "mappings_untouched")
        m.nontrivial(shape, tuple(sorted(i[0] for i in items)))
        m.state("input", shape, n)
    # all outputs on one page
    r = node(dict(scripts=[p[0] for p in pages], ids=[p[1] for p in pages]))
    m.ok("error" not in r and [c["el"] for c in r["calls"]] == [p[1] for p in pages], "outputs_share_a_page", r.get("error", ""))
    for c, p in zip(r["calls"], pages):
        m.ok(same(dec(c["data"]), p[2]), "data_equals_export_on_shared_page")


def sessions(m, rng):
    """init/plot histories in fresh sessions."""
    mod = session()
    lib = open(os.path.join(harness.REPO, "attitude", "display", "lib", "attitude-ui.js")).read()
    m.ok("attitudeUI" in lib, "library_defines_the_viewer")
    inits, hist, seen = 0, "", set()
    for k in range(int(rng.integers(1, 6))):
        if rng.random() < .5:
            if inits == 0 and rng.random() < .3:
                failing(m, rng, mod)
                hist += "f"
            out = shown(mod.init_notebook_mode)
            hist += "i"
            if inits == 0:
                m.ok(len(out) == 1 and "application/javascript" in out[0], "library_delivered", str([list(o) for o in out]))
                m.ok(lib in out[0]["application/javascript"], "library_content")
            else:
                m.ok(out == [], "library_delivered_once", "%d outputs on call %d" % (len(out), inits + 1))
            inits += 1
        else:
            hist += "p"
            i = item(rng)
            check_output(m, shown(mod.plot_interactive, [i[1]]), [plain(i[2])], seen)
    m.note(history=hist)
    m.nontrivial("session", hist)
    m.state("session", hist)


class Fault(Exception):
    pass


def failing(m, rng, mod):
    """A delivery that fails part-way has not happened: the next one delivers.
    The fault is injected at the notebook's display channel."""
    ip = sys.modules["IPython"].get_ipython()
    class Broken:
        def publish(self, *a, **k):
            raise Fault("display")
        def __getattr__(self, k):
            return getattr(_pub, k)
    try:
        ip.display_pub.publish, keep = Broken().publish, ip.display_pub.publish
        try:
            mod.init_notebook_mode()
            m.state("failed_delivery", "swallowed")
        except Fault:
            m.state("failed_delivery", "reported")
    finally:
        ip.display_pub.publish = keep
    del _pub.outputs[:]
