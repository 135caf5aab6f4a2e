"""C25: memory and time stay linear in the number of points."""
import json, os, resource, signal, sys, time, tracemalloc
from common import *
from attitude import Orientation
from attitude import stereonet as S
from attitude.coordinates import centered
from attitude.error import axes as E
from attitude.orientation.grouped import GroupedOrientation, create_groups
from attitude.orientation.linear import LinearOrientation, Regression

RULE = ("clouds of 8000 to 320000 points of every attitude, layout and type are fitted, grouped, queried, exported and drawn in a child process whose address space and processor time are limited; an allocation monitor records the peak of every operation and a clock its processor time, for a size and a 16 times larger one; distinct by operation set, size, type and layout")
CASES = dict(quick=24, thorough=400)
FILES = ["orientation/pca.py", "orientation/grouped.py", "orientation/linear/regression.py"]
ASSUMPTIONS = ["memory is that seen by Python's allocation monitor plus a limit on the address space of the process; times are the best of three to seven runs, allowed five times linear growth"]
FACTOR = 16
# peak bytes allowed: constant + per point
C0, C1 = 4e6, 1000.
SMALL = 1.5e6
CPU = 100
GB = 1.5


def linear_ops(a, rng_seed):
    """(name, thunk) of operations whose cost may grow with the points."""
    r = N.random.default_rng(rng_seed)
    w = r.uniform(.5, 2, 3)
    h = len(a) // 2
    st = {}

    def fit():
        st["f"] = Orientation(a)

    def group():
        g = GroupedOrientation(Orientation(a[:h]), Orientation(a[h:]))
        g.strike_dip()
        st["g"] = g

    def regroup():
        o = [Orientation(a[:h]), Orientation(a[h:])]
        create_groups(o, [x.hash for x in o])

    def recovered():
        g = Orientation(a, axes=st["f"].principal_axes)
        return g.U

    def regress():
        g = Regression(a)
        return g.residuals, g.covariance_matrix, g.standard_errors()

    ops = [("fit", fit), ("weighted", lambda: Orientation(a, weights=w)), ("group", group), ("create_groups", regroup), ("recovered", recovered),
           ("rotated", lambda: st["f"].rotated()), ("residuals", lambda: st["f"].residuals()), ("covariance", lambda: st["f"].covariance_matrix),
           ("explained", lambda: st["f"].explained_variance), ("to_mapping", lambda: st["f"].to_mapping()), ("repr", lambda: repr(st["f"])),
           ("left_vectors", lambda: st["f"].U), ("centered", lambda: centered(a)), ("linear", lambda: LinearOrientation(a).strike_dip()),
           ("regression", regress), ("regression_axes", lambda: E.regression_axes(st["f"])), ("as_hyperbola", lambda: st["f"].as_hyperbola(rotated=True)),
           ("error_coords", lambda: st["f"].error_coords(n=50, ellipse=False)), ("group_mapping", lambda: st["g"].to_mapping())]
    return st, ops


def constant_ops(f, cov):
    """Operations whose cost must not depend on the number of points."""
    ops = [(k, (lambda k: lambda: getattr(f, k)())(k)) for k in ("strike_dip", "dip_direction", "rake", "strike_dip_rake", "angular_errors", "gradient")]
    ops += [(k, (lambda k: lambda: getattr(f, k))(k)) for k in ("hyperbolic_axes", "eigenvalues", "principal_axes", "hash", "azimuth", "slope", "coefficients")]
    ops += [(k, (lambda k: lambda: getattr(E, k)(f))(k)) for k in ("noise_axes", "sampling_axes", "francq_axes", "babamoradi_axes")]
    ops += [("plane_errors", lambda: S.plane_errors(f.axes, cov, n=200)), ("normal_errors", lambda: S.normal_errors(f.axes, cov, n=200)),
            ("iterative_plane_errors", lambda: S.iterative_plane_errors(f.axes, cov, n=30))]
    return ops


def peak(fn):
    tracemalloc.start()
    try:
        v = fn()
        p = tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()
    del v
    return p


def cpu(fn, k=3):
    best = 1e9
    for i in range(k):
        t = time.perf_counter()
        fn()
        best = min(best, time.perf_counter() - t)
    return best


def child(a_small, a_large, seed):
    res = dict(peak={}, time={}, cpeak={}, ctime={})
    for tag, a in (("small", a_small), ("large", a_large)):
        st, ops = linear_ops(a, seed)
        for nm, fn in ops:
            res["at"] = [nm, tag]
            put(res)
            res["peak"].setdefault(nm, {})[tag] = peak(fn)
            res["time"].setdefault(nm, {})[tag] = cpu(fn)
        f = st["f"]
        for nm, fn in constant_ops(f, f.covariance_matrix):
            res["at"] = [nm, tag]
            put(res)
            fn()
            res["cpeak"].setdefault(nm, {})[tag] = peak(fn)
            res["ctime"].setdefault(nm, {})[tag] = cpu(fn, 7)
    res["at"] = None
    return res


_fd = None


def put(d):
    os.lseek(_fd, 0, 0)
    b = json.dumps(d).encode()
    os.write(_fd, b)
    os.ftruncate(_fd, len(b))


def run_case(m, rng, idx):
    global _fd
    n = int(rng.choice([8000, 12000, 16000, 20000]))
    c = gen.cloud(rng, n=n * FACTOR, noise=float(10 ** rng.uniform(-3, -1)), dip=float(rng.uniform(0, 80)), scale=100., offsets=bool(rng.random() < .5))
    a = c.arr
    small = a[::FACTOR] if rng.random() < .3 else N.array(a[::FACTOR])
    m.note(**gen.describe(c), small=len(small))
    m.nontrivial(n, *signature(c))
    m.state("size", n, n * FACTOR)
    r, w = os.pipe()
    import tempfile
    fd, name = tempfile.mkstemp(prefix="verif-c25-")
    os.unlink(name)
    pid = os.fork()
    if pid == 0:
        code = 4
        try:
            sys.monitoring.set_events(sys.monitoring.COVERAGE_ID, 0)
        except Exception:
            pass
        try:
            _fd = fd
            signal.alarm(0)
            vm = int(open("/proc/self/statm").read().split()[0]) * resource.getpagesize()
            resource.setrlimit(resource.RLIMIT_AS, (vm + int(GB * 2 ** 30),) * 2)
            resource.setrlimit(resource.RLIMIT_CPU, (int(time.process_time()) + CPU, int(time.process_time()) + CPU + 5))
            put(child(small, a, int(rng.integers(2 ** 31))))
            code = 0
        except MemoryError:
            code = 5
        except BaseException as e:
            import traceback
            traceback.print_exc()
            code = 4
        finally:
            os._exit(code)
    os.close(r)
    os.close(w)
    try:
        _, st = os.waitpid(pid, 0)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    finally:
        os.lseek(fd, 0, 0)
        b = b""
        while True:
            x = os.read(fd, 1 << 16)
            if not x:
                break
            b += x
        os.close(fd)
    d = json.loads(b or b"{}")
    at = d.get("at")
    m.ok(not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 5), "memory_limit", "more than %.1f GB for %d points during %s" % (GB, n * FACTOR, at))
    m.ok(not os.WIFSIGNALED(st), "processor_limit", "killed by signal %s during %s" % (os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0, at))
    m.ok(os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0, "operations_succeed", "status %s during %s" % (st, at))
    for nm, p in d["peak"].items():
        for tag, k in (("small", n), ("large", n * FACTOR)):
            m.ok(p[tag] <= C0 + C1 * k, "memory_linear", "%s of %d points allocated %.1f MB" % (nm, k, p[tag] / 1e6), operation=nm)
        m.margins[nm] = max(m.margins.get(nm, 0), p["large"] / (n * FACTOR) / C1)
        t = d["time"][nm]
        m.ok(t["large"] <= 5 * FACTOR * t["small"] + .1, "time_linear", "%s: %.4f s for %d points, %.4f s for %d" % (nm, t["small"], n, t["large"], n * FACTOR), operation=nm)
    for nm, p in d["cpeak"].items():
        m.ok(p["large"] <= 2 * p["small"] + 1e5 and p["large"] < SMALL, "memory_constant", "%s: %.0f bytes for %d points, %.0f for %d" % (nm, p["small"], n, p["large"], n * FACTOR), operation=nm)
        t = d["ctime"][nm]
        m.ok(t["large"] <= 4 * t["small"] + .001, "time_constant", "%s: %.5f s for %d points, %.5f s for %d" % (nm, t["small"], n, t["large"], n * FACTOR), operation=nm)
        m.margins["constant " + nm] = max(m.margins.get("constant " + nm, 0), t["large"] / (4 * t["small"] + .001))
