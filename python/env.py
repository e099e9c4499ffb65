"""Makes the tools' Python code importable: the extension modules come from the
check's own build, the packages from the source tree, and the few modules that
are not installed here (rosbag, cv2, igraph, ...) are stand-ins."""
import collections, itertools, os, sys, types

sys.dont_write_bytecode = True
os.environ["MPLBACKEND"] = "Agg"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
TOOLS = os.path.join(REPO, "aslam_offline_calibration/kalibr/python")
sys.path.insert(0, os.path.join(BUILD, "python"))
sys.path.append(TOOLS)


def module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m
    return m


# ---- igraph: undirected graphs with attributes ----
class Vertex(object):
    def __init__(self, g, index):
        self.graph, self.index = g, index

    def __getitem__(self, k):
        return self.graph.vattr[self.index][k]

    def __setitem__(self, k, v):
        self.graph.vattr[self.index][k] = v

    def neighbors(self):
        return [Vertex(self.graph, i) for i in self.graph.neighbors(self.index)]

    def degree(self):
        return len(self.graph.neighbors(self.index))

    outdegree = indegree = degree


class Edge(object):
    def __init__(self, g, index):
        self.graph, self.index = g, index

    def __getitem__(self, k):
        return self.graph.eattr[self.index].get(k)

    def __setitem__(self, k, v):
        self.graph.eattr[self.index][k] = v

    @property
    def tuple(self):
        return self.graph.edges[self.index]

    @property
    def source(self):
        return self.tuple[0]

    @property
    def target(self):
        return self.tuple[1]


class Seq(object):
    def __init__(self, g, kind, n):
        self.graph, self.kind, self.n = g, kind, n

    def __len__(self):
        return self.n()

    def __iter__(self):
        return iter([self.kind(self.graph, i) for i in range(self.n())])

    def __getitem__(self, k):
        if isinstance(k, str):
            return [x[k] for x in self]
        if not -self.n() <= k < self.n():
            raise IndexError("vertex or edge index out of range")
        return self.kind(self.graph, k % self.n())

    def __setitem__(self, k, v):
        for i, x in enumerate(self):
            x[k] = v[i] if isinstance(v, (list, tuple)) else v

    def outdegree(self):
        return [x.degree() for x in self]

    degree = indegree = outdegree


class Graph(object):
    def __init__(self, n=0, edges=()):
        self.n, self.edges, self.eattr, self.vattr = n, [], [], [{} for _ in range(n)]
        self.add_edges(edges)

    vs = property(lambda s: Seq(s, Vertex, lambda: s.n))
    es = property(lambda s: Seq(s, Edge, lambda: len(s.edges)))

    def vcount(self):
        return self.n

    def ecount(self):
        return len(self.edges)

    def add_edges(self, edges):
        for a, b in edges:
            if not (0 <= a < self.n and 0 <= b < self.n):
                raise ValueError("no such vertex")
            self.edges.append((min(a, b), max(a, b)))
            self.eattr.append({})

    def add_edge(self, a, b, **attrs):
        self.add_edges([(a, b)])
        self.eattr[-1].update(attrs)
        return Edge(self, len(self.edges) - 1)

    def get_eid(self, a, b, directed=True, error=True):
        e = (min(a, b), max(a, b))
        if e in self.edges:
            return self.edges.index(e)
        if error:
            raise RuntimeError("no such edge")
        return -1

    def are_connected(self, a, b):
        return (min(a, b), max(a, b)) in self.edges

    are_adjacent = are_connected

    def neighbors(self, v, mode=None):
        return sorted([b if a == v else a for a, b in self.edges if v in (a, b)])

    def degree(self, v=None):
        return len(self.neighbors(v)) if v is not None else [len(self.neighbors(i)) for i in range(self.n)]

    outdegree = degree

    def is_connected(self, mode=None):
        if self.n == 0:
            return False
        seen, todo = {0}, [0]
        while todo:
            for u in self.neighbors(todo.pop()):
                if u not in seen:
                    seen.add(u)
                    todo.append(u)
        return len(seen) == self.n

    def adhesion(self, source=-1, target=-1, checks=True):
        if self.n < 2:
            return 0
        best = len(self.edges)
        for k in range(1, self.n):
            for part in itertools.combinations(range(self.n), k):
                best = min(best, sum((a in part) != (b in part) for a, b in self.edges))
        return best

    edge_connectivity = adhesion

    def get_shortest_paths(self, v, to=None, weights=None, mode=None, output="vpath", **kw):
        w = [1.0] * len(self.edges) if weights is None else (
            self.es[weights] if isinstance(weights, str) else list(weights))
        dist, via = {v: 0.0}, {}
        todo = set(range(self.n))
        while todo:
            known = [u for u in todo if u in dist]
            if not known:
                break
            u = min(known, key=lambda x: dist[x])
            todo.remove(u)
            for i, (a, b) in enumerate(self.edges):
                if u in (a, b):
                    x = b if a == u else a
                    if dist[u] + w[i] < dist.get(x, float("inf")):
                        dist[x] = dist[u] + w[i]
                        via[x] = (u, i)
        out = []
        for t in (range(self.n) if to is None else [to] if isinstance(to, int) else to):
            vp, ep = [t], []
            while vp[-1] != v and vp[-1] in via:
                ep.append(via[vp[-1]][1])
                vp.append(via[vp[-1]][0])
            if vp[-1] != v:
                vp, ep = [], []
            out.append((ep if output == "epath" else vp)[::-1])
        return out

    def get_shortest_path(self, v, to, **kw):
        return self.get_shortest_paths(v, to, **kw)[0]

    def copy(self):
        g = Graph(self.n)
        g.edges, g.eattr, g.vattr = list(self.edges), [dict(a) for a in self.eattr], [dict(a) for a in self.vattr]
        return g

    def delete_edges(self, which):
        keep = [i for i in range(len(self.edges)) if i not in set(which)]
        self.edges = [self.edges[i] for i in keep]
        self.eattr = [self.eattr[i] for i in keep]

    def layout(self, *a, **k):
        return None


# ---- rosbag: bags given by the check ----
class Stamp(object):
    def __init__(self, secs, nsecs):
        self.secs, self.nsecs = secs, nsecs

    def to_sec(self):
        return self.secs + self.nsecs * 1e-9

    def to_nsec(self):
        return self.secs * 10**9 + self.nsecs


BAGS = {}


class Bag(object):
    """BAGS[file] = {topic: [(message, stamp), ...]}"""
    def __init__(self, name, *a, **k):
        self.topics = BAGS[name]

    def _get_connections(self, topics=None, **k):
        return [t for t in ([topics] if isinstance(topics, str) else topics) if t in self.topics]

    def _get_indexes(self, connections):
        for t in connections:
            yield [types.SimpleNamespace(position=(t, i)) for i in range(len(self.topics[t]))]

    def _read_message(self, position, *a):
        t, i = position
        m, stamp = self.topics[t][i]
        return t, m, stamp


class CvBridge(object):
    def imgmsg_to_cv2(self, m, *a, **k):
        return m.array


Color = {n: i for i, n in enumerate(["COLOR_BGR2GRAY", "COLOR_RGB2GRAY", "COLOR_BGRA2GRAY", "COLOR_BAYER_BG2GRAY"])}


def cvtColor(img, code):
    import numpy as np
    w = {0: (.114, .587, .299), 1: (.299, .587, .114), 2: (.114, .587, .299, 0.)}[code]
    return np.round(np.dot(img.astype(float), w)).astype("uint8")


module("igraph", Graph=Graph)
module("rosbag", Bag=Bag)
module("cv_bridge", CvBridge=CvBridge)
module("cv2", destroyAllWindows=lambda: None, cvtColor=cvtColor, **Color)


class RosPack(object):
    def get_path(self, name):
        return os.path.join(REPO, "aslam_offline_calibration", name)


module("rospkg", RosPack=RosPack)


def incremental():
    """aslam_incremental_calibration_python, which does not build here, as far as
    assembling and optimizing a problem goes"""
    import sm_numpy_eigen
    import aslam_backend_python as aopt

    class CalibrationOptimizationProblem(aopt.OptimizationProblem):
        def __init__(self):
            aopt.OptimizationProblem.__init__(self)
            self.groups = collections.defaultdict(list)

        def addDesignVariable(self, dv, group=0):
            self.groups[group].append(dv)
            aopt.OptimizationProblem.addDesignVariable(self, dv)

    class IncrementalEstimator(object):
        def __init__(self, group, *a):
            self.group = group

        def getLinearSolverOptions(self):
            return types.SimpleNamespace()

        getOptimizerOptions = getLinearSolverOptions

    return module("aslam_incremental_calibration_python", IncrementalEstimator=IncrementalEstimator,
                  CalibrationOptimizationProblem=CalibrationOptimizationProblem)

# ---- roslib: load_manifest only sets up paths ----
module("roslib", load_manifest=lambda name: None)


# ---- plot windows and reports: never opened here ----
class Anything(object):
    def __init__(self, *a, **kw):
        pass

    def __getattr__(self, name):
        return Anything()

    def __call__(self, *a, **kw):
        return Anything()


class PlotCollection(object):
    """figures collected under a name"""

    def __init__(self, window_name="", window_size=(800, 600)):
        self.figureList = {}

    def add_figure(self, tabname, fig):
        self.figureList[tabname] = fig

    def delete_figure(self, name):
        del self.figureList[name]

    def show(self):
        pass


module("sm_python.PlotCollection", PlotCollection=PlotCollection)
