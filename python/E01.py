"""The calibrators, end to end: simulated observations of known cameras."""
import contextlib, io, math, os, sys, types
import env, pbt
from pbt import claim
import numpy as np
import scipy.optimize
import sm_numpy_eigen
import sm_python
env.incremental()
import aslam_cv_python as acv
import aslam_cv_backend_python as acvb
import aslam_backend_python as aopt
import kalibr_common as kc
import kalibr_camera_calibration as kcc
import aslam_bsplines_python
import aslam_splines_python as asp
import aslam_incremental_calibration_python as inc
import kalibr_imu_camera_calibration.IccSensors as sens
import kalibr_imu_camera_calibration as icc

sm_python.setLoggingLevel(sm_python.LoggingLevel.Fatal)

# camera model, distortion, what calibrates it
MODELS = [("pinhole", "radtan", acvb.DistortedPinhole), ("pinhole", "equidistant", acvb.EquidistantPinhole),
          ("pinhole", "fov", acvb.FovPinhole), ("omni", "radtan", acvb.DistortedOmni), ("omni", "none", acvb.Omni),
          ("eucm", "none", acvb.ExtendedUnified), ("ds", "none", acvb.DoubleSphere)]


# the models the first guess of the focal length suits: lenses that bend lines into circles
WIDE = [m for m in MODELS if m[:2] not in [("pinhole", "radtan"), ("pinhole", "fov")]]


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()) as out:
        yield out


def stat(c, *a):
    if os.environ.get("E01_STAT"):
        open(os.environ["E01_STAT"], "a").write(" ".join(str(x) for x in a) + "\n")


# ---- the world ----
def rotation(axis, angle):
    axis = np.array(axis, float)
    n = np.linalg.norm(axis)
    if n < 1e-12:
        return np.eye(3)
    x, y, z = axis / n
    K = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    return np.eye(3) + math.sin(angle) * K + (1 - math.cos(angle)) * K.dot(K)


def pose(R, t):
    T = np.eye(4)
    T[:3, :3] = R
    T[:3, 3] = t
    return T


def inverse(T):
    return pose(T[:3, :3].T, -T[:3, :3].T.dot(T[:3, 3]))


def angleBetween(A, B):
    return math.acos(max(-1., min(1., (np.trace(A[:3, :3].T.dot(B[:3, :3])) - 1) / 2)))


def cameraValues(c, kind):
    model, dist, _ = kind
    w, h = c.pick([(752, 480), (640, 480), (1280, 1024), (480, 640)])
    f = c.real(.55, .9) * max(w, h)
    f = [f, f * c.real(.97, 1.03)]
    p = [w * c.real(.46, .54), h * c.real(.46, .54)]
    if model == "omni":
        xi = c.real(.6, 1.4)
        v = [xi] + [x * (1 + xi) * .8 for x in f] + p
    elif model == "eucm":
        v = [c.real(.35, .7), c.real(.8, 1.3)] + f + p
    elif model == "ds":
        v = [c.real(-.2, .3), c.real(.4, .65)] + f + p
    else:
        v = f + p
    d = {"radtan": [c.real(-.25, .1), c.real(-.02, .04), c.real(-.002, .002), c.real(-.002, .002)],
         "equidistant": [c.real(-.05, .05), c.real(-.02, .02), c.real(-.01, .01), c.real(-.005, .005)],
         "fov": [c.real(.6, 1.)], "none": []}[dist]
    return dict(kind=kind, v=v, d=d, size=(w, h))


def geometryOf(m, v=None, d=None):
    model, dist, _ = m["kind"]
    return kc.AslamCamera(model, v or m["v"], dist, d or m["d"], m["size"]).geometry


class Target(object):
    """what the calibrators ask of a target configuration"""
    def __init__(self, c):
        r, k = c.integer(5, 7), c.integer(5, 8)
        if c.oneIn(3):
            s = c.real(.05, .09)
            self.type, self.params = "aprilgrid", dict(tagRows=r - 2, tagCols=k - 2, tagSize=s, tagSpacing=c.real(.2, .4))
        else:
            self.type = "checkerboard"
            self.params = dict(targetRows=r, targetCols=k, rowSpacingMeters=c.real(.04, .08),
                               colSpacingMeters=c.real(.04, .08))

    def getTargetType(self):
        return self.type

    def getTargetParams(self):
        return self.params


class Dataset(object):
    def __init__(self, topic):
        self.topic = topic


def project(g, p):
    """the pixel of a point in front of the camera, or None"""
    if p[2] <= .05:
        return None
    k, _, ok = g.euclideanToKeypointJp(p)
    return np.array(k).flatten() if ok and g.isEuclideanVisible(p) else None


def points(grid):
    return np.array([np.array(grid.point(i)).flatten() for i in range(grid.size())])


def aimed(c, m, g, P, margin=.2):
    """a pose of the target in front of the camera (T_c_t), mostly inside the image"""
    w, h = m["size"]
    k = np.array([w * c.real(margin, 1 - margin), h * c.real(margin, 1 - margin)])
    ray = np.array(g.keypointToEuclidean(k)).flatten()
    ray = ray / np.linalg.norm(ray)
    size = np.linalg.norm(P.max(0) - P.min(0))
    f = m["v"][-4] * {"omni": 1 / (1 + m["v"][0])}.get(m["kind"][0], 1)
    distance = size * f / (min(w, h) * c.real(.5, .85))
    # the target faces the camera along the ray, then is tilted
    z = np.array([0., 0., 1.])
    R0 = rotation(np.cross(z, ray), math.acos(max(-1., min(1., ray[2]))))
    a = c.real(0, 2 * math.pi)
    tilt = rotation([math.cos(a), math.sin(a), 0.], c.real(.25, .7))
    spin = rotation(z, c.real(-math.pi, math.pi))
    R = R0.dot(tilt).dot(spin).dot(np.diag([1., -1., -1.]))
    return pose(R, ray * distance - R.dot((P.max(0) + P.min(0)) / 2))


def observe(c, grid, P, g, T_c_t, time, drop=0., noise=0.):
    """what a camera at that pose sees; None if too little of the target"""
    obs = acv.GridCalibrationTargetObservation(grid)
    obs.setTime(acv.Time(time))
    n = 0
    for i, p in enumerate(P):
        y = project(g, T_c_t[:3, :3].dot(p) + T_c_t[:3, 3])
        if y is not None and not (drop and c.real(0., 1.) < drop):
            obs.updateImagePoint(i, y + np.array([c.real(-noise, noise), c.real(-noise, noise)]) if noise else y)
            n += 1
    return obs if n >= max(12, .6 * len(P)) else None


def residuals(g, P, obs, T_c_t):
    """pixels between the observed corners and those of a camera model at a pose"""
    e = []
    for i, p in enumerate(P):
        seen, y = obs.imagePoint(i)
        if seen:
            k, _, ok = g.euclideanToKeypointJp(T_c_t[:3, :3].dot(p) + T_c_t[:3, 3])
            e.append(np.linalg.norm(np.array(k).flatten() - np.array(y).flatten()))
    return np.array(e)


def best(g, P, obs, T_c_t):
    """the residuals at the pose that suits this camera model best, near a given one"""
    seen = [(p, np.array(obs.imagePoint(i)[1]).flatten()) for i, p in enumerate(P) if obs.imagePoint(i)[0]]

    def f(x):
        R = T_c_t[:3, :3].dot(rotation(x[:3], np.linalg.norm(x[:3])))
        t = T_c_t[:3, 3] + x[3:]
        return np.concatenate([np.array(g.euclideanToKeypointJp(R.dot(p) + t)[0]).flatten() - y for p, y in seen])

    e = f(scipy.optimize.least_squares(f, np.zeros(6), method="lm", x_scale=[.01] * 6).x).reshape(-1, 2)
    return math.sqrt(np.mean(e**2) * 2)


def calibrator(m, target, start, topic="/cam0/image_raw"):
    """the calibrator's camera, and the truth as a geometry"""
    return kcc.CameraGeometry(m["kind"][2], target, Dataset(topic), geometry=start)


def disturbed(c, m, amount):
    v = list(m["v"])
    n = len(v) - 4
    for i in range(len(v)):
        # the shape parameters of the wide-angle models by less
        v[i] += (.02 * amount if i < n else .02 * amount * m["size"][0]) * c.real(-1., 1.)
    if n and m["kind"][0] != "ds":
        v[0] = max(v[0], .05)
    d = [x + .02 * amount * c.real(-1., 1.) * (1. if i < 2 else .05) for i, x in enumerate(m["d"])]
    return geometryOf(m, v, d)


def views(c, m, g, grid, P, n, drop=0., noise=0.):
    out = []
    for i in range(3 * n):
        T = aimed(c, m, g, P)
        o = observe(c, grid, P, g, T, 1. + .1 * i, drop, noise)
        if o is None:
            continue
        found, T_t_c = g.estimateTransformation(o)
        # a flat target can be seen two ways; where the solver takes the other, a calibration may stay there
        if found and residuals(g, P, o, inverse(T_t_c.T())).max() < .5 + 4 * noise:
            out.append((o, T))
            if len(out) == n:
                break
    if len(out) < n:
        c.discard()
    return out


class Strict(object):
    """the optimizer's module, with optimizers that run to the end: the calibrators
    stop once the cost, in square pixels over all corners, falls by less than one"""
    def __getattr__(self, name):
        return getattr(aopt, name)

    def Optimizer2(self, options):
        options.convergenceDeltaJ, options.convergenceDeltaX = 1e-9, 1e-9
        return aopt.Optimizer2(options)


@contextlib.contextmanager
def strictly(yes=True):
    m = sys.modules["kalibr_camera_calibration.CameraIntializers"]
    if yes:
        m.aopt = Strict()
    try:
        yield
    finally:
        m.aopt = aopt


# ---- one camera ----
@claim(90)
def intrinsics(c):
    """calibrateIntrinsics finds the camera that made the observations"""
    m = cameraValues(c, c.pick(MODELS))
    truth = geometryOf(m)
    target = Target(c)
    cam = calibrator(m, target, disturbed(c, m, c.real(0., 1.)))
    grid = cam.ctarget.detector.target()
    P = points(grid)
    vs = views(c, m, truth, grid, P, c.integer(10, 16))
    c.say(m["kind"][:2], m["v"], m["d"], target.params, len(vs), "views")
    c.label(m["kind"][0] + "-" + m["kind"][1])
    strict = not c.oneIn(4)
    with silent(), strictly(strict):
        ok = kcc.calibrateIntrinsics(cam, [o for o, _ in vs])
    c.check(ok, "the calibration fails")
    worst = max(best(cam.geometry, P, o, T) for o, T in vs)
    stat(c, m["kind"][:2], worst, strict)
    c.near(worst, 0., .02 if strict else 3., 0, "reprojection error after the calibration")
    c.nontrivial()


# ---- several cameras ----
def rig(c, n, identical=False):
    """cameras side by side, looking roughly the same way, and their poses (T_cN_c0)"""
    cams, T = [], [np.eye(4)]
    for i in range(n):
        cams.append(cameraValues(c, c.pick(MODELS)))
    for i in range(1, n):
        B = pose(rotation([c.real(-1., 1.) for _ in range(3)], c.real(0., .4)),
                 np.array([c.real(-.12, .12), c.real(-.06, .06), c.real(-.04, .04)]))
        T.append(B.dot(T[-1]))
    return cams, T


def unambiguous(g, P, o, T):
    found, T_t_c = g.estimateTransformation(o)
    return found and residuals(g, P, o, inverse(T_t_c.T())).max() < .5


def rigViews(c, cams, Ts, grid, P, n, missing=0., jitter=0.):
    """[(time, T_c0_t, {camera: observation})]"""
    gs = [geometryOf(m) for m in cams]
    out = []
    for i in range(4 * n):
        main = c.integer(0, len(cams) - 1)
        T = inverse(Ts[main]).dot(aimed(c, cams[main], gs[main], P, .3))
        seen, t = {}, 1. + i
        for k, g in enumerate(gs):
            if missing and c.real(0., 1.) < missing and not (k == main):
                continue
            o = observe(c, grid, P, g, Ts[k].dot(T), t + c.real(-jitter, jitter))
            if o is not None:
                if not unambiguous(g, P, o, Ts[k].dot(T)):
                    seen = {}
                    break
                seen[k] = o
        if seen:
            out.append((t, T, seen))
            if len(out) == n:
                return out
    c.discard()


def transformation(T):
    return sm_python.Transformation(np.array(T))


@claim(56)
def stereo(c):
    """stereoCalibrate finds the baseline of two cameras, also from views only one of them has"""
    cams, Ts = rig(c, 2)
    target = Target(c)
    # with the lens distortion held, it has to be the true one
    free = c.oneIn(2)
    start = [disturbed(c, m, c.real(0., .5)) if free else geometryOf(m, [x * (1 + c.real(-.01, .01)) for x in m["v"]])
             for m in cams]
    cs = [calibrator(m, target, g, "/cam%d" % i) for i, (m, g) in enumerate(zip(cams, start))]
    grid = cs[0].ctarget.detector.target()
    P = points(grid)
    vs = rigViews(c, cams, Ts, grid, P, c.integer(10, 15), .2)
    both = sum(len(s) == 2 for _, _, s in vs)
    if both < 5 or min(sum(k in s for _, _, s in vs) for k in (0, 1)) < 8:
        c.discard()
    obs = [(s.get(0), s.get(1)) for _, _, s in vs]
    guess = None
    if c.oneIn(3):
        guess = transformation(Ts[1].dot(pose(rotation([c.real(-1, 1) for _ in range(3)], c.real(0., .05)),
                                               [c.real(-.02, .02) for _ in range(3)])))
    c.say([m["kind"][:2] for m in cams], len(vs), both, free, guess is not None)
    c.label(cams[0]["kind"][0] + "+" + cams[1]["kind"][0])
    with silent(), strictly():
        ok, B = kcc.stereoCalibrate(cs[0], cs[1], obs, distortionActive=free, baseline=guess)
    c.check(ok, "the calibration fails")
    dt, dr = np.linalg.norm(B.T()[:3, 3] - Ts[1][:3, 3]), angleBetween(B.T(), Ts[1])
    e = max(best(cs[k].geometry, P, o, Ts[k].dot(T)) for _, T, s in vs for k, o in s.items())
    stat(c, "stereo", [m["kind"][:2] for m in cams], free, guess is not None, dt, dr, e)
    c.near(e, 0., .1, 0, "reprojection error")
    c.near(dt, 0., 1e-3, 0, "translation of the baseline")
    c.near(dr, 0., 2e-3, 0, "rotation of the baseline")
    c.nontrivial()


@claim(24)
def chain(c):
    """from the observations of a rig, whichever cameras see the target together, to all its baselines"""
    n = c.integer(2, 4)
    cams, Ts = rig(c, n)
    target = Target(c)
    cs = [calibrator(m, target, geometryOf(m, [x * (1 + c.real(-.005, .005)) for x in m["v"]]), "/cam%d" % i)
          for i, m in enumerate(cams)]
    grid = cs[0].ctarget.detector.target()
    P = points(grid)
    # the pairs of cameras that see the target together: enough to connect all
    order = list(range(n))
    for i in range(n - 1, 0, -1):
        j = c.integer(0, i)
        order[i], order[j] = order[j], order[i]
    pairs = [(order[c.integer(0, i - 1)], order[i]) for i in range(1, n)]
    if c.oneIn(3) and n > 2:
        pairs.append((order[0], order[-1]))
    tol = c.pick([0., .002, .02])
    gs = [geometryOf(m) for m in cams]
    views_, at, t = [], {}, 1.
    for pair in pairs:
        got = 0
        want = c.integer(7, 10)
        for _ in range(5 * want):
            a = c.pick(pair)
            T = inverse(Ts[a]).dot(aimed(c, cams[a], gs[a], P, .3))
            t += 1.
            seen = {}
            for k in pair:
                o = observe(c, grid, P, gs[k], Ts[k].dot(T), t + (c.real(-.4, .4) * tol if tol else 0.))
                if o is None or not unambiguous(gs[k], P, o, Ts[k].dot(T)):
                    break
                seen[k] = o
            if len(seen) == 2:
                views_.append((T, seen))
                at[round(t)] = views_[-1]
                got += 1
                if got == want:
                    break
        if got < want:
            c.discard()
    db = kcc.ObservationDatabase(tol)
    for k in range(n):
        for _, s in views_:
            if k in s:
                db.addObservation(k, s[k])
    graph = kcc.MulticamCalibrationGraph(db)
    c.say(n, "cameras", [m["kind"][:2] for m in cams], "pairs", pairs, len(views_), "views, tolerance", tol)
    c.label("%d cameras" % n)
    c.eq(len(db.getAllViewTimestamps()), len(views_), "views in the observation table")
    c.check(graph.isGraphConnected(), "the cameras are not connected")
    want = set(tuple(sorted(p)) for p in pairs)
    for a in range(n):
        c.eq(sorted(graph.getCamOverlaps(a)), sorted(b for b in range(n) if (min(a, b), max(a, b)) in want),
                "cameras that share views with %d" % a)
    truth = [Ts[i + 1].dot(inverse(Ts[i])) for i in range(n - 1)]
    with silent(), strictly():
        B = graph.getInitialGuesses(cs)
    c.eq(len(B), n - 1, "baselines")
    dt = max(np.linalg.norm(b.T()[:3, 3] - T[:3, 3]) for b, T in zip(B, truth))
    dr = max(angleBetween(b.T(), T) for b, T in zip(B, truth))
    e = max(best(cs[k].geometry, P, o, Ts[k].dot(T)) for T, s in views_ for k, o in s.items())
    g = 0.
    for t in db.getAllViewTimestamps():
        T = at[round(t)]
        c.eq(sorted(dict(db.getAllObsAtTimestamp(t))), sorted(T[1]), "cameras of a view")
        T_t_c0 = graph.getTargetPoseGuess(t, cs, B)
        g = max(g, np.linalg.norm(inverse(T_t_c0.T())[:3, 3] - T[0][:3, 3]))
    stat(c, "chain", n, pairs, dt, dr, e, g)
    c.near(e, 0., .1, 0, "reprojection error")
    c.near(dt, 0., 1e-3, 0, "translation of the baselines")
    c.near(dr, 0., 2e-3, 0, "rotation of the baselines")
    c.near(g, 0., .02, 0, "pose of the target")
    c.nontrivial()


# ---- the incremental calibrator, with a full optimization in the estimator's place ----
class FullEstimator(object):
    """keeps all batches and optimizes them together"""
    def __init__(self, accept):
        self.batches, self.accept = [], accept

    def getOptimizerOptions(self):
        return types.SimpleNamespace(maxIterations=1000)

    getLinearSolverOptions = getOptions = getOptimizerOptions

    def addBatch(self, batch, force=False):
        ok = force or self.accept()
        if ok:
            self.batches.append(batch)
        return types.SimpleNamespace(numIterations=1, batchAccepted=ok)

    def optimize(self, problem=None):
        whole = aopt.OptimizationProblem()
        for b in self.batches:
            for group in b.groups.values():
                for dv in group:
                    try:
                        whole.addDesignVariable(dv)
                    except RuntimeError as e:
                        if "already been added" not in str(e):
                            raise
            for i in range(b.numErrorTerms()):
                whole.addErrorTerm(b.errorTerm(i))
        o = aopt.Optimizer2Options()
        o.verbose, o.nThreads, o.maxIterations = False, 2, 100
        o.convergenceDeltaJ, o.convergenceDeltaX = 1e-10, 1e-10
        o.trustRegionPolicy = aopt.LevenbergMarquardtTrustRegionPolicy(10)
        opt = aopt.Optimizer2(o)
        opt.setProblem(whole)
        return opt.optimize()


def incrementalEstimator(make):
    m = sys.modules["kalibr_camera_calibration.CameraCalibrator"]
    m.ic.IncrementalEstimator = lambda *a: make


@claim(48)
def views_of_rig(c):
    """the views a calibration is made of, its errors and statistics, and what it finds from all of them"""
    n = c.integer(1, 3)
    cams, Ts = rig(c, n)
    target = Target(c)
    amount = c.pick([0., .3])
    cs = [calibrator(m, target, disturbed(c, m, amount) if amount else geometryOf(m), "/cam%d" % i)
          for i, m in enumerate(cams)]
    for k in cs:
        k.isGeometryInitialized = True
    grid = cs[0].ctarget.detector.target()
    P = points(grid)
    vs = rigViews(c, cams, Ts, grid, P, c.integer(8, 11), .15)
    if min(sum(k in s for _, _, s in vs) for k in range(n)) < 7 or (
            n > 1 and min(sum(k in s and k + 1 in s for _, _, s in vs) for k in range(n - 1)) < 4):
        c.discard()
    wrong = .01 if amount else 0.
    guess = [transformation(pose(rotation([c.real(-1, 1) for _ in range(3)], wrong), [c.real(-wrong, wrong) for _ in range(3)])
                            .dot(Ts[i + 1].dot(inverse(Ts[i])))) for i in range(n - 1)]
    est = FullEstimator(lambda: not c.oneIn(5))
    incrementalEstimator(est)
    mest = c.oneIn(2)
    landmarks = c.oneIn(4)
    c.say([m["kind"][:2] for m in cams], len(vs), "views", "disturbed" if amount else "true", mest, landmarks)
    c.label("%d cameras" % n)
    with silent():
        cal = kcc.CameraCalibration(cs, guess, estimateLandmarks=landmarks, useBlakeZissermanMest=mest)
        used = []
        for _, T, s in vs:
            b = [(k, s[k]) for k in c.shuffled(sorted(s))]
            if cal.addTargetView(b, transformation(inverse(T)), c.oneIn(2)):
                used.append((T, s))
    c.eq(len(cal.views), len(used), "views kept")
    c.eq([id(v) for v in cal.views], [id(b) for b in est.batches], "views and batches")
    if len(used) < 7 or min(sum(k in s for _, s in used) for k in range(n)) < 6 or (
            n > 1 and min(sum(k in s and k + 1 in s for _, s in used) for k in range(n - 1)) < 3):
        c.discard()
    for v, (T, s) in zip(cal.views, used):
        seen = {k: [i for i in range(grid.size()) if o.imagePoint(i)[0]] for k, o in s.items()}
        c.eq(v.numErrorTerms(), sum(len(x) for x in seen.values()), "error terms of a view")
        for k, r in v.rerrs.items():
            c.eq([i for i, x in enumerate(r) if x is not None], seen[k], "corners with an error term")
            for i in seen[k]:
                c.near(np.array(r[i].getMeasurement()).flatten(), np.array(s[k].imagePoint(i)[1]).flatten(), 0, 0,
                       "measurement of a corner")
        c.eq(sorted(v.rerrs), sorted(s), "cameras of a view")
    if amount == 0.:
        # the truth explains everything
        for v in cal.views:
            worst = max([abs(e) for i in range(v.numErrorTerms()) for e in (v.errorTerm(i).evaluateError(),)])
            c.near(worst, 0., 1e-12, 0, "squared error of a corner at the truth")
    else:
        est.optimize()
        if not landmarks and not mest:
            e = max(best(cs[k].geometry, P, o, Ts[k].dot(T)) for T, s in used for k, o in s.items())
            dt = max([0.] + [np.linalg.norm(b.T()[:3, 3] - Ts[i + 1].dot(inverse(Ts[i]))[:3, 3])
                             for i, b in enumerate(cal.baselines)])
            stat(c, "batch", [m["kind"][:2] for m in cams], e, dt)
            c.near(e, 0., .1, 0, "reprojection error")
            c.near(dt, 0., 2e-3, 0, "translation of the baselines")
    # the statistics are those of the errors of the cameras as they are now
    for v in cal.views:
        for i in range(v.numErrorTerms()):
            v.errorTerm(i).evaluateError()
    k = c.integer(0, n - 1)
    corners, reprojections, errors = kcc.getReprojectionErrors(cal, k)
    flat = []
    for vi, (v, (T, s)) in enumerate(zip(cal.views, used)):
        if k not in s:
            c.check(corners[vi] is None and errors[vi] is None and reprojections[vi] is None, "errors of an unseen view")
            c.check(not kcc.getPointStatistics(cal, vi, k, 0).valid, "statistics of an unseen view")
            continue
        T_t_c = np.array(v.dv_T_target_camera.T())
        chain_ = np.eye(4)
        for b in cal.baselines[:k]:
            chain_ = np.array(b.T()).dot(chain_)
        M = chain_.dot(inverse(T_t_c))
        with silent():
            one = c.integer(0, grid.size() - 1)
            st = kcc.getPointStatistics(cal, vi, k, one)
        c.eq(st.valid, s[k].imagePoint(one)[0], "validity of a corner's statistics")
        for i in range(grid.size()):
            seen, y = s[k].imagePoint(i)
            if not seen:
                c.check(errors[vi][i][0] is None, "error of an unseen corner")
                continue
            y = np.array(y).flatten()
            p = P[i]
            if landmarks:
                h = np.array(cal.target.P_t_dv[i].toExpression().toHomogeneous()).flatten()
                p = h[:3] / h[3]
            z = project(cs[k].geometry, M[:3, :3].dot(p) + M[:3, 3])
            if z is None:
                c.discard()
            c.near(np.array(corners[vi][i], float), y, 1e-12, 0, "corner")
            c.near(np.array(reprojections[vi][i], float), z, 1e-7, 0, "reprojection of a corner")
            c.near(np.array(errors[vi][i], float), y - z, 1e-7, 0, "error of a corner")
            flat.append(y - z)
            if i == one:
                c.near(np.array(st.y).flatten(), y, 0, 0, "corner of the point statistics")
                c.near(np.array(st.yhat).flatten(), z, 1e-7, 0, "reprojection of the point statistics")
                c.near(st.squaredError, float(np.sum((y - z)**2)), 1e-6, 1e-6, "squared error of the point statistics")
                ray = np.array(cs[k].geometry.keypointToEuclidean(y)).flatten()
                c.near(math.tan(st.polarAngle / 2), math.tan(math.atan2(np.hypot(ray[0], ray[1]), ray[2]) / 2), 1e-6, 1e-6,
                       "polar angle")
    mean, std = kcc.getReprojectionErrorStatistics(errors)
    c.near(np.array(mean, float), np.mean(flat, 0), 1e-7, 0, "mean error")
    c.near(np.array(std, float), np.std(flat, 0), 1e-7, 0, "standard deviation of the error")
    # the uncertainties: baselines first, then each camera's distortion and projection
    dims = [len(m["d"]) + len(m["v"]) for m in cams]
    sigmas = np.arange(1., 6 * (n - 1) + sum(dims) + 1)
    est.getSigma2Theta = lambda: np.diag(sigmas**2)
    sb, sc = sys.modules["kalibr_camera_calibration.CameraCalibrator"].recoverCovariance(cal)
    c.near(np.array(sb).flatten(), sigmas[:6 * (n - 1)], 1e-9, 0, "uncertainty of the baselines")
    c.eq([len(x) for x in sc], dims, "numbers of parameters with an uncertainty")
    c.near(np.concatenate(sc), sigmas[6 * (n - 1):], 1e-9, 0, "uncertainty of the cameras")
    # taking corners out
    vi = c.integer(0, len(cal.views) - 1)
    v, (T, s) = cal.views[vi], used[vi]
    cut = []
    for k, o in s.items():
        seen = [i for i in range(grid.size()) if o.imagePoint(i)[0]]
        cut.append((k, c.subset(seen)))
    if any(x for _, x in cut):
        before = {k: [None if r is None else (np.array(r.getMeasurement()).flatten(),) for r in rs] for k, rs in v.rerrs.items()}
        with silent():
            w = kcc.removeCornersFromBatch(v, cut, useBlakeZissermanMest=mest)
        c.eq(sorted(w.rerrs), sorted(before), "cameras after corners were removed")
        for k, rs in w.rerrs.items():
            gone = set(dict(cut)[k])
            for i, r in enumerate(rs):
                c.eq(r is None, before[k][i] is None or i in gone, "corner %d of camera %d after removals" % (i, k))
                if r is not None:
                    c.near(np.array(r.getMeasurement()).flatten(), before[k][i][0], 0, 0, "corner left")
        c.eq(w.numErrorTerms(), sum(r is not None for rs in w.rerrs.values() for r in rs), "error terms left")
    c.nontrivial()


@claim(30)
def from_scratch(c):
    """a camera nobody knows anything about"""
    m = cameraValues(c, c.pick(WIDE))
    truth = geometryOf(m)
    target = Target(c)
    cam = kcc.CameraGeometry(m["kind"][2], target, Dataset("/cam0/image_raw"))
    grid = cam.ctarget.detector.target()
    P = points(grid)
    out = []
    for i in range(40):
        T = aimed(c, m, truth, P)
        o = observe(c, grid, P, truth, T, 1. + .1 * i)
        if o is not None and unambiguous(truth, P, o, T) and len(o.getCornersIdx()) == len(P):
            o.setImage(np.zeros((m["size"][1], m["size"][0]), dtype="uint8"))
            out.append((o, T))
            if len(out) == 16:
                break
    if len(out) < 16:
        c.discard()
    c.say(m["kind"][:2], m["v"], m["d"])
    c.label(m["kind"][0] + "-" + m["kind"][1])
    with silent(), strictly():
        ok = cam.initGeometryFromObservations([o for o, _ in out])
    if not ok:
        # the optimizer left the range of the lens: reported, and rare
        c.check(m["kind"][1] not in ("equidistant", "radtan"), "the calibration fails")
        c.discard()
    worst = max(best(cam.geometry, P, o, T) for o, T in out)
    stat(c, "scratch", m["kind"][:2], ok, worst)
    c.near(worst, 0., 3., 0, "reprojection error after the calibration")
    c.nontrivial()


# ---- IMUs ----
def vector3(v):
    return types.SimpleNamespace(x=v[0], y=v[1], z=v[2])


def imuMessages(ts, omega, alpha):
    return [(types.SimpleNamespace(header=types.SimpleNamespace(stamp=env.Stamp(int(t // 1), int(round((t % 1) * 1e9)))),
                                   angular_velocity=vector3(w), linear_acceleration=vector3(a)),
             env.Stamp(k, 0)) for k, (t, w, a) in enumerate(zip(ts, omega, alpha))]


def imuConfig(topic, rate, accel, gyro):
    p = kc.ImuParameters("none.yaml", createYaml=True)
    p.setRosTopic(topic)
    p.setUpdateRate(rate)
    p.setAccelerometerStatistics(*accel)
    p.setGyroStatistics(*gyro)
    return p


def parsed():
    return types.SimpleNamespace(bagfile=["bag"], bag_from_to=None, perform_synchronization=False, reprojection_sigma=1.,
                                 showextraction=False, extractionstepping=False)


def derivatives(T, t, h=2e-4, k=2e-3):
    """acceleration and angular velocity in the body, from poses T_w_b alone"""
    R = T(t)[:3, :3]
    D = (-T(t + 2 * h) + 8 * T(t + h) - 8 * T(t - h) + T(t - 2 * h))[:3, :3] / (12 * h)
    W = R.T.dot(D)
    a = (-T(t + 2 * k) + 16 * T(t + k) - 30 * T(t) + 16 * T(t - k) - T(t - 2 * k))[:3, 3] / (12 * k * k)
    return a, np.array([W[2, 1] - W[1, 2], W[0, 2] - W[2, 0], W[1, 0] - W[0, 1]]) / 2


class Motion(object):
    """a smooth motion of the body: T_w_b as a function of time"""
    def __init__(self, c, base, angle, shift, fmax, pulse=0.):
        self.base = base
        wave = lambda a: [(a * c.real(.4, 1.) / (1 + k), 2 * math.pi * c.real(.25, 1.) * fmax, c.real(0., 2 * math.pi))
                          for k in range(2)]
        self.r = [wave(angle) for _ in range(3)]
        self.t = [wave(shift) for _ in range(3)]

    def __call__(self, t):
        f = lambda w: sum(a * math.sin(o * t + p) for a, o, p in w)
        phi = np.array([f(w) for w in self.r])
        return self.base.dot(pose(rotation(phi, np.linalg.norm(phi)), [f(w) for w in self.t]))


def lowerTriangular(c, wrong):
    return np.array([[1 + c.real(-wrong, wrong) if i == j else c.real(-wrong, wrong) if j < i else 0.
                      for j in range(3)] for i in range(3)])


def quaternion(R):
    return np.array(sm_python.r2quat(np.array(R))).flatten()


@claim(120)
def imu_terms(c):
    """the measurements each IMU model predicts are those of an IMU that moves like that"""
    kind = c.pick([sens.IccImu, sens.IccScaledMisalignedImu, sens.IccScaledMisalignedSizeEffectImu])
    base = pose(rotation([c.real(-1, 1) for _ in range(3)], c.real(0., 3.)), [c.real(-2, 2) for _ in range(3)])
    move = Motion(c, base, .5, .3, 1.5)
    seconds = c.real(.5, 1.)
    t0 = c.pick([0., 5., 1000.])
    ts = np.linspace(t0, t0 + seconds, 40)
    bs = aslam_bsplines_python.BSplinePose(c.integer(5, 6), sm_python.RotationVector())
    curve = np.array([np.array(bs.transformationToCurveValue(move(t))).flatten() for t in ts]).T
    for i in range(1, curve.shape[1]):
        if np.linalg.norm(curve[3:, i] - curve[3:, i - 1]) > 1.:
            c.discard()
    bs.initPoseSplineSparse(ts, curve, c.integer(8, 20), 1e-6)
    T = lambda t: np.array(bs.transformation(t))
    # the IMU
    reference = c.oneIn(3)
    R_i_b = np.eye(3) if reference else rotation([c.real(-1, 1) for _ in range(3)], c.real(0., 3.))
    r_b = np.zeros(3) if reference else np.array([c.real(-.3, .3) for _ in range(3)])
    ba, bg = np.array([c.real(-.5, .5) for _ in range(3)]), np.array([c.real(-.1, .1) for _ in range(3)])
    g = rotation([c.real(-1, 1) for _ in range(3)], c.real(0., 3.)).dot([0., 0., 9.81])
    M_a, M_g, A, R_g = np.eye(3), np.eye(3), np.zeros((3, 3)), np.eye(3)
    arms = np.zeros((3, 3))
    if kind is not sens.IccImu:
        M_a, M_g = lowerTriangular(c, .2), lowerTriangular(c, .2)
        A = np.array([[c.real(-.01, .01) for _ in range(3)] for _ in range(3)])
        R_g = rotation([c.real(-1, 1) for _ in range(3)], c.real(0., .5))
    if kind is sens.IccScaledMisalignedSizeEffectImu:
        arms = np.array([[c.real(-.05, .05) for _ in range(3)] for _ in range(3)])
    offset = 0. if c.oneIn(2) else c.real(-.02, .02)
    stamps = sorted(round(t0 + c.real(-.1, seconds + .1), 6) for _ in range(c.integer(4, 12)))
    stamps = [t for i, t in enumerate(stamps) if i == 0 or t - stamps[i - 1] > 1e-5]
    stamps = [t for t in stamps if t >= 0.]
    lo, hi = bs.t_min(), bs.t_max()
    omega, alpha, inside, off = [], [], [], []
    for t in stamps:
        s = t + offset
        # (an error of 1e-6 in where the ends lie does not matter, nor do derivatives across the ends)
        if min(abs(s - lo), abs(s - hi)) < 6e-3:
            c.discard()
        inside.append(lo < s < hi)
        off.append((np.array([c.real(-.1, .1) for _ in range(3)]), np.array([c.real(-1, 1) for _ in range(3)])))
        if not inside[-1]:
            omega.append(np.zeros(3))
            alpha.append(np.zeros(3))
            continue
        a, w = derivatives(T, s)
        # (the angular acceleration of splines is a finding of its own: S03)
        dw = np.array(bs.angularAccelerationBodyFrame(s)).flatten()
        C_b_w = T(s)[:3, :3].T
        at = lambda r: C_b_w.dot(a - g) + np.cross(dw, r) + np.cross(w, np.cross(w, r))
        # each axis of the accelerometer lies at its own place
        sf = np.array([R_i_b.dot(at(r_b + R_i_b.T.dot(arms[k])))[k] for k in range(3)])
        alpha.append(M_a.dot(sf) + ba + off[-1][1])
        omega.append(M_g.dot(R_g.dot(R_i_b.dot(w))) + A.dot(R_g.dot(R_i_b.dot(at(r_b)))) + bg + off[-1][0])
    if len(stamps) < 2:
        c.discard()
    env.BAGS["bag"] = {"/imu": imuMessages(stamps, omega, alpha)}
    rate = c.pick([100., 200., 400.])
    na, ng = c.logReal(1e-4, 1e-1), c.logReal(1e-5, 1e-2)
    c.say(kind.__name__, "reference" if reference else "second", "offset", offset, sum(inside), "of", len(stamps))
    c.label(kind.__name__)
    scales = c.pick([(1., 1.), (2., 3.)])
    mests = c.pick([(0., 0.), (50., 100.)])
    with silent():
        imu = kind(imuConfig("/imu", rate, (na, .01), (ng, .001)), parsed(), isReferenceImu=reference)
        imu.timeOffset = offset
        imu.GyroBiasPrior = bg
        imu.initBiasSplines(bs, 4, 5)
        imu.accelBias.initConstantSpline(lo, hi, 5, ba)
        imu.q_i_b_prior = quaternion(R_i_b)
        problem = inc.CalibrationOptimizationProblem()
        pv = asp.BSplinePoseDesignVariable(bs)
        sens.addSplineDesignVariables(problem, pv)
        imu.addDesignVariables(problem)
        c.eq(bool(imu.r_b_Dv.isActive()), not reference, "whether the position of the IMU is estimated")
        c.eq(bool(imu.q_i_b_Dv.isActive()), not reference, "whether the orientation of the IMU is estimated")
        imu.r_b_Dv = aopt.EuclideanPointDv(r_b)
        given = [imu.r_b_Dv]
        if kind is not sens.IccImu:
            imu.q_gyro_i_Dv = aopt.RotationQuaternionDv(quaternion(R_g))
            full, low = np.ones((3, 3), dtype=int), np.tril(np.ones((3, 3), dtype=int))
            imu.M_accel_Dv, imu.M_gyro_Dv = aopt.MatrixBasicDv(M_a, low), aopt.MatrixBasicDv(M_g, low)
            imu.M_accel_gyro_Dv = aopt.MatrixBasicDv(A, full)
            given += [imu.q_gyro_i_Dv, imu.M_accel_Dv, imu.M_gyro_Dv, imu.M_accel_gyro_Dv]
        if kind is sens.IccScaledMisalignedSizeEffectImu:
            imu.rx_i_Dv, imu.ry_i_Dv, imu.rz_i_Dv = [aopt.EuclideanPointDv(arms[k]) for k in range(3)]
            given += [imu.rx_i_Dv, imu.ry_i_Dv, imu.rz_i_Dv]
        gdv = aopt.EuclideanPointDv(g) if c.boolean() else aopt.EuclideanDirection(g)
        for dv in given + [gdv]:
            problem.addDesignVariable(dv, 1)
        imu.addAccelerometerErrorTerms(problem, pv, gdv.toExpression(), mSigma=mests[0], accelNoiseScale=scales[0])
        imu.addGyroscopeErrorTerms(problem, pv, mSigma=mests[1], gyroNoiseScale=scales[1], g_w=gdv.toExpression())
    c.eq(len(imu.accelErrors), sum(inside), "accelerometer readings used")
    c.eq(len(imu.gyroErrors), sum(inside), "gyroscope readings used")
    k = 0
    for i in range(len(stamps)):
        if not inside[i]:
            continue
        for terms, density, scale, m, d, size in [(imu.accelErrors, na, scales[0], mests[0], off[i][1], 30.),
                                                  (imu.gyroErrors, ng, scales[1], mests[1], off[i][0], 10.)]:
            e = terms[k]
            e.evaluateError()
            got = np.array(e.error()).flatten()
            c.near(got * (1 if np.dot(got, d) > 0 else -1), d, 1e-4 * size, 0, "error of a reading")
            w = 1. / (density**2 * rate * scale)
            c.near(e.getRawSquaredError(), float(np.dot(got, got)) * w, 0, 1e-9, "squared error of a reading")
        k += 1
    c.nontrivial(sum(inside) > 1)


def chainConfig(cams, Ts):
    config = kc.CameraChainParameters("chain.yaml", createYaml=True)
    for i, m in enumerate(cams):
        p = kc.CameraParameters("cam.yaml", createYaml=True)
        p.setRosTopic("/cam%d" % i)
        p.setIntrinsics(m["kind"][0], list(m["v"]))
        p.setDistortion(m["kind"][1], list(m["d"]))
        p.setResolution(list(m["size"]))
        config.addCameraAtEnd(p)
    for i in range(1, len(cams)):
        config.setExtrinsicsLastCamToHere(i, transformation(Ts[i].dot(inverse(Ts[i - 1]))))
    return config


@claim(12)
def imu_camera(c):
    """the IMU-camera calibrator finds where the cameras are on the body, their delays, gravity and biases"""
    n = c.pick([1, 1, 2])
    cams, Ts = rig(c, n)
    gs = [geometryOf(m) for m in cams]
    target = Target(c)
    grid = calibrator(cams[0], target, gs[0]).ctarget.detector.target()
    P = points(grid)
    T_c_b = pose(rotation([c.real(-1, 1) for _ in range(3)], c.real(0., 3.)), [c.real(-.15, .15) for _ in range(3)])
    look = inverse(aimed(c, cams[0], gs[0], P, .45))
    camera = Motion(c, look, .35, .12, 1.2)
    body = lambda t: camera(t).dot(T_c_b)
    g = rotation([c.real(-1, 1) for _ in range(3)], c.real(0., 3.)).dot([0., 0., 9.80655])
    ba, bg = np.array([c.real(-.2, .2) for _ in range(3)]), np.array([c.real(-.02, .02) for _ in range(3)])
    seconds, rate = c.real(3., 4.), c.pick([100., 200.])
    delays = c.oneIn(4)
    shift = [0. if delays else c.real(-.03, .03) for _ in cams]
    t0 = c.pick([1., 1000.])
    times = np.arange(t0, t0 + seconds, 1. / rate)
    readings = [derivatives(body, t) for t in times]
    force = [body(t)[:3, :3].T.dot(a - g) for t, (a, _) in zip(times, readings)]
    model = c.pick([sens.IccImu, sens.IccImu, sens.IccScaledMisalignedImu, sens.IccScaledMisalignedSizeEffectImu])
    M_a, M_g, A, R_g = np.eye(3), np.eye(3), np.zeros((3, 3)), np.eye(3)
    if model is not sens.IccImu:
        M_a, M_g = lowerTriangular(c, .05), lowerTriangular(c, .05)
        A = np.array([[c.real(-.002, .002) for _ in range(3)] for _ in range(3)])
        R_g = rotation([c.real(-1, 1) for _ in range(3)], c.real(0., .05))
    alpha = [M_a.dot(f) + ba for f in force]
    omega = [M_g.dot(R_g).dot(w) + A.dot(R_g).dot(f) + bg for (_, w), f in zip(readings, force)]
    # another IMU on the same body
    second = c.oneIn(3)
    if second:
        kind = c.pick([sens.IccImu, sens.IccScaledMisalignedImu, sens.IccScaledMisalignedSizeEffectImu])
        R2, r2 = rotation([c.real(-1, 1) for _ in range(3)], c.real(0., 3.)), np.array([c.real(-.02, .02) for _ in range(3)])
        b2 = [np.array([c.real(-.02, .02) for _ in range(3)]), np.array([c.real(-.2, .2) for _ in range(3)])]
        times2 = np.arange(t0, t0 + seconds, 1. / rate) + .001
        full = lambda t: derivatives(body, t) + ((derivatives(body, t + 1e-3)[1] - derivatives(body, t - 1e-3)[1]) / 2e-3,)
        omega2, alpha2 = [], []
        for t in times2:
            a, w, dw = full(t)
            omega2.append(R2.dot(w) + b2[0])
            alpha2.append(R2.dot(body(t)[:3, :3].T.dot(a - g) + np.cross(dw, r2) + np.cross(w, np.cross(w, r2))) + b2[1])
    observations = {}
    for k in range(n):
        out = []
        for t in np.arange(t0 + .1, t0 + seconds - .1, .05):
            T_w_c = camera(t).dot(inverse(Ts[k]))
            o = observe(c, grid, P, gs[k], inverse(T_w_c), t - shift[k])
            if o is not None:
                wrong = pose(rotation([c.real(-1, 1) for _ in range(3)], .002), [c.real(-.001, .001) for _ in range(3)])
                o.set_T_t_c(transformation(T_w_c.dot(wrong)))
                out.append(o)
        if len(out) < .8 * (seconds - .2) / .05:
            c.discard()
        observations["/cam%d" % k] = out
    kc.extractCornersFromDataset = lambda dataset, *a, **kw: observations[dataset.topic]
    env.BAGS["bag"] = {"/imu": imuMessages(times, omega, alpha)}
    if second:
        env.BAGS["bag"]["/imu2"] = imuMessages(times2, omega2, alpha2)
    for k in range(n):
        env.BAGS["bag"]["/cam%d" % k] = imuMessages([t0], [np.zeros(3)], [np.zeros(3)])
    free = n > 1 and c.oneIn(2)
    c.say([m["kind"][:2] for m in cams], target.type, model.__name__, "at", rate, "Hz for", seconds, "s, delays", shift, "free" if free else "")
    c.label("%d cameras" % n)
    wrongTs = [Ts[0]] + [pose(rotation([c.real(-1, 1) for _ in range(3)], .01), [c.real(-.005, .005) for _ in range(3)])
                         .dot(T) for T in Ts[1:]] if free else Ts
    with silent():
        ch = sens.IccCameraChain(chainConfig(cams, wrongTs), target, parsed())
        imu = model(imuConfig("/imu", rate, (.01, .0002), (.001, .00001)), parsed())
        cal = icc.IccCalibrator()
        cal.registerCamChain(ch)
        cal.registerImu(imu)
        if second:
            imu2 = kind(imuConfig("/imu2", rate, (.01, .0002), (.001, .00001)), parsed(), isReferenceImu=False, estimateTimedelay=False)
            cal.registerImu(imu2)
            imu2.findOrientationPrior(imu)
        robust = dict(blakeZisserCam=20., huberAccel=20., huberGyro=20.) if c.oneIn(3) else {}
        cal.buildProblem(poseKnotsPerSecond=50, biasKnotsPerSecond=5, noTimeCalibration=delays, noChainExtrinsics=not free,
                         timeOffsetPadding=.1, doPoseMotionError=False, **robust)
        o = aopt.Optimizer2Options()
        o.verbose, o.nThreads, o.maxIterations, o.convergenceDeltaX, o.convergenceDeltaJ = False, 2, 50, 1e-7, 1e-4
        o.trustRegionPolicy = aopt.LevenbergMarquardtTrustRegionPolicy(10.)
        o.linearSolver = aopt.BlockCholeskyLinearSystemSolver()
        cal.optimize(options=o)
    for k in range(n):
        T = np.array(cal.CameraChain.getResultTrafoImuToCam(k).T())
        want = Ts[k].dot(T_c_b)
        dr, dt = angleBetween(T, want), np.linalg.norm(T[:3, 3] - want[:3, 3])
        ds = abs(cal.CameraChain.getResultTimeShift(k) - shift[k])
        stat(c, "imu", str(second)+model.__name__, n, delays, free, dr, dt, ds)
        c.near(dr, 0., .05 if second else 1e-4, 0, "orientation of camera %d" % k)
        c.near(dt, 0., .05 if second else 1e-4, 0, "position of camera %d" % k)
        c.near(ds, 0., .005 if second else 1e-6, 0, "delay of camera %d" % k)
    dg = np.linalg.norm(np.array(cal.gravityDv.toEuclidean()).flatten() - g)
    db = max(np.linalg.norm(np.array(imu.gyroBiasDv.spline().eval(t0 + seconds / 2)).flatten() - bg),
             np.linalg.norm(np.array(imu.accelBiasDv.spline().eval(t0 + seconds / 2)).flatten() - ba))
    stat(c, "imu2", str(second)+model.__name__, dg, db)
    c.near(dg, 0., 1. if second else 5e-3, 0, "gravity")
    c.near(db, 0., 1. if second else 5e-3, 0, "biases")
    if model is not sens.IccImu:
        e = max(np.abs(np.array(a) - b).max() for a, b in [
            (imu.M_accel_Dv.toMatrix3x3(), M_a), (imu.M_gyro_Dv.toMatrix3x3(), M_g),
            (imu.M_accel_gyro_Dv.toMatrix3x3(), A), (imu.q_gyro_i_Dv.toRotationMatrix(), R_g)])
        stat(c, "imu4", second, model.__name__, e)
        c.near(e, 0., .1 if second else 1e-3, 0, "scales, misalignments and couplings")
    if second:
        # (less exactly: the angular acceleration of splines is a finding of its own)
        dr = angleBetween(np.array(imu2.q_i_b_Dv.toRotationMatrix()), R2)
        dt = np.linalg.norm(np.array(imu2.r_b_Dv.toEuclidean()).flatten() - r2)
        stat(c, "imu3", kind.__name__, dr, dt)
        c.near(dr, 0., .1, 0, "orientation of the second IMU")
        c.near(dt, 0., .1, 0, "position of the second IMU")
    c.nontrivial()


if __name__ == "__main__":
    pbt.main("E01", "all corners of the views enter a calibration that starts away from the truth")
