"""The calibration tools' configuration files, observation tables, graphs and exporters."""
import contextlib, io, itertools, math, os, re, runpy, shutil, sys, tempfile, types
import env, pbt
from pbt import claim, known
import numpy as np
import yaml
import sm_numpy_eigen
import sm_python
env.incremental()
import aslam_cv_python as acv
import aslam_cv_backend_python as acvb
import kalibr_common as kc
import kalibr_camera_calibration as kcc
import kalibr_imu_camera_calibration as icc
import kalibr_imu_camera_calibration.IccSensors as sens

REFUSED = (RuntimeError,)
PROJECTIONS = {"pinhole": 4, "omni": 5, "eucm": 6, "ds": 6}
DISTORTIONS = {"radtan": 4, "equidistant": 4, "fov": 1, "none": 0}
# what AslamCamera offers
GEOMETRIES = {("pinhole", "radtan"): "DistortedPinholeCameraGeometry",
              ("pinhole", "equidistant"): "EquidistantDistortedPinholeCameraGeometry",
              ("pinhole", "fov"): "FovDistortedPinholeCameraGeometry", ("pinhole", "none"): "PinholeCameraGeometry",
              ("omni", "radtan"): "DistortedOmniCameraGeometry", ("omni", "none"): "OmniCameraGeometry",
              ("eucm", "none"): "ExtendedUnifiedCameraGeometry", ("ds", "none"): "DoubleSphereCameraGeometry"}


class Scratch(object):
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="p01_")
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


@contextlib.contextmanager
def printed():
    """what is printed meanwhile"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


# ---- generators ----
def topic(c, i=None):
    base = c.pick(["cam", "sensor_cam", "image_raw", "stereo/left", "image", "a"])
    if i is not None:
        base += str(i)
    return "/" + base + "/" + c.pick(["image_raw", "image", "image_mono", "a"])


def intrinsics(c, model):
    f, p = [c.logReal(1., 5000.), c.logReal(1., 5000.)], [c.real(0., 4000.), c.real(0., 4000.)]
    if model == "pinhole":
        return f + p
    if model == "omni":
        return [c.real(0., 5.)] + f + p
    if model == "eucm":
        return [c.real(0., .999), c.real(0., 5.)] + f + p
    return [c.real(-2., 2.), c.real(0., .999)] + f + p


def coefficients(c, model):
    if model == "fov":
        return [c.real(.5, 1.5)]
    return [c.anyReal(1.) for _ in range(DISTORTIONS[model])]


def resolution(c):
    return [c.integer(1, 5000), c.integer(1, 5000)]


def transformation(c):
    """a rotation and translation, as matrix and as sm_python.Transformation"""
    axis = np.array(c.reals(3, -1., 1.)) + np.array([0., 0., 1e-3])
    angle = c.pick([0., math.pi, 1e-9]) if c.oneIn(6) else c.real(-math.pi, math.pi)
    axis = axis / np.linalg.norm(axis)
    K = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]], [-axis[1], axis[0], 0]])
    T = np.eye(4)
    T[:3, :3] = np.eye(3) + math.sin(angle) * K + (1 - math.cos(angle)) * K.dot(K)
    T[:3, 3] = [c.anyReal(3.) for _ in range(3)]
    return T, sm_python.Transformation(T)


def camera(c, models=None, i=None):
    m, d = c.pick(models or [(m, d) for m in PROJECTIONS for d in DISTORTIONS])
    return dict(model=m, dist=d, intrinsics=intrinsics(c, m), coeffs=coefficients(c, d), resolution=resolution(c),
                topic=topic(c, i))


def cameraParameters(cam, name="none.yaml"):
    p = kc.CameraParameters(name, createYaml=True)
    p.setRosTopic(cam["topic"])
    p.setIntrinsics(cam["model"], cam["intrinsics"])
    p.setDistortion(cam["dist"], cam["coeffs"])
    p.setResolution(cam["resolution"])
    return p


def sameCamera(c, p, cam, what):
    m, i = p.getIntrinsics()
    d, k = p.getDistortion()
    c.eq((m, list(i)), (cam["model"], cam["intrinsics"]), what + " intrinsics")
    c.eq((d, list(k)), (cam["dist"], cam["coeffs"]), what + " distortion")
    c.eq(list(p.getResolution()), cam["resolution"], what + " resolution")
    c.eq(p.getRosTopic(), cam["topic"], what + " topic")


# ---- configuration files ----
@claim(1200)
def camera_files(c):
    """what is written loads back with the same values"""
    cam = camera(c)
    c.say(cam)
    c.label(cam["model"] + " " + cam["dist"])
    with Scratch() as d:
        f = os.path.join(d, "cam.yaml")
        p = cameraParameters(cam, f)
        if c.boolean():
            # arrays are what the calibrator passes
            p.setIntrinsics(cam["model"], np.array(cam["intrinsics"]))
            p.setDistortion(cam["dist"], np.array(cam["coeffs"]))
        to = f
        if c.boolean():
            to = os.path.join(d, "other.yaml")
            p.writeYaml(to)
            c.check(not os.path.exists(f), "writing to another file writes the first one too")
        else:
            p.writeYaml()
        sameCamera(c, kc.CameraParameters(to), cam, "after writing and reading:")
        if c.boolean():
            # changing the values and writing again
            cam2 = camera(c)
            q = kc.CameraParameters(to)
            q.setIntrinsics(cam2["model"], cam2["intrinsics"])
            q.setDistortion(cam2["dist"], cam2["coeffs"])
            q.setResolution(cam2["resolution"])
            q.setRosTopic(cam2["topic"])
            q.writeYaml()
            sameCamera(c, kc.CameraParameters(to), cam2, "after changing:")
        out = io.StringIO()
        with printed() as std:
            kc.CameraParameters(to).printDetails(out)
        c.eq(std.getvalue(), "", "printed elsewhere")
    c.nontrivial()


def spoilCamera(c, cam):
    """(field, value) that must be refused"""
    m, v = cam["model"], list(cam["intrinsics"])
    e = len(v) - 4  # focal lengths follow the extra parameters
    kind = c.integer(0, 9)
    if kind == 0:
        return "intrinsics", (c.pick(["", "Pinhole", "omni2", "fisheye"]), v)
    if kind == 1:
        return "intrinsics", (m, v[:-1] if c.boolean() else v + [c.real(0., 1.)])
    if kind == 2:
        v[e + c.integer(0, 1)] = -c.logReal(1e-6, 1e3)
        return "intrinsics", (m, v)
    if kind == 3:
        v[e + 2 + c.integer(0, 1)] = -c.logReal(1e-6, 1e3)
        return "intrinsics", (m, v)
    if kind == 4:
        v[e + c.integer(0, 3)] = c.integer(1, 1000)  # an integer
        return "intrinsics", (m, v)
    if kind == 5:
        if m == "omni":
            v[0] = -c.logReal(1e-6, 1e3)
        elif m == "ds":
            v[1] = c.pick([1., 1.5, -1e-6, -3.])
        elif m == "eucm":
            if c.boolean():
                v[0] = c.pick([1., 1.5, -1e-6, -3.])
            else:
                v[1] = -c.logReal(1e-6, 1e3)
        else:
            v = []
        return "intrinsics", (m, v)
    if kind == 6:
        return "distortion", (c.pick(["", "Radtan", "plumb_bob", "fisheye"]), cam["coeffs"])
    if kind == 7:
        return "distortion", (cam["dist"], cam["coeffs"] + [c.real(0., 1.)])
    if kind == 8:
        return "resolution", c.pick([[640], [640, 480, 3], [640., 480], [640, 480.], ["640", 480], []])
    return "topic", c.pick([1, None, ["/cam0/image_raw"], 2.5])


@claim(1200)
def camera_invalid(c):
    """values that cannot be right are refused, when set and when read from a file"""
    cam = camera(c)
    field, v = spoilCamera(c, cam)
    c.say(cam, "spoiled:", field, v)
    c.label(field)
    p = cameraParameters(cam)
    before = yaml.dump(p.getYamlDict())
    setters = {"intrinsics": lambda: p.setIntrinsics(*v), "distortion": lambda: p.setDistortion(*v),
               "resolution": lambda: p.setResolution(v), "topic": lambda: p.setRosTopic(v)}
    c.raises(setters[field], "setting an invalid " + field, REFUSED)
    c.eq(yaml.dump(p.getYamlDict()), before, "a refused value changes the configuration")
    with Scratch() as d:
        f = os.path.join(d, "cam.yaml")
        data = dict(p.getYamlDict())
        if field == "intrinsics":
            data["camera_model"], data["intrinsics"] = v
        elif field == "distortion":
            data["distortion_model"], data["distortion_coeffs"] = v
        elif field == "resolution":
            data["resolution"] = v
        else:
            data["rostopic"] = v
        with open(f, "w") as out:
            out.write(yaml.dump(data))
        q = kc.CameraParameters(f)
        getters = {"intrinsics": q.getIntrinsics, "distortion": q.getDistortion, "resolution": q.getResolution,
                   "topic": q.getRosTopic}
        c.raises(getters[field], "reading an invalid " + field, REFUSED)
        # the other values stay readable
        for other in sorted(getters):
            if other != field:
                getters[other]()
    c.nontrivial()


@claim(500)
def files_missing(c):
    """absent fields, absent files, directories and text that is no YAML are refused"""
    kind = c.integer(0, 3)
    cam = camera(c)
    what = c.pick(["camera", "imu", "target", "chain"])
    cls = {"camera": kc.CameraParameters, "imu": kc.ImuParameters, "target": kc.CalibrationTargetParameters,
           "chain": kc.CameraChainParameters}[what]
    c.say(kind, what)
    with Scratch() as d:
        f = os.path.join(d, "x.yaml")
        if kind == 0:
            c.raises(lambda: cls(f), "reading a file that is not there", REFUSED)
            c.raises(lambda: cls(d), "reading a directory", REFUSED)
        elif kind == 1:
            with open(f, "w") as o:
                o.write(c.pick(["{", "a: b: c", "[1, 2", "\t- x", "a: 'b", "&x *y {"]))
            c.raises(lambda: cls(f), "reading a file that is no YAML", REFUSED)
        elif kind == 2:
            p = cls(os.path.join(d, "none", "x.yaml"), createYaml=True)
            c.raises(p.writeYaml, "writing into a directory that is not there", REFUSED)
        else:
            data = {"camera": dict(cameraParameters(cam).getYamlDict()), "imu": imuDict(c), "target": targetDict(c),
                    "chain": {"cam0": dict(cameraParameters(cam).getYamlDict())}}[what]
            inner = data["cam0"] if what == "chain" else data
            lost = c.pick(sorted(inner))
            del inner[lost]
            with open(f, "w") as o:
                o.write(yaml.dump(data))
            p = cls(f)
            if what == "chain":
                p = p.getCameraParameters(0)
            reads = {"camera_model": "getIntrinsics", "intrinsics": "getIntrinsics",
                     "distortion_model": "getDistortion", "distortion_coeffs": "getDistortion",
                     "resolution": "getResolution", "rostopic": "getRosTopic", "update_rate": "getUpdateRate",
                     "accelerometer_noise_density": "getAccelerometerStatistics",
                     "accelerometer_random_walk": "getAccelerometerStatistics",
                     "gyroscope_noise_density": "getGyroStatistics", "gyroscope_random_walk": "getGyroStatistics",
                     "target_type": "getTargetType"}
            c.say(lost)
            c.raises(getattr(p, reads.get(lost, "getTargetParams")), "reading without " + lost, REFUSED)
    c.nontrivial()


def imuDict(c):
    return {"rostopic": "/imu" + str(c.integer(0, 9)), "update_rate": c.logReal(1., 2000.),
            "accelerometer_noise_density": c.logReal(1e-6, 1.), "accelerometer_random_walk": c.logReal(1e-8, 1.),
            "gyroscope_noise_density": c.logReal(1e-6, 1.), "gyroscope_random_walk": c.logReal(1e-8, 1.)}


def imuParameters(v, name="none.yaml"):
    p = kc.ImuParameters(name, createYaml=True)
    p.setRosTopic(v["rostopic"])
    p.setUpdateRate(v["update_rate"])
    p.setAccelerometerStatistics(v["accelerometer_noise_density"], v["accelerometer_random_walk"])
    p.setGyroStatistics(v["gyroscope_noise_density"], v["gyroscope_random_walk"])
    return p


@claim(800)
def imu_files(c):
    v = imuDict(c)
    c.say(v)
    with Scratch() as d:
        f = os.path.join(d, "imu.yaml")
        imuParameters(v, f).writeYaml()
        p = kc.ImuParameters(f)
        c.eq(p.getRosTopic(), v["rostopic"], "topic")
        c.eq(p.getUpdateRate(), v["update_rate"], "update rate")
        for name, get in [("accelerometer", p.getAccelerometerStatistics), ("gyroscope", p.getGyroStatistics)]:
            discrete, walk, density = get()
            c.eq(density, v[name + "_noise_density"], name + " noise density")
            c.eq(walk, v[name + "_random_walk"], name + " random walk")
            c.near(discrete, density * math.sqrt(v["update_rate"]), 0., 1e-12, name + " noise of one sample")
        out = io.StringIO()
        with printed() as std:
            p.printDetails(out)
        c.eq(std.getvalue(), "", "printed elsewhere")
        numbers = [float(x) for x in re.findall(r": ([0-9][-+.e0-9]*)", out.getvalue())]
        c.eq(len(numbers), 7, "numbers printed")
        for name in v:
            if name != "rostopic":
                c.check(any(abs(n - v[name]) <= 1e-9 * v[name] for n in numbers), name + " is not printed")
        # sets of IMUs
        s = kc.ImuSetParameters(os.path.join(d, "set.yaml"), True)
        many = [imuDict(c) for _ in range(c.integer(1, 4))]
        names = [None if c.boolean() else "named%d" % i for i in range(len(many))]
        for m, n in zip(many, names):
            s.addImuParameters(imuParameters(m), n) if n else s.addImuParameters(imuParameters(m))
        s.writeYaml()
        back = kc.ImuSetParameters(os.path.join(d, "set.yaml")).getYamlDict()
        c.eq(back, {n or "imu%d" % i: m for i, (m, n) in enumerate(zip(many, names))}, "set of IMUs")
    # refused
    bad = c.pick(["update_rate", "accelerometer_noise_density", "accelerometer_random_walk",
                  "gyroscope_noise_density", "gyroscope_random_walk"])
    w = dict(v)
    w[bad] = c.pick([0., -1e-9, -5.])
    c.raises(lambda: imuParameters(w), "setting %s to %r" % (bad, w[bad]), REFUSED)
    q = imuParameters(v)
    q.setYamlDict(w)
    get = q.getUpdateRate if bad == "update_rate" else (
        q.getAccelerometerStatistics if bad[0] == "a" else q.getGyroStatistics)
    c.raises(get, "reading %s of %r" % (bad, w[bad]), REFUSED)
    c.nontrivial()


def targetDict(c):
    t = c.pick(["aprilgrid", "checkerboard", "circlegrid"])
    size = lambda: c.logReal(1e-3, 2.)
    if t == "aprilgrid":
        return {"target_type": t, "tagRows": c.integer(3, 20), "tagCols": c.integer(3, 20), "tagSize": size(),
                "tagSpacing": c.real(.01, 1.)}
    if t == "checkerboard":
        return {"target_type": t, "targetRows": c.integer(3, 20), "targetCols": c.integer(3, 20),
                "rowSpacingMeters": size(), "colSpacingMeters": size()}
    return {"target_type": t, "targetRows": c.integer(3, 20), "targetCols": c.integer(3, 20),
            "spacingMeters": size(), "asymmetricGrid": c.boolean()}


@claim(900)
def target_files(c):
    v = targetDict(c)
    c.say(v)
    c.label(v["target_type"])
    with Scratch() as d:
        f = os.path.join(d, "target.yaml")
        with open(f, "w") as o:
            o.write(yaml.dump(v))
        p = kc.CalibrationTargetParameters(f)
        c.eq(p.getTargetType(), v["target_type"], "type")
        want = dict(v)
        want["targetType"] = want.pop("target_type")
        c.eq(p.getTargetParams(), want, "parameters")
        out = io.StringIO()
        with printed() as std:
            p.printDetails(out)
        c.eq(std.getvalue(), "", "printed elsewhere")
        p.writeYaml()
        c.eq(kc.CalibrationTargetParameters(f).getTargetParams(), want, "parameters after writing")
        # refused
        bad = c.pick(sorted(v))
        w = dict(v)
        if bad == "target_type":
            w[bad] = c.pick(["", "Aprilgrid", "chessboard", None])
        elif isinstance(v[bad], bool):
            w[bad] = c.pick(["yes please", 1, None, 0.])
        elif isinstance(v[bad], int):
            w[bad] = c.pick([2, 0, -4, 6., "6"])
        else:
            w[bad] = c.pick([0., -.1, 1, "x"])
        with open(f, "w") as o:
            o.write(yaml.dump(w))
        c.say("spoiled", bad, w[bad])
        q = kc.CalibrationTargetParameters(f)
        c.raises(q.getTargetParams, "reading %s of %r" % (bad, w[bad]), REFUSED)
    c.nontrivial()


# ---- cameras made from the configuration ----
def projectionValues(model, P):
    extra = {"pinhole": [], "omni": ["xi"], "eucm": ["alpha", "beta"], "ds": ["xi", "alpha"]}[model]
    return [getattr(P, n)() for n in extra + ["fu", "fv", "cu", "cv"]]


@claim(1200)
def cameras_from_files(c):
    """the camera made of a configuration has its values; combinations that do not exist are refused"""
    cam = camera(c)
    c.say(cam)
    key = (cam["model"], cam["dist"])
    c.label("%s %s" % key)
    p = cameraParameters(cam)
    if key not in GEOMETRIES:
        c.raises(lambda: kc.AslamCamera.fromParameters(p), "a camera that does not exist", REFUSED)
        return
    a = kc.AslamCamera.fromParameters(p)
    g = a.geometry
    c.check(type(g) is getattr(acv, GEOMETRIES[key]), "geometry of type %s" % type(g))
    P = g.projection()
    c.eq(projectionValues(cam["model"], P), cam["intrinsics"], "intrinsics")
    c.eq([P.ru(), P.rv()], cam["resolution"], "resolution")
    c.eq(list(P.distortion().getParameters().flatten()), cam["coeffs"], "distortion")
    frame = a.frameType()
    frame.setGeometry(g)
    k = a.keypointType()
    y = np.array(c.reals(2, 0., 1000.))
    k.setMeasurement(y)
    k.setInverseMeasurementCovariance(np.eye(2))
    frame.addKeypoint(k)
    c.near(np.array(frame.keypoint(0).y()).flatten(), y, 0., 0., "keypoint of its frame")
    point = acvb_point(np.array([.1, .2, 5., 1.]))
    a.reprojectionErrorType(frame, 0, point)
    c.nontrivial()


def acvb_point(x):
    import aslam_backend_python as aopt
    return aopt.HomogeneousExpression(x)


@claim(150)
def cameras_unknown(c):
    cam = camera(c)
    if c.boolean():
        bad = (c.pick(["", "Pinhole", "fisheye"]), cam["intrinsics"], cam["dist"], cam["coeffs"])
    else:
        bad = (cam["model"], cam["intrinsics"], c.pick(["", "plumb_bob"]), cam["coeffs"])
    c.say(bad)
    c.raises(lambda: kc.AslamCamera(*(bad + (cam["resolution"],))), "an unknown camera", REFUSED)
    c.nontrivial()


# ---- chains ----
@claim(800)
def chain_files(c):
    n = c.integer(1, 5)
    cams = [camera(c) for _ in range(n)]
    Ts = [transformation(c) for _ in range(n)]
    imu = [transformation(c) for _ in range(n)]
    shifts = [c.anyReal(1.) for _ in range(n)]
    overlaps = [c.subset(range(n)) for _ in range(n)]
    c.say(n, "cameras", cams[0]["model"])
    with Scratch() as d:
        f = os.path.join(d, "chain.yaml")
        ch = kc.CameraChainParameters(f, createYaml=True)
        for i, cam in enumerate(cams):
            c.eq(ch.numCameras(), i, "number of cameras")
            ch.addCameraAtEnd(cameraParameters(cam))
        for i in c.shuffled(range(n)):
            if i:
                ch.setExtrinsicsLastCamToHere(i, Ts[i][1])
            ch.setExtrinsicsImuToCam(i, imu[i][1])
            ch.setTimeshiftCamImu(i, shifts[i])
            ch.setCamOverlaps(i, overlaps[i])
        ch.writeYaml()
        b = kc.CameraChainParameters(f)
        c.eq(b.numCameras(), n, "number of cameras read")
        for i, cam in enumerate(cams):
            sameCamera(c, b.getCameraParameters(i), cam, "cam%d" % i)
            if i:
                T = b.getExtrinsicsLastCamToHere(i)
                c.near(T.T(), Ts[i][0], 1e-9, 1e-9, "transformation from camera %d" % (i - 1))
            c.near(b.getExtrinsicsImuToCam(i).T(), imu[i][0], 1e-9, 1e-9, "transformation from the IMU to cam%d" % i)
            c.eq(b.getTimeshiftCamImu(i), shifts[i], "time shift")
            c.eq(list(b.getCamOverlaps(i)), overlaps[i], "overlaps")
        raw = yaml.safe_load(open(f))
        c.eq(sorted(raw), ["cam%d" % i for i in range(n)], "entries of the file")
        for i in range(n):
            c.near(np.array(raw["cam%d" % i]["T_cam_imu"]), imu[i][0], 1e-9, 1e-9, "T_cam_imu in the file")
            if i:
                c.near(np.array(raw["cam%d" % i]["T_cn_cnm1"]), Ts[i][0], 1e-9, 1e-9, "T_cn_cnm1 in the file")
        out = io.StringIO()
        with printed() as std:
            b.printDetails(out)
        c.eq(std.getvalue(), "", "printed elsewhere")
        c.eq(re.findall(r"cam(\d+):", out.getvalue()), [str(i) for i in range(n)], "cameras printed")
    c.nontrivial(n > 1)


@claim(500)
def chain_invalid(c):
    n = c.integer(1, 3)
    ch = kc.CameraChainParameters("chain.yaml", createYaml=True)
    for _ in range(n):
        ch.addCameraAtEnd(cameraParameters(camera(c)))
    T = transformation(c)[1]
    out = n + c.integer(0, 3)
    kind = c.integer(0, 11)
    c.say(kind, n, out)
    bad = [lambda: ch.getCameraParameters(out), lambda: ch.getExtrinsicsLastCamToHere(out),
           lambda: ch.getExtrinsicsLastCamToHere(0), lambda: ch.setExtrinsicsLastCamToHere(0, T),
           lambda: ch.setExtrinsicsLastCamToHere(n - 1, T.T()), lambda: ch.setExtrinsicsImuToCam(n - 1, T.T()),
           lambda: ch.getExtrinsicsImuToCam(out), lambda: ch.setTimeshiftCamImu(out, .1),
           lambda: ch.setTimeshiftCamImu(0, c.pick([1, "0.1", None])), lambda: ch.setCamOverlaps(out, []),
           lambda: ch.setCamOverlaps(0, c.shuffled(list(range(n)) + [out])), lambda: ch.addCameraAtEnd({})][kind]
    before = yaml.dump(ch.getYamlDict())
    c.raises(bad, "request %d" % kind, REFUSED)
    c.eq(yaml.dump(ch.getYamlDict()), before, "a refused request changes the chain")
    # values that are not there yet, and matrices of another shape
    for get in (lambda: ch.getExtrinsicsImuToCam(0), lambda: ch.getTimeshiftCamImu(0), lambda: ch.getCamOverlaps(0)):
        c.raises(get, "a value that is not there", REFUSED)
    data = ch.getYamlDict()
    data["cam0"]["T_cam_imu"] = c.pick([[[1., 0.], [0., 1.]], [], "x", [1., 2., 3.], [["a"] * 4] * 4, np.eye(3).tolist()])
    c.raises(lambda: ch.getExtrinsicsImuToCam(0), "a matrix that is no transformation", REFUSED)
    c.nontrivial()


def fakeDv(T):
    return types.SimpleNamespace(T=lambda: np.array(T), toTransformationMatrix=lambda: np.array(T))


def imuChain(c, n, config=None):
    """an IccCameraChain whose design variables hold given values"""
    Ts = [transformation(c)[0] for _ in range(n)]
    prior, shift = [c.anyReal(.1) for _ in range(n)], [c.anyReal(.1) for _ in range(n)]
    ch = object.__new__(sens.IccCameraChain)
    ch.chainConfig = config
    ch.camList = [types.SimpleNamespace(
        T_c_b_Dv=fakeDv(Ts[i]), timeshiftCamToImuPrior=prior[i], T_extrinsic_fixed=False,
        cameraTimeToImuTimeDv=types.SimpleNamespace(toScalar=lambda s=shift[i]: s)) for i in range(n)]
    return ch, Ts, [a + b for a, b in zip(prior, shift)]


def product(Ts, a, b):
    """camera a to camera b; Ts[i] leads from i-1 to i"""
    T = np.eye(4)
    for i in range(min(a, b) + 1, max(a, b) + 1):
        T = Ts[i].dot(T)
    return T if a <= b else np.linalg.inv(T)


@claim(800)
def chain_products(c):
    """transformations between cameras, and from the IMU, are products of the neighbouring ones"""
    n = c.integer(1, 6)
    ch, Ts, shifts = imuChain(c, n)
    a, b = c.integer(0, n - 1), c.integer(0, n - 1)
    c.say(n, "cameras, from", a, "to", b)
    if a != b:
        T, base = ch.getResultBaseline(a, b)
        want = product(Ts, a, b)
        c.near(T.T(), want, 1e-9, 1e-9, "transformation from cam%d to cam%d" % (a, b))
        c.near(base, np.linalg.norm(want[:3, 3]), 1e-9, 1e-9, "length of the baseline")
        back, base2 = ch.getResultBaseline(b, a)
        c.near(back.T().dot(T.T()), np.eye(4), 1e-9, 1e-9, "there and back")
        c.near(base2, base, 1e-9, 1e-9, "length of the baseline back")
    want = product([None] + Ts, 0, b + 1)
    c.near(ch.getResultTrafoImuToCam(b).T(), want, 1e-9, 1e-9, "transformation from the IMU to cam%d" % b)
    c.near(ch.getResultTimeShift(b), shifts[b], 1e-15, 1e-12, "time shift")
    c.nontrivial(abs(a - b) > 1)


@claim(400)
def chain_results(c):
    """what the camera-IMU calibrator saves"""
    n = c.integer(1, 4)
    cams = [camera(c) for _ in range(n)]
    config = kc.CameraChainParameters("chain.yaml", createYaml=True)
    for cam in cams:
        config.addCameraAtEnd(cameraParameters(cam))
    for i in range(1, n):
        config.setExtrinsicsLastCamToHere(i, transformation(c)[1])
    cal = icc.IccCalibrator()
    cal.CameraChain, Ts, shifts = imuChain(c, n, config)
    cal.noTimeCalibration = c.oneIn(4)
    c.say(n, "cameras, no time", cal.noTimeCalibration)
    with Scratch() as d:
        f = os.path.join(d, "result.yaml")
        cal.saveCamChainParametersYaml(f)
        c.check(os.path.exists(f), "nothing is written")
        b = kc.CameraChainParameters(f)
        c.eq(b.numCameras(), n, "cameras")
        for i in range(n):
            sameCamera(c, b.getCameraParameters(i), cams[i], "cam%d" % i)
            if i:
                c.near(b.getExtrinsicsLastCamToHere(i).T(), Ts[i], 1e-9, 1e-9, "T_cn_cnm1")
            c.near(b.getExtrinsicsImuToCam(i).T(), product([None] + Ts, 0, i + 1), 1e-9, 1e-9, "T_cam_imu")
            if cal.noTimeCalibration:
                c.raises(lambda: b.getTimeshiftCamImu(i), "a time shift that was not calibrated", REFUSED)
            else:
                c.near(b.getTimeshiftCamImu(i), shifts[i], 1e-15, 1e-12, "time shift")
    c.nontrivial()


@claim(300)
def imu_results(c):
    """the poses, offsets and intrinsics of the IMUs that the calibrator saves"""
    kind = c.pick([sens.IccImu, sens.IccScaledMisalignedImu, sens.IccScaledMisalignedSizeEffectImu])
    dv = lambda **k: types.SimpleNamespace(**{n: (lambda v=v: v) for n, v in k.items()})
    cal = icc.IccCalibrator()
    want = []
    for i in range(c.integer(1, 3)):
        v = imuDict(c)
        imu = object.__new__(kind)
        imu.imuConfig = kind.ImuParameters(imuParameters(v))
        T = transformation(c)[0] if i else np.eye(4)
        v["T"] = T
        imu.q_i_b_Dv = dv(toRotationMatrix=T[:3, :3])
        # position of the IMU in the body frame
        imu.r_b_Dv = dv(toEuclidean=-T[:3, :3].T.dot(T[:3, 3]))
        imu.isReferenceImu = i == 0
        imu.timeOffset = v["offset"] = c.anyReal(.1)
        ms = {}
        if kind is not sens.IccImu:
            ms = {n: np.array(c.reals(9, -1., 1.)).reshape(3, 3) for n in ("Ma", "Mg", "A")}
            ms["C"] = transformation(c)[0][:3, :3]
            imu.M_accel_Dv = dv(toMatrix3x3=ms["Ma"])
            imu.M_gyro_Dv = dv(toMatrix3x3=ms["Mg"])
            imu.M_accel_gyro_Dv = dv(toMatrix3x3=ms["A"])
            imu.q_gyro_i_Dv = dv(toRotationMatrix=ms["C"])
        if kind is sens.IccScaledMisalignedSizeEffectImu:
            for n in ("rx_i", "ry_i", "rz_i"):
                ms[n] = np.array(c.reals(3, -1., 1.))
                setattr(imu, n + "_Dv", dv(toEuclidean=ms[n]))
        v["ms"] = ms
        want.append(v)
        cal.registerImu(imu)
    c.say(kind.__name__, len(want))
    with Scratch() as d:
        f = os.path.join(d, "imu.yaml")
        cal.saveImuSetParametersYaml(f)
        back = yaml.safe_load(open(f))
        c.eq(sorted(back), ["imu%d" % i for i in range(len(want))], "IMUs in the file")
        for i, v in enumerate(want):
            b = back["imu%d" % i]
            for n in ("rostopic", "update_rate", "accelerometer_noise_density", "accelerometer_random_walk",
                      "gyroscope_noise_density", "gyroscope_random_walk"):
                c.eq(b[n], v[n], n)
            c.eq(b["time_offset"], v["offset"], "time offset")
            c.near(np.array(b["T_i_b"])[:3, :3], v["T"][:3, :3], 1e-9, 1e-9, "rotation of T_i_b")
            c.near(np.array(b["T_i_b"])[3], [0., 0., 0., 1.], 1e-12, 0., "last row of T_i_b")
            c.eq(b["model"], {sens.IccImu: "calibrated", sens.IccScaledMisalignedImu: "scale-misalignment",
                              sens.IccScaledMisalignedSizeEffectImu: "scale-misalignment-size-effect"}[kind], "model")
            ms = v["ms"]
            if ms:
                c.near(np.array(b["accelerometers"]["M"]), ms["Ma"], 0., 0., "accelerometer M")
                c.near(np.array(b["gyroscopes"]["M"]), ms["Mg"], 0., 0., "gyroscope M")
                c.near(np.array(b["gyroscopes"]["A"]), ms["A"], 0., 0., "gyroscope A")
                c.near(np.array(b["gyroscopes"]["C_gyro_i"]), ms["C"], 0., 0., "gyroscope C")
            for n in ("rx_i", "ry_i", "rz_i"):
                if n in ms:
                    c.near(np.array(b["accelerometers"][n]), ms[n], 0., 0., n)
        out = io.StringIO()
        with printed() as std:
            for imu in cal.ImuList:
                imu.getImuConfig().printDetails(out)
        c.eq(std.getvalue(), "", "printed elsewhere")
    c.nontrivial()


@known("imu_pose", "T_i_b of a further IMU")
def imu_pose():
    T = np.eye(4)
    T[:3, :3] = [[0., -1., 0.], [1., 0., 0.], [0., 0., 1.]]
    T[:3, 3] = [1., 2., 3.]
    imu = object.__new__(sens.IccImu)
    imu.imuConfig = sens.IccImu.ImuParameters(imuParameters({
        "rostopic": "/imu1", "update_rate": 200., "accelerometer_noise_density": .01, "accelerometer_random_walk": .01,
        "gyroscope_noise_density": .01, "gyroscope_random_walk": .01}))
    imu.q_i_b_Dv = types.SimpleNamespace(toRotationMatrix=lambda: T[:3, :3])
    imu.r_b_Dv = types.SimpleNamespace(toEuclidean=lambda: -T[:3, :3].T.dot(T[:3, 3]))
    imu.isReferenceImu, imu.timeOffset = False, 0.
    return not np.allclose(np.array(imu.getImuConfig().getYamlDict()["T_i_b"]), T)


MODELS = {("pinhole", "radtan"): "DistortedPinhole", ("pinhole", "equidistant"): "EquidistantPinhole",
          ("pinhole", "fov"): "FovPinhole", ("omni", "none"): "Omni", ("omni", "radtan"): "DistortedOmni",
          ("eucm", "none"): "ExtendedUnified", ("ds", "none"): "DoubleSphere"}


@claim(500)
def camera_results(c):
    """what the camera calibrator saves"""
    n = c.integer(1, 5)
    cams = [camera(c, sorted(MODELS)) for _ in range(n)]
    Ts = [None] + [transformation(c)[0] for _ in range(1, n)]
    overlaps = [c.subset([j for j in range(n) if j != i]) for i in range(n)]
    cal = types.SimpleNamespace(cameras=[], baselines=[fakeDv(T) for T in Ts[1:]])
    for cam in cams:
        a = kc.AslamCamera.fromParameters(cameraParameters(cam))
        cal.cameras.append(types.SimpleNamespace(geometry=a.geometry, model=getattr(acvb, MODELS[cam["model"], cam["dist"]]),
                                                 dataset=types.SimpleNamespace(topic=cam["topic"])))
    graph = types.SimpleNamespace(getCamOverlaps=lambda i: list(overlaps[i]))
    c.say([(x["model"], x["dist"]) for x in cams])
    with Scratch() as d:
        f = os.path.join(d, "camchain.yaml")
        kcc.CameraCalibrator.saveChainParametersYaml(cal, f, graph)
        b = kc.CameraChainParameters(f)
        c.eq(b.numCameras(), n, "cameras")
        for i in range(n):
            sameCamera(c, b.getCameraParameters(i), cams[i], "cam%d" % i)
            c.eq(list(b.getCamOverlaps(i)), overlaps[i], "overlaps of cam%d" % i)
            if i:
                c.near(b.getExtrinsicsLastCamToHere(i).T(), Ts[i], 1e-9, 1e-9, "T_cn_cnm1 of cam%d" % i)
    c.nontrivial()


# ---- observations ----
class Obs(object):
    def __init__(self, t, corners, tag):
        self.t, self.corners, self.tag = t, corners, tag

    def time(self):
        return types.SimpleNamespace(toSec=lambda: self.t)

    def getCornersIdx(self):
        return np.array(sorted(self.corners), dtype=int) if self.corners else []

    def __repr__(self):
        return "obs%s@%.6g%s" % (self.tag, self.t, sorted(self.corners))


def observations(c, tolerance, maxCams=5):
    """a list of (cam, observation), in the order they are added"""
    n = c.integer(2, maxCams)
    corners = c.integer(1, 8)
    instants = c.integer(1, 6)
    start = c.pick([0., 1.5e9])
    out = []
    visible = [c.integer(0, 3) for _ in range(n)]
    for k in range(instants):
        for cam in range(n):
            if c.integer(0, 3) < visible[cam] or k == cam % instants:
                t = start + k * (4 * tolerance + 1.) + c.real(-.45, .45) * tolerance
                seen = set(c.subset(range(corners)))
                out.append((cam, Obs(t, seen, "%d.%d" % (cam, k))))
    if c.boolean():
        out = c.shuffled(out)
    return n, out


class Table(object):
    """the table of target views as its description has it"""
    def __init__(self, tolerance):
        self.tol, self.views, self.obs = tolerance, [], {}

    def add(self, cam, o):
        self.obs.setdefault(cam, []).append(o)
        near = min(self.views, key=lambda v: abs(v[0] - o.t)) if self.views else None
        if near is None or abs(near[0] - o.t) > self.tol:
            near = (o.t, {})
            self.views.append(near)
        near[1].setdefault(cam, o)


@claim(1500)
def observation_tables(c):
    tol = c.pick([0., .02, .005])
    n, obs = observations(c, tol)
    if c.oneIn(3):
        cam, o = c.pick(obs)  # a second view of the same camera at that time
        obs.append((cam, Obs(o.t, set(c.subset(range(8))), "again")))
    c.say("tolerance", tol, obs)
    db, model = kcc.ObservationDatabase(tol), Table(tol)
    for cam, o in obs:
        db.addObservation(cam, o)
        model.add(cam, o)
    c.eq(db.numCameras(), len(model.obs), "cameras")
    c.eq(list(db.getAllViewTimestamps()), [v[0] for v in model.views], "times of the views")
    for t, seen in model.views:
        c.eq(sorted(db.getCamIdsAtTimestamp(t)), sorted(seen), "cameras at %r" % t)
        c.eq(sorted((k, o.tag) for k, o in db.getAllObsAtTimestamp(t)), sorted((k, o.tag) for k, o in seen.items()),
             "observations at %r" % t)
        for k, o in seen.items():
            c.check(db.getObservationAtTime(t, k) is o, "observation of camera %d at %r" % (k, t))
            c.eq(set(db.getCornerIdsAtTime(t, k)), o.corners, "corners of camera %d at %r" % (k, t))
            c.check(db.observations[k][db.getObsIdForCamAtTime(t, k)] is o, "number of the observation")
    for a in range(n):
        c.eq([o.tag for o in db.getAllObsCam(a)], [s[a].tag for _, s in model.views if a in s], "observations of camera %d" % a)
        for b in range(n):
            tag = lambda o: o.tag if o is not None else None
            got = [(tag(x), tag(y)) for x, y in db.getAllObsTwoCams(a, b)]
            want = [(tag(s.get(a)), tag(s.get(b))) for _, s in model.views if a in s or b in s]
            c.eq(got, want, "observations of cameras %d and %d" % (a, b))
    with printed() as out:
        db.printTable()
    rows = [l.split() for l in out.getvalue().splitlines()[1:] if l.split()]
    want = [["%s" % (len(s[k].corners) if k in s else "-") for k in range(db.numCameras())]
            for _, s in sorted(model.views, key=lambda v: v[0])]
    if sorted(model.obs) == list(range(n)):
        c.eq([r[1:] for r in rows], want, "table printed")
    c.nontrivial(len(model.views) > 1)


def graphOf(c, tol=.02):
    n, obs = observations(c, tol)
    db, model = kcc.ObservationDatabase(tol), Table(tol)
    for cam, o in obs:
        db.addObservation(cam, o)
        model.add(cam, o)
    if sorted(model.obs) != list(range(n)):
        c.discard()
    return n, db, model, kcc.MulticamCalibrationGraph(db)


def commonCorners(model, n):
    w = {}
    for _, s in model.views:
        for a, b in itertools.combinations(sorted(s), 2):
            k = len(s[a].corners & s[b].corners)
            if k:
                w[a, b] = w.get((a, b), 0) + k
    return w


def connected(n, edges):
    seen, todo = {0}, [0]
    while todo:
        u = todo.pop()
        for a, b in edges:
            for x, y in ((a, b), (b, a)):
                if x == u and y not in seen:
                    seen.add(y)
                    todo.append(y)
    return len(seen) == n


@claim(1500)
def graphs(c):
    """edges join the cameras that see common corners, and know these observations"""
    n, db, model, g = graphOf(c)
    c.say(model.views)
    w = commonCorners(model, n)
    for a in range(n):
        c.eq(sorted(g.getCamOverlaps(a)), sorted({y for e in w for x, y in (e, e[::-1]) if x == a}), "overlaps of camera %d" % a)
        for b in range(n):
            if a == b:
                continue
            e = (min(a, b), max(a, b))
            A, B = g.getAllMutualObsBetweenTwoCams(a, b)
            both = [(s[a].tag, s[b].tag) for _, s in model.views if a in s and b in s and s[a].corners & s[b].corners]
            c.eq([(x.tag, y.tag) for x, y in zip(A, B)], both, "common observations of cameras %d and %d" % (a, b))
            c.eq(len(A), len(B), "lengths")
            if e in w:
                c.eq(g.G.es[g.G.get_eid(a, b)]["weight"], w[e], "weight of the edge of %d and %d" % (a, b))
    c.eq(bool(g.isGraphConnected()), connected(n, w), "connected")
    c.nontrivial(len(w) > 1)


class Patched(object):
    def __init__(self, **k):
        self.k = k

    def __enter__(self):
        self.old = {n: getattr(kcc, n) for n in self.k}
        for n, f in self.k.items():
            setattr(kcc, n, f)

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(kcc, n, f)


@claim(1000)
def baselines(c):
    """pairs that see common targets are calibrated, the best ones, and chained from camera to camera"""
    n, db, model, g = graphOf(c)
    w = commonCorners(model, n)
    poses = [transformation(c)[0] for _ in range(n)]  # world to camera
    cams = [types.SimpleNamespace(nr=i) for i in range(n)]
    pairs, batch = [], []

    def stereo(camL, camH, obs, **k):
        pairs.append((camL.nr, camH.nr))
        tag = lambda o: o.tag if o is not None else None
        want = [(s.get(camL.nr), s.get(camH.nr)) for _, s in model.views if camL.nr in s or camH.nr in s]
        c.eq([(tag(x), tag(y)) for x, y in obs], [(tag(x), tag(y)) for x, y in want], "observations of the pair")
        return True, sm_python.Transformation(poses[camH.nr].dot(np.linalg.inv(poses[camL.nr])))

    def full(cameras, guess, graph):
        batch.append([b.T() for b in guess])
        c.check(graph is g and cameras is cams, "what the refinement is given")
        return True, guess

    g.plotGraph = lambda *a, **k: None
    c.say(n, "cameras, common corners", w)
    with Patched(stereoCalibrate=stereo, solveFullBatch=full):
        if not connected(n, w):
            c.label("not connected")
            c.raises(lambda: g.getInitialGuesses(cams), "cameras that see nothing in common", (SystemExit, RuntimeError))
            c.eq(pairs, [], "pairs calibrated")
            return
        result = g.getInitialGuesses(cams)
    c.eq(len(result), n - 1, "number of baselines")
    for i, T in enumerate(result):
        c.near(T.T(), poses[i + 1].dot(np.linalg.inv(poses[i])), 1e-8, 1e-8, "baseline from cam%d" % i)
    c.eq(len(batch), 1, "refinements")
    for a, b in pairs:
        c.check(a < b, "pair %d, %d is not in order" % (a, b))
        c.check((a, b) in w, "pair %d, %d has no common corner" % (a, b))
    c.eq(len(set(pairs)), len(pairs), "pairs calibrated twice")
    c.check(connected(n, pairs), "the pairs do not join all cameras: %s" % pairs)
    c.eq(len(pairs), n - 1, "number of pairs")

    # shortest paths from camera 0, common corners counting as closeness
    def distances(edges):
        d = {0: 0.}
        for _ in range(n):
            for (a, b) in edges:
                for x, y in ((a, b), (b, a)):
                    if x in d and d[x] + 1. / w[a, b] < d.get(y, 1e9):
                        d[y] = d[x] + 1. / w[a, b]
        return [d[i] for i in range(n)]
    c.near(distances(pairs), distances(w), 1e-9, 1e-9, "the pairs are not the best ones: closeness along them")
    c.nontrivial(n > 2)


@claim(800)
def target_poses(c):
    """the pose of the target is that of the camera that sees most of it, brought to camera 0"""
    n, db, model, g = graphOf(c)
    poses = [transformation(c)[0] for _ in range(n)]
    chain = [sm_python.Transformation(poses[i + 1].dot(np.linalg.inv(poses[i]))) for i in range(n - 1)]
    asked = []

    class Geometry(object):
        def __init__(self, nr):
            self.nr = nr

        def estimateTransformation(self, obs):
            asked.append((self.nr, obs))
            # target frame = world frame
            return True, sm_python.Transformation(np.linalg.inv(poses[self.nr]))
    cams = [types.SimpleNamespace(geometry=Geometry(i)) for i in range(n)]
    c.say(model.views)
    for t, seen in model.views:
        del asked[:]
        T = g.getTargetPoseGuess(t, cams, chain)
        c.near(T.T(), np.linalg.inv(poses[0]), 1e-8, 1e-8, "pose of the target in camera 0")
        k, o = asked[-1]
        c.check(o is seen[k], "observation of another camera")
        c.eq(len(o.corners), max(len(x.corners) for x in seen.values()), "corners seen by the camera used")
    c.nontrivial(len(model.views) > 1)


# ---- data from bags ----
def stamps(c, n):
    """n stamps at least 2 us apart, as nanoseconds"""
    t = c.pick([0, 1, 1500000000]) * 10**9 + c.integer(0, 10**9 - 1)
    out = []
    for _ in range(n):
        out.append(t)
        t += int(c.logReal(2000., 5e8))
    return out


@claim(700)
def imu_readers(c):
    n = c.integer(1, 12)
    ts = stamps(c, n)
    order = c.shuffled(range(n)) if c.boolean() else list(range(n))
    V = lambda v: types.SimpleNamespace(x=v[0], y=v[1], z=v[2])
    data = {i: (c.reals(3, -5., 5.), c.reals(3, -20., 20.)) for i in range(n)}
    msgs = [(types.SimpleNamespace(header=types.SimpleNamespace(stamp=env.Stamp(ts[i] // 10**9, ts[i] % 10**9)),
                                   angular_velocity=V(data[i][0]), linear_acceleration=V(data[i][1])),
             env.Stamp(k, 0)) for k, i in enumerate(order)]
    env.BAGS["bag"] = {"/other": [], "/imu": msgs}
    span, keep = None, list(range(n))
    if n > 1 and c.boolean():
        a, b = sorted([c.integer(0, n), c.integer(0, n)])
        lo = -.5 if a == 0 else (ts[a - 1] + (ts[a] if a < n else ts[a - 1] + 10**6)) / 2e9 - ts[0] / 1e9
        hi = (ts[b - 1] + (ts[b] if b < n else ts[b - 1] + 10**6)) / 2e9 - ts[0] / 1e9 if b else -.2
        if lo < hi:
            span, keep = (lo, hi), list(range(a, b))
    c.say("order", order, "span", span, "of", [(t - ts[0]) * 1e-9 for t in ts])
    r = kc.BagImuDatasetReader("bag", "/imu", bag_from_to=span)
    c.eq(r.numMessages(), len(keep), "number of messages")

    def same(it, want, what):
        got = [(t.toSec(), tuple(w), tuple(a)) for t, w, a in it]
        c.eq(len(got), len(want), what + ": number of messages")
        for g, i in zip(got, want):
            c.near(g[0], ts[i] * 1e-9, 1e-6, 0., what + ": time")
            c.eq((g[1], g[2]), (tuple(data[i][0]), tuple(data[i][1])), what + ": values")
    same(r, keep, "reading")
    np.random.seed(c.integer(0, 1000))
    got = sorted(t.toSec() for t, _, _ in r.readDatasetShuffle())
    c.near(got, [ts[i] * 1e-9 for i in keep], 1e-6, 0., "reading shuffled")
    same(r.readDataset(), keep, "reading again")
    if n > 1:
        x = c.real(0., 1.)
        c.raises(lambda: kc.BagImuDatasetReader("bag", "/imu", bag_from_to=(x, x - c.pick([0., .1]))), "an empty span", REFUSED)
    c.raises(lambda: kc.BagImuDatasetReader("bag", "/none"), "a topic that is not there", REFUSED)
    c.raises(lambda: kc.BagImuDatasetReader("bag", None), "no topic", REFUSED)
    c.nontrivial(n > 1)


@claim(500)
def image_readers(c):
    n = c.integer(1, 8)
    ts = stamps(c, n)
    order = c.shuffled(range(n)) if c.boolean() else list(range(n))
    h, w = c.integer(1, 4), c.integer(1, 4)
    enc = c.pick(["mono8", "8UC1", "mono16", "16UC1", "bgr8", "8UC3", "rgb8", "bgra8", "8UC4"])
    rng = np.random.RandomState(c.integer(0, 10**6))
    arrays, want = [], []
    for _ in range(n):
        if enc in ("mono16", "16UC1"):
            a = rng.randint(0, 65536, (h, w)).astype("uint16")
            want.append((a // 256).astype("uint8"))
        elif enc in ("mono8", "8UC1"):
            a = rng.randint(0, 256, (h, w)).astype("uint8")
            want.append(a)
        else:
            a = rng.randint(0, 256, (h, w, 4 if enc in ("bgra8", "8UC4") else 3)).astype("uint8")
            want.append(env.cvtColor(a, {"rgb8": 1, "bgra8": 2, "8UC4": 2}.get(enc, 0)))
        arrays.append(a)
    msgs = [(types.SimpleNamespace(header=types.SimpleNamespace(stamp=env.Stamp(ts[i] // 10**9, ts[i] % 10**9)),
                                   encoding=enc, _type="sensor_msgs/Image", height=h, width=w, array=arrays[i]),
             env.Stamp(k, 0)) for k, i in enumerate(order)]
    env.BAGS["bag"] = {"/cam": msgs}
    a = c.integer(0, n)
    span, keep = None, list(range(n))
    if 0 < a < n:
        span, keep = ((ts[a - 1] + ts[a]) / 2e9 - ts[0] / 1e9, (ts[-1] - ts[0]) / 1e9 + 1.), list(range(a, n))
    c.say(enc, "order", order, "span", span)
    r = kc.BagImageDatasetReader("bag", "/cam", bag_from_to=span)
    c.eq(r.numImages(), len(keep), "number of images")
    for what in ("reading", "reading again"):
        got = list(r)
        c.eq(len(got), len(keep), what + ": number of images")
        for (t, img), i in zip(got, keep):
            c.near(t.toSec(), ts[i] * 1e-9, 1e-6, 0., what + ": time")
            c.check(np.array_equal(np.asarray(img), want[i]), what + ": pixels of image %d" % i)
        np.random.seed(3)
        list(r.readDatasetShuffle())
    msgs[0][0].encoding = "yuv422"
    c.raises(lambda: list(kc.BagImageDatasetReader("bag", "/cam")), "an unknown encoding", REFUSED)
    c.nontrivial(n > 1)


class Detector(object):
    def __init__(self, good):
        self.good = good

    def findTarget(self, stamp, image):
        k = int(image[0, 0])
        return k in self.good, Found(k, stamp, True)

    def findTargetNoTransformation(self, stamp, image):
        k = int(image[0, 0])
        return k in self.good, Found(k, stamp, False)


class Found(object):
    def __init__(self, k, stamp, trafo):
        self.k, self.stamp, self.trafo, self.image = k, stamp, trafo, True

    def clearImage(self):
        self.image = False


class Dataset(object):
    topic = "/cam"

    def __init__(self, n):
        self.n = n

    def numImages(self):
        return self.n

    def readDataset(self):
        return iter([(10. + k, np.full((2, 2), k)) for k in range(self.n)])


def extraction(c, threads):
    n = c.integer(0 if not threads else 1, 20)
    good = set(c.subset(range(n)))
    clear, noT = c.boolean(), c.boolean()
    kw = dict(multithreading=True, numProcesses=c.integer(1, 3)) if threads else {}
    c.say(n, "images, targets in", sorted(good), kw)
    with printed():
        got = kc.extractCornersFromDataset(Dataset(n), Detector(good), clearImages=clear, noTransformation=noT, **kw)
    c.eq([(o.k, o.stamp, o.trafo, o.image) for o in got], [(k, 10. + k, not noT, not clear) for k in sorted(good)],
         "observations")
    c.nontrivial(0 < len(good) < n)


@claim(400)
def extraction_single(c):
    extraction(c, False)


@claim(10)
def extraction_processes(c):
    extraction(c, True)


# ---- exporters ----
EXPORTERS = os.path.join(env.TOOLS, "exporters")


def export(name, args, d):
    """runs an exporter in directory d"""
    old, argv = os.getcwd(), sys.argv
    sys.argv = [name] + args
    os.chdir(d)
    try:
        with printed() as out:
            try:
                runpy.run_path(os.path.join(EXPORTERS, name), run_name="__main__")
            except SystemExit as e:
                if e.code:
                    raise
    finally:
        os.chdir(old)
        sys.argv = argv
    return out.getvalue()


def chainFile(c, path, cams, times=True):
    ch = kc.CameraChainParameters(path, createYaml=True)
    imu, shift = [transformation(c)[0] for _ in cams], [c.anyReal(.1) for _ in cams]
    for i, cam in enumerate(cams):
        ch.addCameraAtEnd(cameraParameters(cam))
        ch.setExtrinsicsImuToCam(i, sm_python.Transformation(imu[i]))
        if i:
            ch.setExtrinsicsLastCamToHere(i, sm_python.Transformation(imu[i].dot(np.linalg.inv(imu[i - 1]))))
        ch.setTimeshiftCamImu(i, shift[i])
    for i in range(len(cams)):
        ch.setCamOverlaps(i, [j for j in range(len(cams)) if j != i])
    ch.writeYaml()
    return imu, shift


@claim(150)
def export_okvis(c):
    n = c.integer(1, 4)
    kinds = [("pinhole", "radtan"), ("pinhole", "equidistant")]
    cams = [camera(c, kinds if not c.oneIn(4) else sorted(GEOMETRIES), i) for i in range(n)]
    c.say([(x["model"], x["dist"], x["topic"]) for x in cams])
    with Scratch() as d:
        f = os.path.join(d, "chain.yaml")
        imu, _ = chainFile(c, f, cams)
        if c.boolean():
            export("kalibr_okvis_config", ["--cam", f, "--mav", "bird", "--out", os.path.join(d, "out")], d)
            text = open(os.path.join(d, "out")).read()
        else:
            text = export("kalibr_okvis_config", ["--cam", f, "--mav", "bird"], d)
        footer = open(os.path.join(EXPORTERS, "auxiliary_files/aslam_footer.txt")).read()
        c.check(footer in text, "the footer is missing")
        text = text[text.index("base_topic:"):text.index(footer)]
        out = yaml.safe_load(text)
        c.eq(out["base_topic"], "/bird/", "base topic")
        got = out["cameras"] or []
        kept = [i for i in range(n) if cams[i]["model"] == "pinhole" and cams[i]["dist"] != "none"]
        c.eq(len(got) >= len(kept), True, "cameras exported")
        got = [g for g in got if g["distortion_type"] != "none"]
        c.eq(len(got), len(kept), "number of cameras exported")
        for g, i in zip(got, kept):
            cam = cams[i]
            c.eq("/" + g["image_base_topic"] + g["image_topic"], cam["topic"], "topic")
            c.check("/" not in g["image_topic"], "image topic %s" % g["image_topic"])
            c.near(np.array(g["T_SC"], dtype=float).reshape(4, 4), np.linalg.inv(imu[i]), 1e-8, 1e-8, "T_SC")
            c.eq(list(g["image_dimension"]), cam["resolution"], "resolution")
            c.eq([float(x) for x in g["distortion_coefficients"]], cam["coeffs"], "distortion")
            c.eq(g["distortion_type"], {"radtan": "radialtangential"}.get(cam["dist"], cam["dist"]), "distortion model")
            c.eq([float(x) for x in g["focal_length"] + g["principal_point"]], cam["intrinsics"], "intrinsics")
    c.nontrivial()


@claim(150)
def export_rovio(c):
    n = c.integer(1, 4)
    kinds = [("pinhole", "radtan"), ("pinhole", "equidistant"), ("pinhole", "fov")]
    cams = [camera(c, kinds, i) for i in range(n)]
    c.say([(x["model"], x["dist"], x["topic"]) for x in cams])
    with Scratch() as d:
        f = os.path.join(d, "chain.yaml")
        imu, _ = chainFile(c, f, cams)
        export("kalibr_rovio_config", ["--cam", f], d)
        text = open(os.path.join(d, "rovio_test.info")).read()
        blocks = re.findall(r"^Camera(\d*)\n\{(.*?)\n\}", text, re.S | re.M)
        c.eq([b[0] for b in blocks], [str(i) for i in range(n)], "cameras")
        for i, (_, b) in enumerate(blocks):
            v = {k: float(x) for k, x in re.findall(r"^\s*(qCM_[xyzw]|MrMC_[xyz])\s+(\S+);", b, re.M)}
            T = np.linalg.inv(imu[i])  # camera to IMU
            c.near([v["MrMC_x"], v["MrMC_y"], v["MrMC_z"]], T[:3, 3], 1e-8, 1e-8, "position of the camera in the IMU")
            # Hamilton quaternion of the rotation that takes IMU coordinates to the camera's
            x, y, z, w = [v["qCM_" + k] for k in "xyzw"]
            R = np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                          [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                          [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])
            c.near(R, imu[i][:3, :3], 1e-8, 1e-8, "rotation")
            g = yaml.safe_load(open(os.path.join(d, "rovio_cam%d.yaml" % i)))
            cam = cams[i]
            c.eq([g["image_width"], g["image_height"]], cam["resolution"], "resolution")
            fu, fv, cu, cv = cam["intrinsics"]
            c.eq([float(x) for x in g["camera_matrix"]["data"]], [fu, 0., cu, 0., fv, cv, 0., 0., 1.], "camera matrix")
            c.eq(g["distortion_model"], {"radtan": "plumb_bob"}.get(cam["dist"], cam["dist"]), "distortion model")
            k = [float(x) for x in g["distortion_coefficients"]["data"]]
            c.eq(g["distortion_coefficients"]["cols"], len(k), "number of coefficients")
            c.eq(k, cam["coeffs"] + ([0.] if cam["dist"] == "radtan" else []), "distortion")
            c.eq(g["camera_name"], "cam%d" % i, "name")
    c.nontrivial()


@claim(120)
def export_msf(c):
    a, b = camera(c), camera(c)
    with Scratch() as d:
        vi, mav = os.path.join(d, "vi.yaml"), os.path.join(d, "mav.yaml")
        Tv, _ = chainFile(c, vi, [a])
        Tm, shift = chainFile(c, mav, [b])
        export("kalibr_msf_config", ["--viimu", vi, "--mavimu", mav, "--out", os.path.join(d, "out")], d)
        text = open(os.path.join(d, "out")).read()
    v = {k: float(x) for k, x in re.findall(r"pose_sensor/(pose_delay|init/[qp]_ic/[xyzw]):\s*(\S+)", text)}
    c.near(v["pose_delay"], -shift[0], 0., 1e-12, "delay")
    T = np.linalg.inv(Tm[0]).dot(Tv[0])  # vi-IMU to mav-IMU
    c.say(T.tolist(), v)
    c.near([v["init/p_ic/" + k] for k in "xyz"], T[:3, 3], 1e-8, 1e-8, "translation")
    # the tools' quaternion of the rotation from the mav-IMU to the vi-IMU
    x, y, z, w = [v["init/q_ic/" + k] for k in "xyzw"]
    R = np.array([[1 - 2 * (y * y + z * z), 2 * (x * y + w * z), 2 * (x * z - w * y)],
                  [2 * (x * y - w * z), 1 - 2 * (x * x + z * z), 2 * (y * z + w * x)],
                  [2 * (x * z + w * y), 2 * (y * z - w * x), 1 - 2 * (x * x + y * y)]])
    c.near(R, T[:3, :3].T, 1e-8, 1e-8, "rotation")
    for part in ("header", "mid", "footer"):
        c.check(open(os.path.join(EXPORTERS, "auxiliary_files/msf_%s.txt" % part)).read() in text, part + " is missing")
    c.nontrivial()


@claim(150)
def export_maplab(c):
    """to maplab's format, and back"""
    n = c.integer(1, 4)
    cams = [camera(c, sorted(GEOMETRIES), i) for i in range(n)]
    for cam in cams:
        cam["topic"] = re.sub("/[^/]*$", "/image_raw", cam["topic"])
    c.say([(x["model"], x["dist"], x["topic"]) for x in cams])
    onlyCams = c.boolean()
    with Scratch() as d:
        f = os.path.join(d, c.pick(["camchain-imucam-x.yaml", "chain.yaml"]))
        imu, _ = chainFile(c, f, cams)
        iv = imuDict(c)
        iv.update(T_i_b=transformation(c)[0].tolist(), time_offset=c.anyReal(.1))
        with open(os.path.join(d, "imu.yaml"), "w") as o:
            o.write(yaml.dump({"imu0": iv}))
        mid, back, imuBack = [os.path.join(d, x) for x in ("sensors.yaml", "back.yaml", "imuback.yaml")]
        args = ["--cam", f, "--out", mid, "--label", "rig"]
        export("kalibr_maplab_config", args + (["--to-ncamera"] if onlyCams else ["--imu", os.path.join(d, "imu.yaml")]), d)
        m = yaml.safe_load(open(mid))
        rig = m if onlyCams else m["ncameras"][0]
        c.eq(rig["label"], "rig", "label")
        c.eq(len(rig["cameras"]), n, "cameras")
        ids = [rig["id"]] + [x["camera"]["id"] for x in rig["cameras"]]
        c.eq(len(set(ids)), n + 1, "different ids")
        for i, g in enumerate(rig["cameras"]):
            cam, k = cams[i], g["camera"]
            c.eq([k["image_width"], k["image_height"]], cam["resolution"], "resolution")
            c.eq((k["type"], k["intrinsics"]["rows"], k["intrinsics"]["cols"], k["intrinsics"]["data"]),
                 (cam["model"], len(cam["intrinsics"]), 1, cam["intrinsics"]), "intrinsics")
            p = k["distortion"]["parameters"]
            c.eq((k["distortion"]["type"], p["rows"], p["cols"], p["data"]),
                 ({"radtan": "radial-tangential"}.get(cam["dist"], cam["dist"]), len(cam["coeffs"]), 1, cam["coeffs"]),
                 "distortion")
            c.near(np.array(g["T_B_C"]["data"]).reshape(4, 4), np.linalg.inv(imu[i]), 1e-8, 1e-8, "T_B_C")
            c.eq(k["label"] + "/image_raw", cam["topic"], "label")
        if not onlyCams:
            s = m["sensors"][0]
            c.eq((s["hardware_id"], s["sigmas"]["gyro_noise_density"], s["sigmas"]["gyro_bias_random_walk_noise_density"],
                  s["sigmas"]["acc_noise_density"], s["sigmas"]["acc_bias_random_walk_noise_density"]),
                 (iv["rostopic"], iv["gyroscope_noise_density"], iv["gyroscope_random_walk"],
                  iv["accelerometer_noise_density"], iv["accelerometer_random_walk"]), "IMU")
        export("kalibr_maplab_config", ["--cam", mid, "--out", back] + ([] if onlyCams else ["--imu-out", imuBack]), d)
        b = kc.CameraChainParameters(back)
        c.eq(b.numCameras(), n, "cameras back")
        for i in range(n):
            sameCamera(c, b.getCameraParameters(i), cams[i], "cam%d back" % i)
            c.near(b.getExtrinsicsImuToCam(i).T(), imu[i], 1e-8, 1e-8, "T_cam_imu back")
            if i:
                c.near(b.getExtrinsicsLastCamToHere(i).T(), imu[i].dot(np.linalg.inv(imu[i - 1])), 1e-8, 1e-8, "T_cn_cnm1 back")
        if not onlyCams:
            q = yaml.safe_load(open(imuBack))["imu0"]
            for k in ("rostopic", "gyroscope_noise_density", "gyroscope_random_walk", "accelerometer_noise_density",
                      "accelerometer_random_walk"):
                c.eq(q[k], iv[k], k + " back")
    c.nontrivial()


if __name__ == "__main__":
    pbt.main("P01", "a case counts when the configuration, table, graph or chain it generates reaches the compared "
             "operation: a file written and read, a value that must be refused, more than one view, camera or message")
