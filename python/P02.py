"""What crosses between Python and C++: arrays, and the bound functions' results."""
import copy, gc, math, os, pickle, shutil, sys, tempfile
import env, pbt
from pbt import claim, known
import numpy as np
import scipy.interpolate
import sm_numpy_eigen
import sm_python as sm
import pbt_echo as echo
import aslam_bsplines_python as bs
import aslam_backend_python as aopt
import aslam_cv_python as acv

sm.setLoggingLevel(sm.LoggingLevel.Fatal)
D = "D"
DIMS = [1, 2, 3, 4, 5, 6, D]
# element type of the C++ side, its numpy type, the numpy types it accepts
TYPES = {"int": (np.dtype("i4"), "il"), "long": (np.dtype("i8"), "il"), "uchar": (np.dtype("u1"), "Bb"),
         "float": (np.dtype("f4"), "ilf"), "double": (np.dtype("f8"), "ilfd")}
ALL = "?bBhHiIlLqQefdgFDGSUOMm"


# ---- arrays ----
def entries(c, n, dtype):
    if dtype.char in "fdeg":
        special = [0., -0., 1., -1., np.inf, -np.inf, np.nan, np.finfo(dtype).max, np.finfo(dtype).tiny] if dtype.char != "e" else [0., 1.]
        return [c.pick(special) if c.oneIn(6) else (c.anyReal(1e3) if dtype.char != "e" else c.real(-9, 9)) for _ in range(n)]
    if dtype.char in "FDG":
        return [complex(c.real(-1, 1), c.real(-1, 1)) for _ in range(n)]
    if dtype.char in "SU":
        return [c.pick(["", "a", "1.0"]) for _ in range(n)]
    if dtype.char == "O":
        return [c.pick([1.0, None, 3, "x"]) for _ in range(n)]
    if dtype.char in "Mm":
        return [np.dtype(dtype.char + "8[s]").type(c.integer(0, 99), "s") for _ in range(n)]
    if dtype.char == "?":
        return [c.boolean() for _ in range(n)]
    lo, hi = np.iinfo(dtype).min, np.iinfo(dtype).max
    lo, hi = max(lo, -2**31), min(hi, 2**31 - 1)     # what every integer type it may go to can hold
    return [c.pick([lo, hi, 0, 1]) if c.oneIn(6) else c.integer(lo, hi) for _ in range(n)]


def layout(c, a):
    """the same array, stored differently; what was done to it"""
    done = []
    dtype = a.dtype
    if c.oneIn(5) and a.dtype.itemsize > 1 and a.dtype.kind in "iuf":
        a = a.astype(a.dtype.newbyteorder())
        done.append("swapped")
    if a.ndim == 0:
        return a, done
    how = c.integer(0, 9)
    if how == 1:
        a = np.asfortranarray(a)
        done.append("fortran")
    elif how == 2:      # every k-th element of a larger array, maybe backwards
        steps = [c.pick([2, 3, -1, -2]) for _ in a.shape]
        big = np.zeros([max(1, n * abs(s)) for n, s in zip(a.shape, steps)], a.dtype)
        view = big[tuple(slice(None, None, s) for s in steps)]
        view = view[tuple(slice(0, n) for n in a.shape)]
        view[...] = a
        a = view
        done.append("strided")
    elif how == 3:      # the transposed of the transposed
        a = np.ascontiguousarray(a.T).T
        done.append("transposed")
    elif how == 4 and a.ndim == 2:
        big = np.zeros([n + 5 for n in a.shape], a.dtype)
        i, j = c.integer(0, 5), c.integer(0, 5)
        big[i:i + a.shape[0], j:j + a.shape[1]] = a
        a = big[i:i + a.shape[0], j:j + a.shape[1]]
        done.append("block")
    elif how == 5 and a.dtype.kind in "iuf":      # at an address that suits no element
        raw = np.zeros(a.nbytes + 16, np.uint8)
        off = c.integer(1, 15)
        b = np.frombuffer(raw.data, dtype=a.dtype, count=a.size, offset=off).reshape(a.shape) if a.size else a.copy()
        if a.size:
            b[...] = a
        a = b
        done.append("unaligned")
    elif how == 6 and a.dtype.kind in "iuf":      # one field of records
        rec = np.zeros(a.shape, np.dtype([("tag", "u1"), ("x", a.dtype), ("y", "u1")]))
        rec["x"] = a
        a = rec["x"]
        done.append("field")
    elif how == 7 and a.ndim == 2:
        a = np.matrix(a)
        done.append("matrix")
    elif how == 8:
        a.flags.writeable = False
        done.append("readonly")
    elif how == 9 and a.shape[0] and a.dtype.kind in "iuf":     # one row, many times
        a = np.broadcast_to(a[:1], a.shape)
        done.append("broadcast")
    return a, done


def accepts(R, C, shape):
    fits = lambda n, d: d == D or d == n
    if len(shape) == 1:
        if R == 1:
            return fits(shape[0], C)
        return C in (1, D) and fits(shape[0], R)
    return len(shape) == 2 and fits(shape[0], R) and fits(shape[1], C)


def returned(R, C, a):
    """the shape in which a comes back"""
    if R == 1 or C == 1:
        return (a.size,)
    return a.shape if a.ndim == 2 else (a.shape[0], 1)


def same(c, got, want, what):
    c.check(isinstance(got, np.ndarray), what + ": no array")
    c.eq(got.dtype, want.dtype, what + ": type")
    c.eq(got.shape, want.shape, what + ": shape")
    ok = np.array_equal(got, want) or (want.dtype.kind == "f" and np.array_equal(np.isnan(got), np.isnan(want))
                                       and np.array_equal(got[~np.isnan(got)], want[~np.isnan(want)]))
    c.check(ok, "%s: values\n got %r\n want %r" % (what, got, want))


def shape(c, R, C):
    """mostly one that fits"""
    n = lambda d: c.integer(0, 9) if d == D else d
    s = [n(R), n(C)]
    if c.oneIn(3):
        s[c.integer(0, 1)] = c.integer(0, 7)
    k = c.integer(0, 9)
    if k < 4:
        return (s[0],) if R != 1 else (s[1],)
    if k == 9:
        return c.pick([(), (s[0], s[1], 1), (1, s[0], s[1])])
    return tuple(s)


@claim(20000)
def echoed(c):
    """an array comes back equal, or is refused for a reason"""
    t = c.pick(list(TYPES))
    R, C = c.pick(DIMS), c.pick(DIMS)
    native, ok = TYPES[t]
    char = c.pick(list(ok)) if not c.oneIn(6) else c.pick(list(ALL))
    dtype = np.dtype(char) if char not in "MmSU" else np.dtype({"M": "M8[s]", "m": "m8[s]", "S": "S4", "U": "U4"}[char])
    s = shape(c, R, C)
    n = int(np.prod(s)) if s else 1
    a = np.array(entries(c, n, dtype), dtype=dtype).reshape(s)
    a, done = layout(c, a)
    before, refs = a.copy(), sys.getrefcount(a)
    f = getattr(echo, "%s_%s_%s_%s" % (c.pick(["echo", "value"]), t, R, C))
    c.say(f.__name__, dtype.char, a.shape, done)
    if char in ok and accepts(R, C, a.shape):
        with np.errstate(all="ignore"):
            want = np.asarray(before).astype(native)
        want = want.reshape(returned(R, C, a))
        got = f(a)
        same(c, got, want, "echo")
        c.check(got.flags.owndata and got.flags.writeable and got.flags.aligned, "the result is an array of its own")
        c.eq(sys.getrefcount(got), 2, "references to the result")
        c.nontrivial(a.size > 1 and bool(done))
        for d in done:
            c.label(d)
    else:
        c.raises(lambda: f(a), "an array that does not fit: %s %s" % (a.dtype, a.shape), (TypeError,))
        c.label("refused")
    c.eq(sys.getrefcount(a), refs, "references to the argument")
    c.check(a.tobytes() == before.tobytes(), "the argument changed")


@claim(1500)
def not_arrays(c):
    """what is no array is refused"""
    t, R, C = c.pick(list(TYPES)), c.pick(DIMS), c.pick(DIMS)
    f = getattr(echo, "echo_%s_%s_%s" % (t, R, C))
    n = R if R != D else 3
    x = c.pick([None, 1.0, 3, "abc", [0.] * n, (0.,) * n, {}, object(), np.float64(2.), bytearray(8 * n), memoryview(np.zeros(n)), range(n)])
    c.raises(lambda: f(x), "no array: %r" % (x,), (TypeError,))
    c.nontrivial()


def matrix(c, *s):
    return np.array(c.reals(int(np.prod(s)), -10., 10.)).reshape(s)


@claim(3000)
def several(c):
    """every argument arrives as it was passed"""
    if c.boolean():
        args = [matrix(c, 4), c.real(-9, 9), matrix(c, 2, 2), matrix(c, 3), c.boolean(), matrix(c, c.integer(0, 5), c.integer(0, 5)),
                matrix(c, 2), matrix(c, 4, 4)]
        kinds = [layout(c, np.array(x)) if isinstance(x, np.ndarray) else (x, []) for x in args]
        args = [k[0] for k in kinds]
        want = [np.array(x, dtype=float) if isinstance(x, np.ndarray) else x for x in args]
        r = echo.several(*args)
        for i, (g, w) in enumerate(zip(r, want)):
            if isinstance(w, np.ndarray):
                c.eq(g.size, w.size, "size of argument %d" % i)
                same(c, g.reshape(w.shape), w, "argument %d" % i)
            else:
                c.eq(g, w, "argument %d" % i)
        c.eq(len(r), len(args), "arguments")
    else:
        a, b, v, d = matrix(c, 2), matrix(c, 4, 4), matrix(c, c.integer(0, 20)), matrix(c, 4).astype("f")
        r = echo.severalValues(a, "x", b, v, d)
        for i, (g, w) in enumerate(zip(r, [a, b, v, d])):
            same(c, g, w, "argument %d by value" % i)
    c.nontrivial()


@claim(3000)
def members(c):
    """matrices kept in an object, and passed to functions C++ calls"""
    v, m = matrix(c, 4), matrix(c, c.integer(0, 6), c.integer(0, 6))
    h = echo.Holder(v, m)
    for step in range(c.integer(1, 6)):
        k = c.integer(0, 4)
        if k == 0:
            v = matrix(c, 4)
            h.v = v
        elif k == 1:
            m = matrix(c, c.integer(0, 6), c.integer(0, 6))
            h.m = m
        elif k == 2:        # what was read is a copy
            h.v[0] = 77.
            x = h.m
            if x.size:
                x[0, 0] = 77.
        elif k == 3:
            c.raises(lambda: setattr(h, "v", matrix(c, 3)), "a vector of another size", (TypeError,))
        else:               # what was passed is not kept
            w = v.copy()
            h.v = w
            w[0] = 99.
        same(c, h.v, v, "vector")
        same(c, h.m, m, "matrix")
    c.nontrivial(m.size > 1)


@claim(1500)
def overloads(c):
    """the overload that suits an array is called"""
    c.eq(echo.scalarOrVector(c.real(-1, 1)), "scalar", "number")
    c.eq(echo.scalarOrVector(matrix(c, c.integer(0, 5))), "vector", "vector")
    n = c.integer(0, 5)
    c.eq(echo.intOrDouble(np.zeros(n, c.pick(["i4", "i8"]))), "int", "integers")
    c.eq(echo.intOrDouble(np.zeros((n, c.pick([0, 2, 3])), c.pick(["i4", "i8", "f4", "f8"]))), "double", "matrices")
    c.eq(echo.intOrDouble(matrix(c, n)), "double", "numbers")
    p3, p4 = matrix(c, 3), np.append(matrix(c, 3), c.real(.1, 2.))
    c.near(sm.HomogeneousPoint(p3).toHomogeneous(), np.append(p3, 1.), 0, 0, "point of three")
    c.near(sm.HomogeneousPoint(p4).toHomogeneous(), p4, 0, 0, "point of four")
    c.near(sm.crossMx(p3), sm.crossMx(*p3), 0, 0, "overloads of crossMx")
    c.near(sm.rph2R(p3), sm.rph2R(*p3), 0, 0, "overloads of rph2R")
    c.near(sm.axisAngle2R(p3), sm.axisAngle2R(*p3), 0, 0, "overloads of axisAngle2R")
    p6 = matrix(c, 6)
    c.near(sm.toTEuler(p6), sm.toTEuler(*p6), 0, 0, "overloads of toTEuler")
    c.raises(lambda: sm.HomogeneousPoint(matrix(c, 5)), "point of five", (TypeError,))
    c.raises(lambda: sm.crossMx(matrix(c, 4)), "cross product matrix of four", (TypeError,))
    c.nontrivial()


# ---- kinematics ----
def cross(v):
    return np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])


def about(v):
    """the rotation about v by its length"""
    a = np.linalg.norm(v)
    if a < 1e-9:
        return np.eye(3) + cross(v)
    K = cross(np.array(v) / a)
    return np.eye(3) + math.sin(a) * K + (1 - math.cos(a)) * K.dot(K)


def vector(c, n=3, m=3.):
    return np.array([c.anyReal(m) for _ in range(n)]) if c.oneIn(4) else np.array(c.reals(n, -m, m))


def unit(c, n):
    while True:
        v = np.array(c.reals(n, -1., 1.))
        l = np.linalg.norm(v)
        if l > .1:
            return v / l
        return np.eye(n)[0]


def rotvec(c):
    return unit(c, 3) * (c.pick([0., 1e-9, 1e-5, math.pi / 2]) if c.oneIn(5) else c.real(0., 3.1))


def pose(c):
    T = np.eye(4)
    T[:3, :3], T[:3, 3] = about(rotvec(c)), matrix(c, 3)
    return T


def inverse(T):
    r = np.eye(4)
    r[:3, :3] = T[:3, :3].T
    r[:3, 3] = -T[:3, :3].T.dot(T[:3, 3])
    return r


def covariance(c, n):
    A = np.array(c.reals(n * n, -1., 1.)).reshape(n, n)
    return A.dot(A.T) + np.eye(n) * .1


TOL = 1e-12


@claim(4000)
def rotations(c):
    x = c.real(-7, 7)
    e = np.eye(3)
    for f, i, s in [(sm.Rx, 0, 1), (sm.Ry, 1, 1), (sm.Rz, 2, 1), (sm.Cx, 0, -1), (sm.Cy, 1, -1), (sm.Cz, 2, -1)]:
        c.near(f(x), about(e[i] * x * s), TOL, 0, f.__name__)
    r, p, h = c.real(-3, 3), c.real(-1.5, 1.5), c.real(-3, 3)
    R = about(e[2] * h).dot(about(e[1] * p)).dot(about(e[0] * r))
    c.near(sm.rph2R(r, p, h), R, TOL, 0, "rph2R")
    c.near(sm.R2rph(R), [r, p, h], 1e-6, 0, "R2rph")
    C = sm.rph2C(r, p, h)
    c.near(C.dot(C.T), e, TOL, 0, "rph2C")
    c.near(sm.rph2C(sm.C2rph(C)), C, 1e-9, 0, "C2rph")
    v, w = matrix(c, 3), matrix(c, 3)
    c.near(sm.crossMx(v).dot(w), np.cross(v, w), 1e-10, 0, "crossMx")
    a = rotvec(c)
    c.near(sm.axisAngle2R(a), about(-a), TOL, 0, "axisAngle2R")
    c.near(sm.R2AxisAngle(about(-a)), a, 1e-6, 0, "R2AxisAngle")
    m = sm.angleMod(x * 5)
    c.check(-math.pi - 1e-9 <= m <= math.pi + 1e-9, "angleMod %r" % m)
    c.near([math.cos(m), math.sin(m)], [math.cos(5 * x), math.sin(5 * x)], 1e-9, 0, "angleMod")
    c.near(sm.deg2rad(x), math.radians(x), 1e-12, 0, "deg2rad")
    c.near(sm.rad2deg(x), math.degrees(x), 1e-10, 0, "rad2deg")
    c.nontrivial()


def qmul(q, p):
    """the product with quat2r(q p) = quat2r(q) quat2r(p)"""
    qe, qn, pe, pn = q[:3], q[3], p[:3], p[3]
    return np.append(qn * pe + pn * qe - np.cross(qe, pe), qn * pn - qe.dot(pe))


def quat2r(q):
    e, n = q[:3], q[3]
    return (n * n - e.dot(e)) * np.eye(3) + 2 * np.outer(e, e) - 2 * n * cross(e)


@claim(4000)
def quaternions(c):
    q, p = unit(c, 4), unit(c, 4)
    R = quat2r(q)
    c.near(sm.quat2r(q), R, TOL, 0, "quat2r")
    c.near(quat2r(np.array(sm.r2quat(R))), R, 1e-9, 0, "r2quat")
    c.near(sm.qplus(q, p), qmul(q, p), TOL, 0, "qplus")
    c.near(sm.quatPlus(q).dot(p), qmul(q, p), TOL, 0, "quatPlus")
    c.near(sm.qoplus(p, q), qmul(q, p), TOL, 0, "qoplus")
    c.near(sm.quatOPlus(p).dot(q), qmul(q, p), TOL, 0, "quatOPlus")
    c.near(sm.quatInv(q), np.append(-q[:3], q[3]), TOL, 0, "quatInv")
    c.near(sm.quatIdentity(), [0, 0, 0, 1], 0, 0, "quatIdentity")
    c.near(sm.qeps(q), q[:3], 0, 0, "qeps")
    c.near(sm.qeta(q), q[3], 0, 0, "qeta")
    v = matrix(c, 3)
    c.near(sm.quatRotate(q, v), R.dot(v), 1e-11, 0, "quatRotate")
    a = rotvec(c)
    for f in (sm.axisAngle2quat, sm.qexp):
        c.near(quat2r(np.array(f(a))), about(-a), 1e-10, 0, f.__name__)
        c.near(np.linalg.norm(f(a)), 1., 1e-12, 0, "length")
    for f in (sm.quat2AxisAngle, sm.qlog):
        c.near(f(sm.axisAngle2quat(a)), a, 1e-7, 0, f.__name__)
    t = c.pick([0., 1.]) if c.oneIn(5) else c.real(0, 1)
    d = np.array(sm.axisAngle2quat(rotvec(c) * .9))
    end = qmul(q, d)
    between = qmul(q, np.array(sm.qexp(np.array(sm.qlog(d)) * t)))
    c.near(quat2r(np.array(sm.qslerp(q, end, t))), quat2r(between), 1e-6, 0, "qslerp")
    c.near(np.linalg.norm(sm.quatRandom()), 1., 1e-9, 0, "quatRandom")
    u = sm.updateQuat(q, a * 1e-6)
    c.near((quat2r(np.array(u)) - R) / 1e-6, -cross(a).dot(R), 1e-4, 0, "updateQuat")
    S, I = sm.quatS(q), sm.quatInvS(q)
    c.eq((S.shape, I.shape), ((3, 4), (4, 3)), "shapes of quatS and its inverse")
    c.near(S.dot(I), np.eye(3), 1e-10, 0, "quatS times quatInvS")
    c.near((np.array(u) - q) / 1e-6, I.dot(a), 1e-4, 0, "quatInvS")
    c.nontrivial()


@claim(4000)
def transformations(c):
    T, p = pose(c), np.append(matrix(c, 3), c.pick([0., 1.]) if c.oneIn(3) else c.real(-2, 2))
    R, t = T[:3, :3], T[:3, 3]
    c.near(sm.rt2Transform(R, t), T, 0, 0, "rt2Transform")
    c.near(sm.transform2C(T), R, 0, 0, "transform2C")
    c.near(sm.transform2rho(T), t, 0, 0, "transform2rho")
    c.near(sm.transform2rhoHomogeneous(T), T[:, 3], 0, 0, "transform2rhoHomogeneous")
    c.near(sm.inverseTransform(T), inverse(T), 1e-12, 0, "inverseTransform")
    v = vector(c, 6)
    B = np.zeros((4, 4))
    B[:3, :3], B[:3, 3] = cross(v[3:]), -v[:3]
    c.near(sm.boxPlus(v), B, 0, 0, "boxPlus")
    c.near(sm.boxMinus(p).dot(v), -B.dot(p), 1e-9, 1e-12, "boxMinus")
    c.near(T.dot(sm.boxPlus(v)).dot(inverse(T)), sm.boxPlus(sm.boxTimes(T).dot(v)), 1e-8, 1e-9, "boxTimes")
    d = np.append(matrix(c, 3), [c.real(-3, 3), c.real(-1.5, 1.5), c.real(-3, 3)])
    E = sm.toTEuler(d)
    W = np.eye(4)
    W[:3, :3], W[:3, 3] = sm.rph2R(-d[3], -d[4], -d[5]), d[:3]
    c.near(E, W, 1e-12, 0, "toTEuler")
    c.near(sm.fromTEuler(E), d, 1e-6, 0, "fromTEuler")
    q, J = sm.transformationAndJacobian(T, p)
    c.near(q, T.dot(p), 1e-12, 0, "transformation of a point")
    c.near(J, sm.boxMinus(T.dot(p)), 1e-12, 0, "Jacobian of the transformation")
    q, J = sm.inverseTransformationAndJacobian(T, p)
    c.near(q, inverse(T).dot(p), 1e-10, 0, "inverse transformation of a point")
    h = 1e-6
    xi = np.array(c.reals(6, -1., 1.))
    moved = (np.eye(4) - sm.boxPlus(h * xi)).dot(T)
    c.near((np.linalg.inv(moved).dot(p) - q) / h, J.dot(xi), 1e-3, 1e-4, "Jacobian of the inverse transformation")
    x = matrix(c, 3)
    c.near(sm.toHomogeneous(x), np.append(x, 1.), 0, 0, "toHomogeneous")
    c.near(sm.toHomogeneousJacobian(x), np.eye(4)[:, :3], 0, 0, "toHomogeneousJacobian")
    y = np.append(x, c.sign() * c.real(.2, 3.))
    c.near(sm.fromHomogeneous(y), x / y[3], 1e-12, 1e-12, "fromHomogeneous")
    num = np.array([(sm.fromHomogeneous(y + e) - sm.fromHomogeneous(y - e)) / 2e-6 for e in np.eye(4) * 1e-6]).T
    c.near(sm.fromHomogeneousJacobian(y), num, 1e-4, 1e-6, "fromHomogeneousJacobian")
    M = matrix(c, c.integer(1, 5), c.integer(0, 6))
    H = np.vstack([M, np.ones((1, M.shape[1]))])
    c.near(sm.toHomogeneousColumns(M), H, 0, 0, "toHomogeneousColumns")
    w = np.array([c.sign() * c.real(.2, 3.) for _ in range(M.shape[1])])
    c.near(sm.fromHomogeneousColumns(H * w), M, 1e-9, 1e-12, "fromHomogeneousColumns")
    A = covariance(c, c.integer(1, 6))
    S = sm.computeMatrixSqrt(A)
    c.near(S.dot(S.T), A, 1e-9, 1e-9, "computeMatrixSqrt")
    c.nontrivial()


@claim(3000)
def rotation_parameters(c):
    """the representations of rotations, and the angular velocities they turn rates into"""
    K = c.pick([sm.EulerAnglesZYX, sm.EulerAnglesYawPitchRoll, sm.RotationVector, sm.EulerRodriguez])
    k = K()
    p = np.array([c.real(-3, 3), c.real(-1.4, 1.4), c.real(-3, 3)]) if "Euler" in K.__name__ and "Rod" not in K.__name__ else np.array(c.reals(3, -1., 1.))
    v = np.array(c.reals(3, -2., 2.))
    C = k.parametersToRotationMatrix(p)
    c.near(C.dot(C.T), np.eye(3), 1e-12, 0, "a rotation")
    c.near(np.linalg.det(C), 1., 1e-12, 0, "determinant")
    q = k.rotationMatrixToParameters(C)
    c.near(k.parametersToRotationMatrix(q), C, 1e-8, 0, "parameters of a rotation")
    h = 1e-6
    dC = (k.parametersToRotationMatrix(p + h * v) - k.parametersToRotationMatrix(p - h * v)) / (2 * h)
    W = -dC.dot(C.T)
    c.near([W[2, 1], W[0, 2], W[1, 0]], k.parametersToSMatrix(p).dot(v), 1e-7, 1e-7, K.__name__ + " rates")
    w, J = k.angularVelocityAndJacobian(p, v)
    c.near(w, k.parametersToSMatrix(p).dot(v), 1e-10, 0, K.__name__ + " angular velocity")
    c.eq(J.shape, (3, 6), "size of the Jacobian")
    num = []
    for i in range(6):
        d = np.zeros(6)
        d[i] = h
        f = lambda s: k.parametersToSMatrix(p + s * d[:3]).dot(v + s * d[3:])
        num.append((f(1) - f(-1)) / (2 * h))
    c.near(J, np.array(num).T, 1e-6, 1e-6, K.__name__ + " Jacobian of the angular velocity")
    c.nontrivial()


# ---- objects ----
def again(c, x):
    """x after a way through storage"""
    how = c.integer(0, 3)
    if how == 0:
        return copy.copy(x)
    if how == 1:
        return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x, c.pick([0, 2, 4])))


class Scratch(object):
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="p02_")
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


@claim(3000)
def transformation_objects(c):
    Ta, Tb, p = pose(c), pose(c), matrix(c, 3)
    ph = np.append(matrix(c, 3), c.sign() * c.real(.2, 2.))
    q = unit(c, 4)
    Tq = np.eye(4)
    Tq[:3, :3], Tq[:3, 3] = quat2r(q), p
    c.near(sm.Transformation(q, p).T(), Tq, 1e-12, 0, "from quaternion and position")
    c.near(sm.Transformation(q * c.real(.1, 5.), p).T(), Tq, 1e-12, 0, "from a quaternion of any length")
    A, B = sm.Transformation(Ta), sm.Transformation(Tb)
    c.near(A.T(), Ta, 1e-9, 0, "T")
    c.near(A.C(), Ta[:3, :3], 1e-9, 0, "C")
    c.near(A.t(), Ta[:3, 3], 1e-12, 0, "t")
    c.near(quat2r(A.q()), Ta[:3, :3], 1e-9, 0, "q")
    c.near(A.T3x4(), Ta[:3], 1e-9, 0, "T3x4")
    c.near((A * B).T(), Ta.dot(Tb), 1e-8, 0, "product")
    c.near(A.inverse().T(), inverse(Ta), 1e-8, 0, "inverse")
    c.near(A * p, Ta[:3, :3].dot(p) + Ta[:3, 3], 1e-8, 0, "point")
    c.near((A * sm.HomogeneousPoint(ph)).toHomogeneous(), Ta.dot(ph), 1e-8, 0, "homogeneous point")
    c.eq(type(A * sm.HomogeneousPoint(ph)), sm.HomogeneousPoint, "kind of a point")
    c.near(again(c, A).T(), A.T(), 0, 1e-14, "copy")
    with Scratch() as d:
        f = os.path.join(d, "x.ba")
        A.save(f)
        Z = sm.Transformation(Tb)
        Z.load(f)
        c.near(Z.T(), A.T(), 0, 1e-14, "saved and loaded")
    t = c.pick([0., 1.]) if c.oneIn(4) else c.real(0, 1)
    I = sm.slerpTransformations(A, B, t).T()
    c.near(I[:3, 3], (1 - t) * Ta[:3, 3] + t * Tb[:3, 3], 1e-9, 0, "interpolated position")
    R0, R1 = Ta[:3, :3], Tb[:3, :3]
    angle = lambda R: math.acos(max(-1., min(1., (np.trace(R) - 1) / 2)))
    full = angle(R0.T.dot(R1))
    if full < 3.0:
        c.near(angle(R0.T.dot(I[:3, :3])), t * full, 1e-6, 0, "interpolated rotation")
        c.near(angle(I[:3, :3].T.dot(R1)), (1 - t) * full, 1e-6, 0, "rest of the rotation")
    A.setIdentity()
    c.near(A.T(), np.eye(4), 0, 0, "setIdentity")
    A.setRandom(c.real(.1, 2.), c.real(.1, 1.))
    c.near(A.C().dot(A.C().T), np.eye(3), 1e-9, 0, "random rotation")
    c.nontrivial()


@claim(3000)
def uncertain_transformations(c):
    """covariances go along with what they belong to"""
    Ta, Tb = pose(c), pose(c)
    Ua, Ub = covariance(c, 6), covariance(c, 6)
    A, B = sm.UncertainTransformation(Ta, Ua), sm.UncertainTransformation(Tb, Ub)
    P, Q = sm.Transformation(Ta), sm.Transformation(Tb)
    c.near(A.U(), Ua, 0, 0, "covariance")
    c.near(A.T(), Ta, 1e-9, 0, "transformation")
    st, sr = c.real(.01, 2.), c.real(.01, 2.)
    diagonal = np.diag([st] * 3 + [sr] * 3)
    q, t = unit(c, 4), matrix(c, 3)
    for X, U in [(sm.UncertainTransformation(Ta, st, sr), diagonal), (sm.UncertainTransformation(P, Ua), Ua),
                 (sm.UncertainTransformation(P, st, sr), diagonal), (sm.UncertainTransformation(q, t, Ua), Ua),
                 (sm.UncertainTransformation(q, t, st, sr), diagonal), (sm.UncertainTransformation(P), 0 * Ua),
                 (sm.UncertainTransformation(Ta), 0 * Ua), (sm.UncertainTransformation(q, t), 0 * Ua)]:
        c.near(X.U(), U, 0, 0, "covariance given to the constructor")
    box = sm.boxTimes
    AB = box(A.T())
    for X, U in [(A * B, Ua + AB.dot(Ub).dot(AB.T)), (P * B, AB.dot(Ub).dot(AB.T)), (A * Q, Ua)]:
        c.eq(type(X), sm.UncertainTransformation, "kind of a product")
        c.near(X.T(), Ta.dot(Tb), 1e-8, 0, "product")
        c.near(X.U(), U, 1e-7, 1e-8, "covariance of a product")
    Ai = A.inverse()
    c.eq(type(Ai), sm.UncertainTransformation, "kind of an inverse")
    J = box(Ai.T())
    c.near(Ai.U(), J.dot(Ua).dot(J.T), 1e-7, 1e-8, "covariance of an inverse")
    c.near(Ai.T(), inverse(Ta), 1e-8, 0, "inverse")
    for X in [again(c, A)]:
        c.near(X.U(), Ua, 1e-14, 1e-14, "covariance of a copy")
        c.near(X.T(), A.T(), 0, 1e-13, "copy")
    with Scratch() as d:
        f = os.path.join(d, "x.ba")
        A.save(f)
        B.load(f)
        c.near(B.U(), Ua, 0, 1e-14, "covariance saved and loaded")
    S = np.eye(6)
    S[:3, 3:] = -cross(Ta[:3, 3])
    A.setUOplus(Ub)
    c.near(A.U(), S.dot(Ub).dot(S.T), 1e-8, 1e-9, "setUOplus")
    A.setU(Ub)
    c.near(A.U(), Ub, 0, 0, "setU")
    ph, Up = np.append(matrix(c, 3), c.sign() * c.real(.2, 2.)), covariance(c, 4)
    h, u = sm.HomogeneousPoint(ph), sm.UncertainHomogeneousPoint(ph, Up)
    Jt = sm.boxMinus(Ta.dot(ph))
    for X, U in [(A * u, Jt.dot(Ub).dot(Jt.T) + Ta.dot(Up).dot(Ta.T)), (P * u, Ta.dot(Up).dot(Ta.T)), (A * h, Jt.dot(Ub).dot(Jt.T))]:
        c.eq(type(X), sm.UncertainHomogeneousPoint, "kind of a point")
        c.near(X.toHomogeneous(), Ta.dot(ph), 1e-8, 0, "point")
        c.near(X.U4(), U, 1e-6, 1e-7, "covariance of a point")
    c.nontrivial()


@claim(3000)
def points(c):
    """sums, differences and covariances of homogeneous points"""
    p, q = [np.append(matrix(c, 3), c.sign() * c.real(.2, 2.)) for _ in range(2)]
    U, V, U3 = covariance(c, 4), covariance(c, 4), covariance(c, 3)
    eu = lambda x: x[:3] / x[3]
    J = sm.fromHomogeneousJacobian
    a, b = sm.HomogeneousPoint(p), sm.HomogeneousPoint(q)
    x, y = sm.UncertainHomogeneousPoint(p, U), sm.UncertainHomogeneousPoint(b, V)
    cov3 = lambda z: np.array(J(z.toHomogeneous())).dot(z.U4()).dot(J(z.toHomogeneous()).T)
    for l, r in [(a, b), (a, y), (x, b), (x, y)]:
        for s, z in [(1, l + r), (-1, l - r)]:
            c.near(z.toEuclidean(), eu(p) + s * eu(q), 1e-7, 1e-9, "sum or difference")
            plain = type(l) is type(r) is sm.HomogeneousPoint
            c.eq(type(z), sm.HomogeneousPoint if plain else sm.UncertainHomogeneousPoint, "kind of a sum")
            if not plain:
                want = (cov3(l) if l is x else 0) + (cov3(r) if r is y else 0)
                c.near(z.U3(), want, 1e-6, 1e-6, "covariance of a sum or difference")
    e = sm.UncertainHomogeneousPoint(p[:3], U3)
    c.near(e.U3(), U3, 1e-12, 0, "covariance of a Euclidean point")
    c.near(e.toEuclidean(), p[:3], 0, 0, "Euclidean point")
    for z in [sm.UncertainHomogeneousPoint(p), sm.UncertainHomogeneousPoint(a), sm.UncertainHomogeneousPoint(p[:3])]:
        c.near(z.U4(), np.zeros((4, 4)), 0, 0, "no covariance")
    n = np.linalg.norm(p)
    x.normalize()
    N = np.eye(4) / n - np.outer(p, p) / n**3
    c.near(x.toHomogeneous(), p / n, 1e-12, 0, "normalized")
    c.near(x.U4(), N.dot(U).dot(N.T), 1e-10, 1e-10, "covariance of a normalized point")
    u = sm.UncertainHomogeneousPoint(p / n, U3)
    c.near(u.U_av_form(), U3, 1e-8, 1e-9, "covariance in the tangent plane")
    u.setU(V)
    c.near(u.U4(), V, 0, 0, "setU")
    c.nontrivial()


@claim(3000)
def uncertain_vectors(c):
    n = c.integer(2, 6)
    K = getattr(sm, "UncertainVector%d" % n)
    v, w, U, V = matrix(c, n), matrix(c, n), covariance(c, n), covariance(c, n)
    a, b = K(v, U), K(w, V)
    c.near(K(v).E(), np.zeros((n, n)), 0, 0, "without covariance")
    s, x = c.real(-3, 3), sm.UncertainScalar(c.real(-3, 3), c.real(.1, 2.))
    m, e = x.mean(), x.covariance()
    l = np.linalg.norm(v)
    if l < .1:
        c.discard()
    N = np.eye(n) / l - np.outer(v, v) / l**3
    for z, mean, cov in [(a + b, v + w, U + V), (a - b, v - w, U + V), (a + w, v + w, U), (a - w, v - w, U), (a * s, v * s, U * s * s),
                         (a * x, v * m, U * m * m + np.outer(v, v) * e), (a.normalized(), v / l, N.dot(U).dot(N.T)), (again_vector(a), v, U)]:
        c.near(z.mean(), mean, 1e-10, 1e-10, "mean")
        c.near(z.covariance(), cov, 1e-9, 1e-9, "covariance")
        c.near(z.v(), z.mean(), 0, 0, "v")
        c.near(z.E(), z.covariance(), 0, 0, "E")
    d, k = a.dot(b), a.dotV(w)
    c.near([d.mean(), k.mean()], [v.dot(w)] * 2, 1e-9, 1e-9, "dot product")
    c.near(d.covariance(), w.dot(U).dot(w) + v.dot(V).dot(v), 1e-8, 1e-9, "covariance of a dot product")
    c.near(k.covariance(), w.dot(U).dot(w), 1e-8, 1e-9, "covariance of a dot product with a vector")
    a.setMean(w)
    a.setCovariance(V)
    c.near(a.mean(), w, 0, 0, "setMean")
    c.near(a.covariance(), V, 0, 0, "setCovariance")
    b.normalize() if np.linalg.norm(w) > .1 else None
    y = sm.UncertainScalar(c.sign() * c.real(.3, 3), c.real(.1, 2.))
    n, f = y.mean(), y.covariance()
    for z, mean, var in [(x + y, m + n, e + f), (x - y, m - n, e + f), (x * y, m * n, e * n * n + f * m * m),
                         (x / y, m / n, e / n**2 + f * m * m / n**4), (x + s, m + s, e), (x - s, m - s, e), (x * s, m * s, e * s * s),
                         (x.dot(y), m * n, e * n * n + f * m * m), (x.dotV(s), m * s, e * s * s)]:
        c.near(z.mean(), mean, 1e-10, 1e-10, "mean of a scalar")
        c.near(z.covariance(), var, 1e-9, 1e-9, "variance of a scalar")
    if abs(s) > .1:
        c.near([(x / s).mean(), (x / s).covariance()], [m / s, e / s**2], 1e-9, 1e-9, "divided by a number")
    c.nontrivial()


def again_vector(a):
    return type(a)(a.mean(), a.covariance())

# ---- cameras ----
def radtan(k, y):
    r2 = y.dot(y)
    f = k[0] * r2 + k[1] * r2 * r2
    return y + y * f + np.array([2 * k[2] * y[0] * y[1] + k[3] * (r2 + 2 * y[0]**2), 2 * k[3] * y[0] * y[1] + k[2] * (r2 + 2 * y[1]**2)])


def equidistant(k, y):
    r = np.linalg.norm(y)
    if r < 1e-8:
        return y
    t = math.atan(r)
    return y * (t * (1 + sum(k[i] * t**(2 * i + 2) for i in range(4))) / r)


def fov(k, y):
    r = np.linalg.norm(y)
    if r < 1e-8:
        return y * (2 * math.tan(k[0] / 2) / k[0])
    return y * (math.atan(2 * r * math.tan(k[0] / 2)) / (r * k[0]))


def numerical(f, x, h=1e-6):
    x = np.array(x, dtype=float)
    return np.array([(np.array(f(x + d)) - np.array(f(x - d))) / (2 * h) for d in np.eye(x.size) * h]).T


def column(x):
    return np.array(x, dtype=float).reshape(-1, 1)


LENSES = {"radtan": (radtan, acv.RadialTangentialDistortion, "k1 k2 p1 p2".split()), "fov": (fov, acv.FovDistortion, ["w"]),
          "equidistant": (equidistant, acv.EquidistantDistortion, "k1 k2 k3 k4".split())}
PROJECTIONS = {("pinhole", None): "PinholeProjection", ("pinhole", "radtan"): "DistortedPinholeProjection", ("pinhole", "equidistant"): "EquidistantPinholeProjection",
               ("pinhole", "fov"): "FovPinholeProjection", ("omni", None): "OmniProjection", ("omni", "radtan"): "DistortedOmniProjection",
               ("omni", "fov"): "FovOmniProjection", ("eucm", None): "ExtendedUnifiedProjection", ("ds", None): "DoubleSphereProjection"}
GEOMETRIES = {"PinholeProjection": "PinholeCameraGeometry", "DistortedPinholeProjection": "DistortedPinholeCameraGeometry",
              "EquidistantPinholeProjection": "EquidistantDistortedPinholeCameraGeometry", "FovPinholeProjection": "FovDistortedPinholeCameraGeometry",
              "OmniProjection": "OmniCameraGeometry", "DistortedOmniProjection": "DistortedOmniCameraGeometry", "FovOmniProjection": "FovDistortedOmniCameraGeometry",
              "ExtendedUnifiedProjection": "ExtendedUnifiedCameraGeometry", "DoubleSphereProjection": "DoubleSphereCameraGeometry"}


def coefficients(c, lens):
    if lens == "fov":
        return [c.real(.6, 1.2)]
    m = 1e-2 if lens == "equidistant" else 5e-2
    return [c.real(-m, m) for _ in range(2)] + [c.real(-m, m) * (1 if lens == "equidistant" else .1) for _ in range(2)]


def plane(c, m=.8):
    a, r = c.real(0, 2 * math.pi), c.real(.05, m)
    return np.array([r * math.cos(a), r * math.sin(a)])


@claim(4000)
def lenses(c):
    """distortions: formula, Jacobians, inverse, parameters"""
    name = c.pick(list(LENSES))
    f, K, names = LENSES[name]
    k = coefficients(c, name)
    d = K(*k)
    names = [n for n in names if hasattr(d, n)]
    c.near([getattr(d, n)() for n in names], k[:len(names)], 0, 0, "coefficients")
    c.near(np.array(d.getParameters()).ravel(), k, 0, 0, "parameters")
    if c.boolean():
        k = coefficients(c, name)
        d.setParameters(column(k))
        c.near([getattr(d, n)() for n in names], k[:len(names)], 0, 0, "coefficients set")
        c.near(np.array(d.getParameters()).ravel(), k, 0, 0, "parameters set")
    y = plane(c, .6)
    z = f(k, y)
    c.near(d.distort(y), z, 1e-12, 1e-12, name)
    w, J = d.distortJd(y)
    c.near(w, z, 1e-12, 1e-12, name + " with Jacobian")
    c.near(J, numerical(lambda x: f(k, x), y), 1e-7, 1e-7, "Jacobian of " + name)
    c.near(d.distortParameterJacobian(y), numerical(lambda x: f(x, y), k), 1e-6, 1e-6, "parameter Jacobian of " + name)
    c.near(d.undistort(z), y, 1e-6, 1e-6, "inverse of " + name)
    if name != "fov":       # has no Jacobian of its inverse
        u, J = d.undistortJd(z)
        c.near(u, d.undistort(z), 1e-6, 1e-6, "inverse with Jacobian of " + name)
        c.near(J.dot(numerical(lambda x: f(k, x), y)), np.eye(2), 1e-4, 1e-4, "Jacobian of the inverse of " + name)
    c.nontrivial()


def model(m, lens, extra, k, intr, p):
    """pixel of a point"""
    l = np.linalg.norm(p)
    if m == "pinhole":
        y = p[:2] / p[2]
    elif m == "omni":
        y = p[:2] / (p[2] + extra[0] * l)
    elif m == "eucm":
        a, b = extra
        y = p[:2] / (a * math.sqrt(b * p[:2].dot(p[:2]) + p[2]**2) + (1 - a) * p[2])
    else:
        xi, a = extra
        w = xi * l + p[2]
        y = p[:2] / (a * math.sqrt(p[:2].dot(p[:2]) + w * w) + (1 - a) * w)
    if lens:
        y = LENSES[lens][0](k, y)
    return y * intr[:2] + intr[2:]


@claim(4000)
def cameras(c):
    """projections and geometries: every variant, Jacobians, parameters, copies"""
    m, lens = c.pick(list(PROJECTIONS))
    name = PROJECTIONS[m, lens]
    extra = {"pinhole": [], "omni": [c.real(.5, 1.5)], "eucm": [c.real(.3, .7), c.real(.8, 1.3)], "ds": [c.real(-.3, .5), c.real(.3, .7)]}[m]
    labels = {"pinhole": [], "omni": ["xi"], "eucm": ["alpha", "beta"], "ds": ["xi", "alpha"]}[m]
    intr = np.array([c.real(300, 500), c.real(300, 500), c.real(280, 360), c.real(200, 280)])
    ru, rv = c.integer(4000, 5000), c.integer(3000, 4000)
    intr[2:] += [ru / 2 - 320, rv / 2 - 240]
    k = coefficients(c, lens) if lens else []
    K = getattr(acv, name)
    args = extra + list(intr) + [ru, rv]
    P = K(*(args + [LENSES[lens][1](*k)])) if lens else K(*args)
    if lens:
        c.near(np.array(P.distortion().getParameters()).ravel(), k, 0, 0, "coefficients")
        if c.boolean():
            k = coefficients(c, lens)
            P.setDistortion(LENSES[lens][1](*k))
    if c.boolean():
        intr[:2] = [c.real(300, 500), c.real(300, 500)]
        P.setParameters(column(extra + list(intr)))
    params = extra + list(intr)
    c.near(np.array(P.getParameters()).ravel(), params, 0, 0, "parameters")
    c.near([getattr(P, n)() for n in labels] + [P.fu(), P.fv(), P.cu(), P.cv()], params, 0, 0, "intrinsics")
    c.near([P.focalLengthCol(), P.focalLengthRow(), P.opticalCenterCol(), P.opticalCenterRow()], intr, 0, 0, "long names of the intrinsics")
    c.eq((P.ru(), P.rv(), P.keypointDimension()), (ru, rv, 2), "resolution")
    how = c.integer(0, 3)
    if how == 1:
        P = pickle.loads(pickle.dumps(P))
    G = getattr(acv, GEOMETRIES[name])(P)
    if how == 2:
        G = pickle.loads(pickle.dumps(G))
    for X, what in [(P, "projection"), (G, "geometry")]:
        p = np.append(plane(c, .6), 1.) * c.real(.3, 20.)
        f = lambda x: model(m, lens, extra, k, intr, x)
        z = f(p)
        h = np.append(p, 1.) * c.sign() * c.real(.2, 3.)
        if h[3] < 0 and c.boolean():
            h = np.append(p, 1.)
        c.near(X.euclideanToKeypoint(p), z, 1e-8, 1e-10, what + ": pixel of a point")
        kp, J, valid = X.euclideanToKeypointJp(p)
        c.check(valid, what + ": visible")
        c.near(kp, z, 1e-8, 1e-10, what + ": pixel of a point with Jacobian")
        c.near(J, numerical(f, p, 1e-6 * np.linalg.norm(p)), 1e-3, 1e-5, what + ": Jacobian of a point")
        c.near(X.homogeneousToKeypoint(h), z, 1e-8, 1e-10, what + ": pixel of a homogeneous point")
        kp, J, valid = X.homogeneousToKeypointJp(h)
        c.check(valid, what + ": homogeneous point visible")
        c.near(kp, z, 1e-8, 1e-10, what + ": pixel of a homogeneous point with Jacobian")
        c.eq(J.shape, (2, 4), what + ": size of the Jacobian")
        side = 1 if h[3] >= 0 else -1
        c.near(J[:, :3], side * np.array(X.euclideanToKeypointJp(side * h[:3])[1]), 1e-6, 1e-8, what + ": Jacobian of a homogeneous point")
        c.check(X.isValid(z), what + ": valid keypoint")
        c.check(not X.isValid(np.array([-1., 5.])) and not X.isValid(np.array([ru + 1., 5.])) and not X.isValid(np.array([5., rv + 1.])), what + ": keypoint outside")
        tol = 1e-5
        ray = X.keypointToEuclidean(z)
        c.near(np.array(ray) / np.linalg.norm(ray), p / np.linalg.norm(p), tol, 0, what + ": ray of a keypoint")
        r, J, valid = X.keypointToEuclideanJk(z) if lens != "fov" else (ray, None, True)
        c.check(valid, what + ": ray valid")
        c.near(r, ray, 1e-6, 1e-6, what + ": ray with Jacobian")
        if J is not None:
            c.near(np.array(X.euclideanToKeypointJp(ray)[1]).dot(J), np.eye(2), 1e-3, 0, what + ": Jacobian of a ray")
        ray4 = X.keypointToHomogeneous(z)
        c.near(ray4, np.append(ray, 0.), 1e-12, 1e-12, what + ": homogeneous ray")
        if J is not None:
            r, J4, valid = X.keypointToHomogeneousJk(z)
            c.check(valid, what + ": homogeneous ray valid")
            c.near(r, ray4, 1e-6, 1e-6, what + ": homogeneous ray with Jacobian")
            c.near(J4, np.vstack([J, [[0., 0.]]]), 1e-9, 1e-9, what + ": Jacobian of a homogeneous ray")
    c.eq((G.minimalDimensionsProjection(), G.minimalDimensionsDistortion(), G.minimalDimensionsShutter()), (len(params), len(k), 0), "numbers of parameters")
    which = [c.boolean() for _ in range(3)]
    want = (params if which[0] else []) + (list(k) if which[1] else [])
    c.near(np.array(G.getParameters(*which)).ravel(), want, 0, 0, "parameters of the geometry")
    new = [x * c.real(.9, 1.1) for x in want]
    if new:
        G.setParameters(column(new), *which)
        c.near(np.array(G.getParameters(*which)).ravel(), new, 0, 0, "parameters set")
    c.near(np.array(G.projection().getParameters()).ravel(), new[:len(params)] if which[0] else params, 0, 0, "parameters of its projection")
    c.nontrivial(bool(lens))


@claim(1500)
def observations(c):
    """targets and what was seen of them"""
    rows, cols, rs, cs = c.integer(2, 8), c.integer(2, 8), c.real(.02, .2), c.real(.02, .2)
    T = acv.GridCalibrationTargetCheckerboard(rows, cols, rs, cs)
    if c.oneIn(3):
        T = pickle.loads(pickle.dumps(T))
    n = rows * cols
    c.eq((T.size(), T.rows(), T.cols()), (n, rows, cols), "size")
    points = np.array([T.point(i) for i in range(n)])
    c.near(T.points(), points, 0, 0, "points")
    i = c.integer(0, n - 1)
    r, q = i // cols, i % cols
    c.near(T.gridPoint(r, q), points[i], 0, 0, "gridPoint")
    c.eq(T.gridCoordinatesToPoint(r, q), i, "gridCoordinatesToPoint")
    c.near(np.linalg.norm(points[cols] - points[0]), rs, 1e-12, 0, "row spacing")
    c.near(np.linalg.norm(points[1] - points[0]), cs, 1e-12, 0, "column spacing")
    obs = acv.GridCalibrationTargetObservation(T)
    seen = {}
    for _ in range(c.integer(0, 30)):
        i = c.integer(0, n - 1)
        if c.oneIn(4):
            obs.removeImagePoint(i)
            seen.pop(i, None)
        else:
            seen[i] = np.array(c.reals(2, 0., 1000.))
            obs.updateImagePoint(i, seen[i])
    image = None
    if c.boolean():
        image = np.array([c.integer(0, 255) for _ in range(12)], np.uint8).reshape(c.pick([(3, 4), (4, 3), (2, 6), (12, 1)]))
        view, done = layout(c, image.copy())
        image = np.array(view)
        obs.setImage(view)
    t = acv.Time(c.integer(0, 2**31 - 1), c.integer(0, 999999999))
    obs.setTime(t)
    A = pose(c)
    obs.set_T_t_c(sm.Transformation(A))
    if c.oneIn(3):
        obs = pickle.loads(pickle.dumps(obs))
    idx = sorted(seen)
    c.eq([int(x) for x in np.array(obs.getCornersIdx()).ravel()], idx, "indices")
    c.near(np.array(obs.getCornersTargetFrame()).reshape(-1, 3), points[idx].astype("f").reshape(-1, 3), 1e-6, 0, "corners on the target")
    c.near(np.array(obs.getCornersImageFrame()).reshape(-1, 2), np.array([seen[i] for i in idx]).astype("f").reshape(-1, 2), 1e-3, 0, "corners in the image")
    c.eq(obs.hasSuccessfulObservation(), bool(seen), "hasSuccessfulObservation")
    for i in range(n):
        ok, y = obs.imagePoint(i)
        c.eq(ok, i in seen, "imagePoint seen")
        ok2, y2 = obs.imageGridPoint(i // cols, i % cols)
        c.eq(ok2, ok, "imageGridPoint seen")
        if ok:
            c.near(y, seen[i], 0, 1e-14, "imagePoint")
            c.near(y2, seen[i], 0, 1e-14, "imageGridPoint")
    c.eq(obs.time().toNSec(), t.toNSec(), "time")
    c.near(obs.T_t_c().T(), A, 1e-9, 0, "pose")
    if image is not None:
        c.eq((obs.imRows(), obs.imCols()), image.shape, "size of the image")
        got = np.array(obs.getImage()).reshape(image.shape)
        c.check(np.array_equal(got, image), "image\n%r\n%r" % (got, image))
        obs.clearImage()
        c.eq(obs.hasSuccessfulObservation(), bool(seen), "corners after the image is gone")
    c.nontrivial(len(seen) > 1)


@claim(1500)
def stamps(c):
    """times and durations are exact in nanoseconds"""
    s, n = c.integer(0, 2**30), c.pick([0, 1, 999999999]) if c.oneIn(4) else c.integer(0, 999999999)
    a = acv.Time(s, n)
    ns = s * 10**9 + n
    d, m = c.integer(-2**29, 2**29), c.integer(0, 999999999)
    D = acv.Duration(d, m)
    dn = d * 10**9 + m
    c.eq((a.toNSec(), a.to_nsec(), a.secs, a.nsecs, a.sec, a.nsec), (ns, ns, s, n, s, n), "time")
    c.eq(D.toNSec(), dn, "duration")
    c.near(D.toSec(), dn / 1e9, 1e-6, 1e-15, "seconds of a duration")
    c.near(a.toSec(), ns / 1e9, 1e-6, 0, "seconds")
    c.near(a.to_sec(), ns / 1e9, 1e-6, 0, "seconds")
    if ns + dn >= 0:
        c.eq((a + D).toNSec(), ns + dn, "sum")
        c.eq(((a + D) - a).toNSec(), dn, "difference")
        b = acv.Time(s, n)
        b += D
        c.eq(b.toNSec(), ns + dn, "addition in place")
        for o in (lambda x, y: x < y, lambda x, y: x > y, lambda x, y: x <= y, lambda x, y: x >= y, lambda x, y: x == y, lambda x, y: x != y):
            c.eq(o(a, b), o(ns, ns + dn), "comparison")
            c.eq(o(D, acv.Duration(s, n)), o(dn, ns), "comparison of durations")
    if ns - dn >= 0:
        c.eq((a - D).toNSec(), ns - dn, "time minus duration")
    for X in (a, D):
        c.eq(pickle.loads(pickle.dumps(X)).toNSec(), X.toNSec(), "pickled")
        Y = type(X)()
        c.check(Y.isZero(), "zero")
        Y.fromNSec(X.toNSec())
        c.check(Y == X, "from nanoseconds")
    t = c.real(0, 1e6)
    x = acv.Time(t)
    c.near(x.toNSec(), t * 1e9, 1., 0, "from seconds")
    ns2 = c.integer(0, 2**52)
    c.near(sm.nsecToSec(ns2), ns2 / 1e9, 0, 1e-15, "nsecToSec")
    c.near(sm.secToNsec(t), t * 1e9, 1., 0, "secToNsec")
    K, integral = c.pick([(sm.DoubleTimestampCorrector, False), (sm.LongTimestampCorrector, True)])
    corrector = K()
    remote, offset, local = 0, c.integer(0, 10**9), []
    for _ in range(c.integer(1, 12)):
        remote += c.integer(1, 10**7)
        r, l = remote, remote + offset + (c.integer(0, 10**5) if not c.oneIn(3) else 0)
        local.append((r, l))
        q = corrector.correctTimestamp(r, l)
        c.check(q <= l + 1, "corrected time %r after %r" % (q, l))
        if len(local) > 1:
            c.check(corrector.getLocalTime(r) >= r + offset - 1e5, "corrected time")
    c.check(1 <= corrector.convexHullSize() <= len(local), "hull")
    c.nontrivial(dn != 0)


@claim(600)
def stored(c):
    """matrix archives and property trees, filled and read from Python"""
    A, want, strings = sm.MatrixArchive(), {}, {}
    name = lambda: c.pick(["a", "b", "cc", "d1", "e_e", "matrix", "x" * 20])
    with Scratch() as d:
        f = os.path.join(d, "x.ama")
        onDisk = None
        for _ in range(c.integer(1, 12)):
            n, k = name(), c.integer(0, 7)
            if k == 0:
                M = matrix(c, c.integer(1, 4), c.integer(1, 4))
                view = layout(c, M)[0]
                M = np.array(view)
                A.setMatrix(n, view)
                want[n] = np.array(A.getMatrix(n))
                c.near(want[n].reshape(M.shape), M, 0, 0, "matrix")
                strings.pop(n, None)
            elif k == 1:
                v = matrix(c, c.integer(1, 5))
                A.setVector(n, v)
                want[n] = v.reshape(-1, 1)
                strings.pop(n, None)
                c.near(A.getVector(n), v, 0, 0, "vector")
            elif k == 2:
                x = c.anyReal(1e6)
                A.setScalar(n, x)
                want[n] = np.array([[x]])
                strings.pop(n, None)
                c.eq(A.getScalar(n), x, "scalar")
            elif k == 3:
                t = c.pick(["", "hello", "a b\nc", "\u00e4"])
                A.setString(n, t)
                strings[n] = t
                want.pop(n, None)
                c.eq(A.getString(n), t, "string")
            elif k == 4 and n in want:
                A.clearOne(n)
                want.pop(n)
                strings.pop(n, None)
            elif k == 5:
                A.save(f)
                onDisk = (dict(want), dict(strings))
            elif k == 6 and onDisk:
                A = sm.MatrixArchive()
                A.load(f)
                want, strings = dict(onDisk[0]), dict(onDisk[1])
            elif k == 7 and c.oneIn(3):
                A.clear()
                want, strings = {}, {}
        c.eq(sorted(A.getNameList()), sorted(want), "names")
        got = A.asDict()
        for n in want:
            c.near(np.array(got[n]).reshape(want[n].shape), want[n], 0, 0, "asDict")
            c.near(np.array(A.getMatrix(n)).reshape(want[n].shape), want[n], 0, 0, "getMatrix")
        c.eq(dict(A.stringsAsDict()), strings, "strings")
        P, tree = sm.BoostPropertyTree(), {}
        for _ in range(c.integer(1, 8)):
            n, k = c.pick(["a", "b", "c/d", "c/e", "f/g/h"]), c.integer(0, 3)
            x = [c.integer(-2**31, 2**31 - 1), c.anyReal(1e6), c.boolean(), c.pick(["x", "some text", "1"])][k]
            getattr(P, ["setInt", "setDouble", "setBool", "setString"][k])(n, x)
            tree[n] = (k, x)
        if c.boolean():
            ext = c.pick(["Xml", "Info"])
            g = os.path.join(d, "tree")
            getattr(P, "save" + ext)(g)
            P = sm.BoostPropertyTree()
            getattr(P, "load" + ext)(g)
        for n, (k, x) in tree.items():
            get, default = ["getInt", "getDouble", "getBool", "getString"][k], [7, .5, True, "z"][k]
            c.check(P.doesKeyExist(n), "key")
            c.eq(getattr(P, get)(n), x, get)
            c.eq(getattr(P, get + "Default")(n, default), x, get + "Default")
            c.eq(getattr(P, get + "Default")("none/" + n, default), default, get + "Default of a missing key")
            if "/" in n:
                head, tail = n.split("/", 1)
                c.eq(getattr(sm.PropertyTree(P, head), get)(tail), x, "child tree")
        c.check(not P.doesKeyExist("zz"), "no key")
        c.raises(lambda: P.getInt("zz"), "missing key", (RuntimeError,))
    c.nontrivial(len(want) > 1)


# ---- splines ----
def knots(c, order, segments):
    t = c.real(-10, 10)
    k = [t]
    uniform = c.boolean()
    step = c.real(.1, 2.)
    for _ in range(segments + 2 * order - 2):
        k.append(k[-1] + (step if uniform else c.real(.1, 2.)))
    return np.array(k)


@claim(1500)
def splines(c):
    """the bound spline against scipy's"""
    order, segments, dim = c.integer(2, 6), c.integer(1, 6), c.integer(1, 4)
    K = knots(c, order, segments)
    n = segments + order - 1
    C = matrix(c, dim, n)
    S = bs.BSpline(order)
    S.setKnotVectorAndCoefficients(K, C)
    R = scipy.interpolate.BSpline(K, C.T, order - 1)
    lo, hi = K[order - 1], K[-order]
    c.eq((S.splineOrder(), S.polynomialDegree(), S.numValidTimeSegments(), S.coefficientVectorLength()), (order, order - 1, segments, dim * n), "sizes")
    c.near([S.t_min(), S.t_max()], [lo, hi], 0, 0, "time interval")
    c.near(S.timeInterval(), [lo, hi], 0, 0, "time interval")
    c.near(np.array(S.coefficients()).reshape(C.shape), C, 0, 0, "coefficients")
    for _ in range(4):
        t = c.pick([lo, hi]) if c.oneIn(4) else c.real(lo, hi)
        i = min(max(int(np.searchsorted(K, t, "right")) - 1, order - 1), len(K) - order - 1)
        c.near(S.eval(t), R(t), 1e-8, 1e-9, "eval")
        if t != hi:
            for d in range(order):
                c.near(S.evalD(t, d), R.derivative(d)(t) if d else R(t), 1e-6, 1e-6 * max(1., np.abs(C).max()) * 10**d, "evalD")
            c.eq(S.segmentIndex(t), i - order + 1, "segmentIndex")
            seg = i - order + 1
            local = C[:, seg:seg + order]
            c.near(np.array(S.localCoefficientMatrix(t)).reshape(local.shape), local, 0, 0, "localCoefficientMatrix")
            c.near(S.localCoefficientVector(t), local.T.ravel(), 0, 0, "localCoefficientVector")
            c.near(S.segmentCoefficientVector(seg), local.T.ravel(), 0, 0, "segmentCoefficientVector")
            want = [(seg + j) * dim + k for j in range(order) for k in range(dim)]
            c.eq([int(x) for x in S.localCoefficientVectorIndices(t)], want, "localCoefficientVectorIndices")
            c.eq([int(x) for x in S.segmentCoefficientVectorIndices(seg)], want, "segmentCoefficientVectorIndices")
            d = c.integer(0, order - 1)
            c.near(np.array(S.Phi(t, d)).reshape(dim, -1).dot(local.T.ravel()), S.evalD(t, d), 1e-7, 1e-7, "Phi")
            c.near(S.timeInterval(seg), [K[i], K[i + 1]], 0, 0, "time interval of a segment")
            B = np.array(S.getLocalBi(t)).ravel()
            c.near(local.dot(B), R(t), 1e-8, 1e-9, "getLocalBi")
            c.near(np.array(S.getLocalCumulativeBi(t)).ravel(), np.cumsum(B[::-1])[::-1], 1e-9, 1e-9, "getLocalCumulativeBi")
    a, b = sorted([c.real(lo, hi), c.real(lo, hi)])
    c.near(S.evalI(a, b), [R.integrate(a, b)[j] for j in range(dim)] if dim > 1 else [np.ravel(R.integrate(a, b))[0]], 1e-7, 1e-7, "evalI")
    c.near(S.evalIntegral(a, b), S.evalI(a, b), 0, 0, "evalIntegral")
    v = matrix(c, dim * n)
    S.setCoefficientVector(v)
    c.near(np.array(S.coefficients()).reshape(C.shape), v.reshape(n, dim).T, 0, 0, "setCoefficientVector")
    S.setCoefficientMatrix(C)
    c.near(np.array(S.coefficients()).reshape(C.shape), C, 0, 0, "setCoefficientMatrix")
    W = covariance(c, dim)
    d = c.integer(1, order - 1) if order > 1 else 0
    Q = np.array(S.curveQuadraticIntegral(W, d))
    x = C.T.ravel()
    D = R.derivative(d)
    nodes, weights = np.polynomial.legendre.leggauss(8)
    total = 0.
    for j in range(order - 1, len(K) - order):
        h, m = (K[j + 1] - K[j]) / 2, (K[j + 1] + K[j]) / 2
        for z, w in zip(nodes, weights):
            y = np.ravel(D(m + h * z))
            total += h * w * y.dot(W).dot(y)
    c.near(x.dot(Q).dot(x), total, 1e-6, 1e-6, "curveQuadraticIntegral")
    I = bs.BSpline(order)
    value = matrix(c, dim)
    I.initConstantSpline(lo, hi, segments, value)
    c.near(I.eval(c.real(lo, hi)), value, 1e-9, 1e-9, "initConstantSpline")
    c.nontrivial(segments > 1)


@claim(800)
def pose_splines(c):
    """a pose spline from two poses onwards, seen from Python"""
    order = c.integer(3, 6)
    S = bs.BSplinePose(order, c.pick([sm.RotationVector, sm.EulerAnglesZYX, sm.EulerRodriguez, sm.EulerAnglesYawPitchRoll])())
    A, B = np.eye(4), np.eye(4)
    v = rotvec(c)
    A[:3, :3], A[:3, 3] = about(v * .4 / max(.4, np.linalg.norm(v))), matrix(c, 3)
    w = rotvec(c)
    B[:3, :3], B[:3, 3] = A[:3, :3].dot(about(w * .3 / max(.3, np.linalg.norm(w)))), matrix(c, 3)
    t0, t1 = c.real(-5, 5), 0
    t1 = t0 + c.real(.5, 3)
    S.initPoseSpline(t0, t1, A, B)
    c.near(S.transformation(t0), A, 1e-6, 0, "first pose")
    c.near(S.transformation(t1), B, 1e-6, 0, "second pose")
    if c.boolean():
        E = np.eye(4)
        u = rotvec(c)
        E[:3, :3], E[:3, 3] = B[:3, :3].dot(about(u * .2 / max(.2, np.linalg.norm(u)))), matrix(c, 3)
        t2 = t1 + c.real(.5, 3.)
        S.addPoseSegment(t2, E)
        c.near(S.transformation(t2), E, 1e-5, 0, "added pose")
        c.near(S.transformation(t1), B, 1e-5, 0, "earlier pose")
        t1 = t2
    t = c.real(t0 + .05, t1 - .05)
    T = S.transformation(t)
    c.near(S.position(t), T[:3, 3], 1e-12, 0, "position")
    c.near(S.orientation(t), T[:3, :3], 1e-12, 0, "orientation")
    c.near(S.inverseTransformation(t), inverse(T), 1e-10, 0, "inverse")
    c.near(S.inverseOrientation(t), T[:3, :3].T, 1e-12, 0, "inverse orientation")
    p = lambda x: np.array(S.position(x))
    h = 1e-4
    c.near(S.linearVelocity(t), (p(t + h) - p(t - h)) / (2 * h), 1e-4, 1e-4, "velocity")
    c.near(S.linearAcceleration(t), (p(t + h) - 2 * p(t) + p(t - h)) / h**2, 1e-2, 1e-3, "acceleration")
    C = lambda x: np.array(S.orientation(x))
    W = ((C(t + h) - C(t - h)) / (2 * h)).dot(C(t).T)
    omega = np.array([W[2, 1], W[0, 2], W[1, 0]])
    c.near(S.angularVelocity(t), omega, 1e-3, 1e-3, "angular velocity")
    c.near(S.angularVelocityBodyFrame(t), C(t).T.dot(omega), 1e-3, 1e-3, "angular velocity in the body")
    T2, J, idx = S.transformationAndJacobian(t)[:3]
    c.near(T2, T, 1e-9, 0, "pose with Jacobian")
    c.eq(np.array(J).shape, (6, 6 * order), "size of the Jacobian")
    c.eq([int(x) for x in idx], [int(x) for x in S.localCoefficientVectorIndices(t)], "indices of the Jacobian")
    c.nontrivial()



if __name__ == "__main__":
    pbt.main("P02", "the arrays have several elements and unusual storage, or the functions' results depend on all inputs")
