// A01: AprilTag decoding, detection in rendered images, the april grid and the geometry behind them.
#include <pbt.hpp>
#include <num.hpp>
#include <cstring>
#include <limits>
#include <set>
#include <aslam_apriltag2/TagDetector.h>
#include <aslam_apriltag2/Tag16h5.h>
#include <aslam_apriltag2/Tag16h5_other.h>
#include <aslam_apriltag2/Tag25h7.h>
#include <aslam_apriltag2/Tag25h9.h>
#include <aslam_apriltag2/Tag36h9.h>
#include <aslam_apriltag2/Tag36h11.h>
#include <aslam_apriltag2/Tag36h11_other.h>
#include <aslam_apriltag2/Gaussian.h>
#include <aslam_apriltag2/GrayModel.h>
#include <aslam_apriltag2/GLine2D.h>
#include <aslam_apriltag2/GLineSegment2D.h>
#include <aslam_apriltag2/Gridder.h>
#include <aslam_apriltag2/Homography33.h>
#include <aslam_apriltag2/MathUtil.h>
#include <aslam_apriltag2/Quad.h>
#include <aslam_apriltag2/UnionFindSimple.h>
#include <aslam_apriltag2/XYWeight.h>
#include <aslam_cameras_april/GridCalibrationTargetAprilgrid.hpp>
#include <Eigen/Dense>
#include <opencv2/imgproc/imgproc.hpp>

PBT_MAIN("A01", "at least one bit flipped, a tag turned or seen at an angle, or more than one tag or point")

using namespace Eigen;
using num::str;
typedef unsigned long long u64;
typedef std::pair<float, float> Point;
using AprilTags::TagDetection;
using AprilTags::TagDetector;
using AprilTags::TagFamily;

namespace {
struct Family {
  const char* name;
  const AprilTags::TagCodes* codes;
};
const Family families[] = {{"16h5", &AprilTags::tagCodes16h5},   {"16h5_other", &AprilTags::tagCodes16h5_other},
                           {"25h7", &AprilTags::tagCodes25h7},   {"25h9", &AprilTags::tagCodes25h9},
                           {"36h9", &AprilTags::tagCodes36h9},   {"36h11", &AprilTags::tagCodes36h11},
                           {"36h11_other", &AprilTags::tagCodes36h11_other}};

int ones(u64 w) {
  int n = 0;
  for (int b = 0; b < 64; b++) n += w >> b & 1;
  return n;
}
// the tag as printed: module (col, row), row 0 at the bottom, is white when bit row*d + d-1-col is set
bool white(u64 code, int d, int col, int row) { return code >> (d * row + d - 1 - col) & 1; }
u64 quarterTurn(u64 code, int d) {  // the printed tag turned by 90 degrees counter-clockwise
  u64 r = 0;
  for (int row = 0; row < d; row++)
    for (int col = 0; col < d; col++)
      // what was at (x, y) from the centre is now at (-y, x)
      if (white(code, d, row, d - 1 - col)) r |= 1ull << (d * row + d - 1 - col);
  return r;
}
u64 turned(u64 code, int d, int n) {
  for (int i = 0; i < n; i++) code = quarterTurn(code, d);
  return code;
}
u64 flip(pbt::Case& c, int bits, int n) {
  std::vector<int> at(bits);
  for (int i = 0; i < bits; i++) at[i] = i;
  u64 m = 0;
  for (int i = 0; i < n; i++) {
    std::swap(at[i], at[c.integer(i, bits - 1)]);
    m |= 1ull << at[i];
  }
  return m;
}

// ---- rendering -------------------------------------------------------------
struct Drawn {
  u64 code;
  int id;
  Matrix3d H;        // tag plane, +-1 at the outer black edge and y upwards, to pixels
  Matrix3d inverse;
  Vector2d corner[4];
  double quiet;      // width of the white margin, in modules
  Vector2d at(double x, double y) const { return (H * Vector3d(x, y, 1)).hnormalized(); }
  void finish() {
    inverse = H.inverse();
    const double s[4][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}};
    for (int i = 0; i < 4; i++) corner[i] = at(s[i][0], s[i][1]);
  }
};
struct Scene {
  int w, h, dimension, border;
  double dark, bright, background, slopeX, slopeY;
  std::vector<Drawn> tags;
  double value(double x, double y) const {
    double light = 1 + slopeX * (x / w - 0.5) + slopeY * (y / h - 0.5);
    for (const Drawn& t : tags) {
      const Vector3d q = t.inverse * Vector3d(x, y, 1);
      // behind or at the line at infinity
      const double s = q[2] * (t.inverse.row(2) * Vector3d(t.corner[0][0], t.corner[0][1], 1))(0);
      if (s <= 0) continue;
      const double u = q[0] / q[2], v = q[1] / q[2];
      const int n = dimension + 2 * border;
      const double margin = 1 + 2 * t.quiet / n;
      if (std::fabs(u) > margin || std::fabs(v) > margin) continue;
      if (std::fabs(u) > 1 || std::fabs(v) > 1) return bright * light;
      const int col = std::floor((u + 1) / 2 * n), row = std::floor((v + 1) / 2 * n);
      const int a = col - border, b = row - border;
      if (a < 0 || b < 0 || a >= dimension || b >= dimension) return dark * light;
      return (white(t.code, dimension, a, b) ? bright : dark) * light;
    }
    return background * light;
  }
  cv::Mat draw(int oversampling = 3) const {
    cv::Mat m(h, w, CV_8UC1);
    for (int y = 0; y < h; y++)
      for (int x = 0; x < w; x++) {
        double sum = 0;
        for (int i = 0; i < oversampling; i++)
          for (int j = 0; j < oversampling; j++)
            sum += value(x - 0.5 + (i + 0.5) / oversampling, y - 0.5 + (j + 0.5) / oversampling);
        m.at<uchar>(y, x) = std::max(0.0, std::min(255.0, std::floor(sum / (oversampling * oversampling) + 0.5)));
      }
    return m;
  }
};
// the plane of a tag of half width 1, tilted, seen by a camera whose optical axis meets its centre at (cx, cy)
Matrix3d plane(pbt::Case& c, double cx, double cy, double halfSize, double maxTilt, double roll) {
  const double tilt = c.real(0, maxTilt), dir = c.real(-M_PI, M_PI);
  const double distance = c.real(6, 30);  // in half widths
  const Matrix3d R = num::expSO3(tilt * Vector3d(std::cos(dir), std::sin(dir), 0)) * num::expSO3(roll * Vector3d(0, 0, 1));
  // y of the tag upwards, y of the image downwards
  Matrix3d P;
  P.col(0) = R.col(0); P.col(1) = R.col(1); P.col(2) = Vector3d(0, 0, distance);
  Matrix3d flipY = Vector3d(1, -1, 1).asDiagonal();
  const double f = halfSize * distance;
  Matrix3d K;
  K << f, 0, cx, 0, f, cy, 0, 0, 1;
  Matrix3d H = K * flipY * P;
  return H / H(2, 2);
}
void photometry(pbt::Case& c, Scene& s) {
  s.dark = c.real(0, 60); s.bright = c.real(s.dark + 110, 225);
  s.background = c.oneIn(2) ? s.bright : c.real((s.dark + s.bright) / 2, s.bright);
  s.slopeX = c.real(-0.15, 0.15); s.slopeY = c.real(-0.15, 0.15);
}
std::string show(const TagDetection& t) {
  std::ostringstream o;
  o << "id " << t.id << " hamming " << t.hammingDistance << " rotation " << t.rotation;
  for (int i = 0; i < 4; i++) o << " (" << t.p[i].first << "," << t.p[i].second << ")";
  return o.str();
}
double apart(const Point& p, const Vector2d& q) { return (Vector2d(p.first, p.second) - q).norm(); }

void checkGeometry(pbt::Case& c, const TagDetection& t, const Drawn& d, double tolerance) {
  const double s[4][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}};
  for (int i = 0; i < 4; i++) {
    c.check(apart(t.p[i], d.corner[i]) < tolerance,
            "corner " + std::to_string(i) + " is at its place in the image; drawn at " + str(d.corner[i].transpose()) + ", found " + show(t));
    const Point q = t.interpolate(s[i][0], s[i][1]);
    c.check(apart(q, Vector2d(t.p[i].first, t.p[i].second)) < 0.05, "the homography maps corner " + std::to_string(i) + " onto itself");
  }
  const Vector2d centre = (d.corner[0] + d.corner[1] + d.corner[2] + d.corner[3]) / 4;
  c.check(apart(t.cxy, centre) < tolerance + 0.1, "the centre lies between the corners");
  const Point o = t.interpolate(0, 0);
  c.check(apart(o, d.at(0, 0)) < tolerance + 0.3, "the homography maps the centre of the tag to its image");
  const Vector2d e = d.corner[1] - d.corner[0];
  const double want = std::atan2(e[1], e[0]);
  c.check(std::fabs(std::remainder(t.getXYOrientation() - want, 2 * M_PI)) < 0.15, "the orientation is that of the lower edge of the tag");
  double perimeter = 0;
  for (int i = 0; i < 4; i++) perimeter += (d.corner[i] - d.corner[(i + 1) % 4]).norm();
  c.check(t.observedPerimeter > 0.5 * perimeter && t.observedPerimeter < 1.2 * perimeter, "the observed perimeter is that of the tag");
}
}  // namespace

// ---- decoding ---------------------------------------------------------------
PBT_CLAIM(decoding, 4000) {
  const Family& f = families[c.integer(0, 6)];
  const AprilTags::TagCodes& k = *f.codes;
  const int d = (int)std::lround(std::sqrt((double)k.bits));
  TagFamily family(k, c.integer(1, 2));
  c.eq(family.dimension, d, "modules per side");
  c.eq(family.bits, k.bits, "bits");
  c.eq(family.minimumHammingDistance, k.minHammingDistance, "minimum distance");
  c.eq(family.errorRecoveryBits, 1, "one bit is corrected unless asked otherwise");
  const int correctable = (k.minHammingDistance - 1) / 2;
  if (c.boolean()) {
    const int b = c.integer(0, correctable + 2);
    family.setErrorRecoveryBits(b);
    c.eq(family.errorRecoveryBits, b, "bits to correct");
  } else if (c.boolean()) {
    const int step = c.integer(0, 8);
    family.setErrorRecoveryFraction(step / 8.0f);
    c.eq(family.errorRecoveryBits, correctable * step / 8, "fraction of the bits that can be corrected");
  }
  const int id = c.integer(0, (int)k.codes.size() - 1), turns = c.integer(0, 3);
  const int flips = c.oneIn(4) ? c.integer(0, k.bits) : c.integer(0, correctable + 1);
  const u64 seen = turned(k.codes[id], d, turns) ^ flip(c, k.bits, flips);
  c << f.name << " id " << id << " turned " << turns << ", " << flips << " bits flipped, " << family.errorRecoveryBits << " corrected";
  c.label(f.name);
  if (flips > 0 || turns > 0) c.nontrivial();
  TagDetection t;
  family.decode(t, seen);
  // the nearest code over all identities and rotations
  int best = 1000;
  std::set<std::pair<int, int>> nearest;
  for (int i = 0; i < (int)k.codes.size(); i++)
    for (int r = 0; r < 4; r++) {
      const int h = ones(turned(k.codes[i], d, r) ^ seen);
      if (h < best) { best = h; nearest.clear(); }
      if (h == best) nearest.insert({i, r});
    }
  c.eq(t.hammingDistance, best, "distance to the nearest code");
  bool listed = false;
  for (auto& n : nearest) listed |= n.first == t.id;
  c.check(listed, "the decoded identity is one with the smallest distance");
  c.eq((u64)t.obsCode, seen, "the code seen");
  c.eq((u64)t.code, k.codes[t.id], "the code decoded");
  c.eq((int)t.good, (int)(best <= family.errorRecoveryBits), "accepted when no more bits differ than may be corrected");
  // turning what was seen by the reported rotation brings it within the reported distance of the code
  const int back = ones(turned(seen, d, t.rotation) ^ k.codes[t.id]), forth = ones(turned(seen, d, (4 - t.rotation) % 4) ^ k.codes[t.id]);
  c.check(std::min(back, forth) == best, "the rotation reported brings the observation onto the code");
  c.eq(forth, best, "the rotation is counted the way the tag is turned");
  if (flips <= correctable) {
    c.eq(t.id, id, "identity recovered");
    if (std::strstr(f.name, "other")) c.check(t.hammingDistance <= flips, "no more than the flipped bits");
    else c.eq(t.hammingDistance, flips, "number of flipped bits");
  }
}
PBT_CLAIM(codes, 2000) {
  // any two tags of a family differ in at least the advertised number of bits, however they are turned
  const Family& f = families[c.integer(0, 6)];
  const AprilTags::TagCodes& k = *f.codes;
  const int d = (int)std::lround(std::sqrt((double)k.bits));
  const int i = c.integer(0, (int)k.codes.size() - 1);
  c << f.name << " " << i;
  c.label(f.name);
  c.nontrivial();
  c.check(k.codes[i] >> k.bits == 0, "a code has no more bits than the family");
  for (int r = 0; r < 4; r++) {
    const u64 t = turned(k.codes[i], d, r);
    for (int j = 0; j < (int)k.codes.size(); j++) {
      if (j == i) continue;
      c.check(ones(t ^ k.codes[j]) >= k.minHammingDistance,
              "tags " + std::to_string(i) + " (turned " + std::to_string(r) + ") and " + std::to_string(j) + " differ in enough bits");
    }
    // (the older code sets contain tags that look the same upside down)
    if (r > 0 && !std::strstr(f.name, "other")) c.check(ones(t ^ k.codes[i]) >= k.minHammingDistance, "a turned tag differs from itself in enough bits");
  }
}
PBT_CLAIM(bits, 20000) {
  const u64 a = c.bits(64), b = c.bits(64);
  c.nontrivial();
  c.eq(TagFamily::popCount(a), ones(a), "bits set");
  c.eq((int)TagFamily::popCountReal(a), ones(a), "bits set, counted");
  c.eq(TagFamily::hammingDistance(a, b), ones(a ^ b), "Hamming distance");
  const int d = c.integer(1, 8);
  const u64 m = d == 8 ? ~0ull : (1ull << (d * d)) - 1, w = a & m;
  c << "d " << d << " " << w;
  const u64 r = TagFamily::rotate90(w, d);
  // the picture in the header: 876/543/210 becomes 258/147/036
  u64 want = 0;
  for (int row = 0; row < d; row++)
    for (int col = 0; col < d; col++) {
      // position from the top left, most significant bit first
      const int before = d * d - 1 - (row * d + col);
      const int from = (d - 1 - col) * d + row;
      // the bit now at (row, col) is number `number` in the picture
      const int number = (col)*d + (d - 1 - row);
      (void)from;
      if (w >> number & 1) want |= 1ull << before;
    }
  u64 picture = 0;
  if (d == 3) {
    const int p[9] = {2, 5, 8, 1, 4, 7, 0, 3, 6};
    for (int i = 0; i < 9; i++)
      if (w >> p[i] & 1) picture |= 1ull << (8 - i);
    c.eq(r, picture, "rotation as in the picture");
  }
  c.eq(r, want, "rotated by a quarter");
  c.eq(TagFamily::rotate90(TagFamily::rotate90(TagFamily::rotate90(r, d), d), d), w, "four quarters are none");
}

// ---- detection --------------------------------------------------------------
PBT_CLAIM(detection, 500) {
  const Family& f = families[c.integer(2, 5)];
  const AprilTags::TagCodes& k = *f.codes;
  Scene s;
  s.border = c.integer(1, 2);
  s.dimension = (int)std::lround(std::sqrt((double)k.bits));
  s.w = c.integer(200, 420); s.h = c.integer(200, 420);
  photometry(c, s);
  const int modules = s.dimension + 2 * s.border;
  const int count = c.integer(0, 3);
  std::ostringstream o;
  o << f.name << " border " << s.border << " " << s.w << "x" << s.h << " dark " << s.dark << " bright " << s.bright << " background " << s.background;
  for (int i = 0; i < count; i++) {
    Drawn t;
    t.id = c.integer(0, (int)k.codes.size() - 1);
    t.code = k.codes[t.id];
    t.quiet = 2;
    const double half = modules * c.real(2.5, 6), roll = c.real(-M_PI, M_PI);
    const double reach = half * 1.5 * 1.6;
    if (2 * reach > s.w - 8 || 2 * reach > s.h - 8) continue;
    const double x = c.real(reach + 4, s.w - reach - 4), y = c.real(reach + 4, s.h - reach - 4);
    t.H = plane(c, x, y, half, 0.5, roll);
    t.finish();
    bool free = true;
    for (const Drawn& u : s.tags) free &= (t.at(0, 0) - u.at(0, 0)).norm() > 2.6 * std::max((t.corner[0] - t.corner[2]).norm(), (u.corner[0] - u.corner[2]).norm()) / 2 * 1.5;
    if (!free) continue;
    s.tags.push_back(t);
    o << "; tag " << t.id << " at " << str(t.corner[0].transpose()) << " " << str(t.corner[1].transpose()) << " " << str(t.corner[2].transpose()) << " " << str(t.corner[3].transpose());
  }
  c << o.str();
  c.label(std::to_string(s.tags.size()) + " tags");
  if (!s.tags.empty()) c.nontrivial();
  const cv::Mat image = s.draw();
  TagDetector detector(k, s.border);
  const std::vector<TagDetection> found = detector.extractTags(image);
  c.eq(found.size(), s.tags.size(), "number of tags found");
  std::vector<bool> used(found.size(), false);
  for (const Drawn& t : s.tags) {
    int at = -1;
    for (size_t i = 0; i < found.size(); i++)
      if (found[i].id == t.id && !used[i] && apart(found[i].cxy, t.at(0, 0)) < 0.5 * (t.corner[0] - t.corner[1]).norm()) at = i;
    c.check(at >= 0, "tag " + std::to_string(t.id) + " is found where it was drawn" + (found.empty() ? "" : "; first found " + show(found[0])));
    used[at] = true;
    const TagDetection& q = found[at];
    c.eq(q.hammingDistance, 0, "no bit was misread");
    c.eq((int)q.good, 1, "a good detection");
    c.eq((u64)q.code, t.code, "its code");
    checkGeometry(c, q, t, 1.0);
  }
}
PBT_CLAIM(corrected, 400) {
  // flipped modules: one is tolerated by the detector, more are not
  const Family& f = families[c.integer(3, 5)];
  const AprilTags::TagCodes& k = *f.codes;
  Scene s;
  s.border = c.integer(1, 2);
  s.dimension = (int)std::lround(std::sqrt((double)k.bits));
  s.w = s.h = 220;
  photometry(c, s);
  Drawn t;
  t.id = c.integer(0, (int)k.codes.size() - 1);
  t.quiet = 2;
  const int flips = c.integer(0, k.minHammingDistance - 2);
  t.code = k.codes[t.id] ^ flip(c, k.bits, flips);
  t.H = plane(c, c.real(105, 115), c.real(105, 115), (s.dimension + 2 * s.border) * c.real(3, 5), 0.4, c.real(-M_PI, M_PI));
  t.finish();
  s.tags.push_back(t);
  c << f.name << " id " << t.id << " with " << flips << " modules flipped, border " << s.border;
  c.label(flips == 0 ? "intact" : flips == 1 ? "one module" : "several modules");
  if (flips > 0) c.nontrivial();
  TagDetector detector(k, s.border);
  const std::vector<TagDetection> found = detector.extractTags(s.draw());
  if (flips <= 1) {
    c.eq(found.size(), (size_t)1, "a tag with at most one wrong module is found");
    c.eq(found[0].id, t.id, "identity");
    c.eq(found[0].hammingDistance, flips, "wrong modules");
    c.eq((u64)found[0].obsCode == t.code || (u64)found[0].obsCode == turned(t.code, s.dimension, 1) ||
             (u64)found[0].obsCode == turned(t.code, s.dimension, 2) || (u64)found[0].obsCode == turned(t.code, s.dimension, 3),
         true, "the code read is the one drawn, possibly turned");
    checkGeometry(c, found[0], t, 1.0);
  } else {
    c.check(found.empty(), "a tag with more wrong modules than corrected is not reported" + (found.empty() ? std::string() : "; found " + show(found[0])));
  }
}
PBT_CLAIM(broken, 400) {
  // a border with blemishes: its lines break into pieces that form several quads, still it is one tag
  const Family& f = families[c.integer(3, 5)];
  const AprilTags::TagCodes& k = *f.codes;
  Scene s;
  s.border = c.integer(1, 2);
  s.dimension = (int)std::lround(std::sqrt((double)k.bits));
  s.w = s.h = 260;
  photometry(c, s);
  Drawn t;
  t.id = c.integer(0, (int)k.codes.size() - 1);
  t.quiet = 2;
  t.code = k.codes[t.id];
  t.H = plane(c, c.real(125, 135), c.real(125, 135), (s.dimension + 2 * s.border) * c.real(5, 8), 0.4, c.real(-M_PI, M_PI));
  t.finish();
  s.tags.push_back(t);
  cv::Mat image = s.draw();
  const int n = c.integer(1, 6);
  for (int i = 0; i < n; i++) {
    const int side = c.integer(0, 3);
    const double u = c.real(0.1, 0.9);
    const Vector2d a = t.corner[side], b = t.corner[(side + 1) % 4];
    const Vector2d x = a + u * (b - a), along = (b - a).normalized(), across(-along.y(), along.x());
    const double r = c.real(1., 5.);
    // a stroke over the edge, or a spot beside it
    const int grey = s.dark + (int)((s.bright - s.dark) * c.real(0., 1.));
    if (c.boolean()) {
      const Vector2d p = x - across * r, q = x + across * r;
      cv::line(image, cv::Point(std::lround(p.x()), std::lround(p.y())), cv::Point(std::lround(q.x()), std::lround(q.y())), cv::Scalar(grey), c.integer(1, 3));
    } else {
      const Vector2d p = x + across * c.real(-2., 2.);
      cv::circle(image, cv::Point(std::lround(p.x()), std::lround(p.y())), (int)std::lround(r * .6), cv::Scalar(grey), -1);
    }
  }
  c << f.name << " id " << t.id << " with " << n << " blemishes, border " << s.border;
  TagDetector detector(k, s.border);
  const std::vector<TagDetection> found = detector.extractTags(image);
  int times = 0;
  for (const TagDetection& q : found) times += q.id == t.id && apart(q.cxy, t.at(0, 0)) < 0.5 * (t.corner[0] - t.corner[1]).norm();
  c.check(times <= 1, "one tag found " + std::to_string(times) + " times");
  c.label(times ? "found" : "lost");
  if (times) c.nontrivial();
}
PBT_CLAIM(nothing, 200) {
  // no tags: flat images, gradients, rectangles and images smaller than a tag
  TagDetector detector(AprilTags::tagCodes36h11, c.integer(1, 2));
  const int w = c.oneIn(4) ? c.integer(1, 12) : c.integer(20, 300), h = c.oneIn(4) ? c.integer(1, 12) : c.integer(20, 300);
  cv::Mat m(h, w, CV_8UC1, cv::Scalar(c.integer(0, 255)));
  const int kind = c.integer(0, 2);
  c << w << "x" << h << " kind " << kind;
  if (kind >= 1) {
    const int n = c.integer(1, 6);
    for (int i = 0; i < n; i++) {
      const int x = c.integer(-20, w), y = c.integer(-20, h), a = c.integer(1, 200), b = c.integer(1, 200);
      cv::rectangle(m, cv::Rect(x, y, a, b), cv::Scalar(c.integer(0, 255)), kind == 1 || c.boolean() ? -1 : c.integer(1, 6));
    }
    c.nontrivial();
  }
  c.label(std::min(w, h) < 13 ? "tiny" : kind == 0 ? "flat" : "rectangles");
  const std::vector<TagDetection> found = detector.extractTags(m);
  c.check(found.empty(), "no tag is reported" + (found.empty() ? std::string() : "; found " + show(found[0])));
}
PBT_CLAIM(surroundings, 250) {
  // what is reported does not depend on how the image is stored, and follows the picture when it is moved or turned
  const AprilTags::TagCodes& k = AprilTags::tagCodes36h11;
  Scene s;
  s.border = c.integer(1, 2);
  s.dimension = 6;
  s.w = c.integer(200, 300); s.h = c.integer(200, 300);
  photometry(c, s);
  Drawn t;
  t.id = c.integer(0, (int)k.codes.size() - 1);
  t.code = k.codes[t.id];
  t.quiet = 2;
  t.H = plane(c, c.real(95, s.w - 95), c.real(95, s.h - 95), (6 + 2 * s.border) * c.real(2.5, 4.5), 0.5, c.real(-M_PI, M_PI));
  t.finish();
  s.tags.push_back(t);
  const cv::Mat m = s.draw(2);
  TagDetector detector(k, s.border);
  const std::vector<TagDetection> found = detector.extractTags(m);
  c.eq(found.size(), (size_t)1, "found");
  c.nontrivial();
  const int how = c.integer(0, 2);
  c << "tag " << t.id << " in " << s.w << "x" << s.h << ", how " << how;
  std::vector<TagDetection> other;
  Vector2d shift(0, 0);
  if (how == 0) {
    c.label("region of a larger image");
    const int l = c.integer(0, 40), u = c.integer(0, 40), r = c.integer(1, 40), d = c.integer(0, 40);
    cv::Mat large(s.h + u + d, s.w + l + r, CV_8UC1, cv::Scalar(c.integer(0, 255)));
    cv::Mat region = large(cv::Rect(l, u, s.w, s.h));
    m.copyTo(region);
    other = detector.extractTags(region);
  } else if (how == 1) {
    c.label("moved");
    const int l = c.integer(0, 40), u = c.integer(0, 40);
    cv::Mat large(s.h + u, s.w + l, CV_8UC1, cv::Scalar(s.background));
    cv::Mat region = large(cv::Rect(l, u, s.w, s.h));
    m.copyTo(region);
    other = detector.extractTags(large);
    shift = Vector2d(l, u);
  } else {
    c.label("turned by half");
    cv::Mat half;
    cv::flip(m, half, -1);
    other = detector.extractTags(half);
  }
  c.eq(other.size(), (size_t)1, "found again");
  c.eq(other[0].id, t.id, "same identity");
  for (int i = 0; i < 4; i++) {
    Vector2d want(found[0].p[i].first, found[0].p[i].second);
    if (how == 2) want = Vector2d(s.w - 1, s.h - 1) - want;
    else want += shift;
    const double gap = apart(other[0].p[i], want);
    c.check(gap < (how == 0 ? 1e-6 : how == 1 ? 0.02 : 0.35), "corner " + std::to_string(i) + " is where it was: " + std::to_string(gap) + " pixels off");
  }
}
PBT_CLAIM(pose, 3000) {
  // corners of a tag at a known pose give back the pose
  TagDetection t;
  const double size = c.logReal(0.02, 2), fx = c.real(200, 1200), fy = fx * c.real(0.8, 1.25), px = c.real(100, 700), py = c.real(100, 500);
  const double tilt = c.real(0.3, 1.0), dir = c.real(-M_PI, M_PI), roll = c.real(-M_PI, M_PI);
  const double z = size * c.real(1.5, 8);
  // seen from the front: x right, y up, z towards the camera in the frame of the tag
  Matrix3d front = Vector3d(1, -1, -1).asDiagonal();
  const Matrix3d R = num::expSO3(tilt * Vector3d(std::cos(dir), std::sin(dir), 0)) * front * num::expSO3(roll * Vector3d(0, 0, 1));
  const Vector3d p(z * c.real(-0.4, 0.4), z * c.real(-0.4, 0.4), z);
  const double q[4][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}};
  // the tag has to be seen from its front, and its ambiguous mirror pose must be told apart by the perspective
  if ((R.transpose() * p)[2] > -0.3 * p.norm()) return c.discard();
  Vector2d at[4];
  double strength = 1e9;
  for (int i = 0; i < 4; i++) {
    const Vector3d x = R * Vector3d(q[i][0] * size / 2, q[i][1] * size / 2, 0) + p;
    if (x[2] < 0.2 * z) return c.discard();
    at[i] = Vector2d(fx * x[0] / x[2] + px, fy * x[1] / x[2] + py);
    t.p[i] = Point(at[i][0], at[i][1]);
  }
  strength = ((at[0] + at[2]) - (at[1] + at[3])).norm() / (at[0] - at[2]).norm();
  c << "size " << size << " f " << fx << " " << fy << " at " << str(p.transpose()) << " R " << str(R) << " strength " << strength;
  c.nontrivial();
  const Matrix4d T = t.getRelativeTransform(size, fx, fy, px, py);
  c.near((T.topLeftCorner<3, 3>() * T.topLeftCorner<3, 3>().transpose() - Matrix3d::Identity()).norm(), 0.0, 1e-9, 0, "a rotation");
  c.near(T.topLeftCorner<3, 3>().determinant(), 1.0, 1e-9, 0, "a proper rotation");
  c.check(T.row(3) == RowVector4d(0, 0, 0, 1), "last row");
  if (strength > 0.05) {
    c.label("strong perspective");
    for (int i = 0; i < 4; i++) {
      const Vector4d x = T * Vector4d(q[i][0] * size / 2, q[i][1] * size / 2, 0, 1);
      c.check((Vector2d(fx * x[0] / x[2] + px, fy * x[1] / x[2] + py) - at[i]).norm() < 0.05, "the pose maps corner " + std::to_string(i) + " onto its image");
    }
    c.nearMat(T.topLeftCorner<3, 3>(), R, 5e-3, 0, "orientation of the tag");
    c.nearMat(T.topRightCorner<3, 1>(), p, 5e-3 * z, 0, "position of the tag");
  } else {
    c.label("weak perspective");
  }
  Vector3d trans;
  Matrix3d rot;
  t.getRelativeTranslationRotation(size, fx, fy, px, py, trans, rot);
  c.nearMat(trans, Vector3d(T(2, 3), -T(0, 3), -T(1, 3)), 1e-12, 1e-12, "position with x ahead, y to the left and z up");
  c.nearMat(rot, T.topLeftCorner<3, 3>(), 1e-12, 0, "orientation");
}
PBT_CLAIM(overlap, 10000) {
  auto any = [&](double side, double x, double y) {
    TagDetection t;
    const double a = c.real(-M_PI, M_PI);
    Vector2d sum(0, 0);
    for (int i = 0; i < 4; i++) {
      const double b = a + i * M_PI / 2, r = side / std::sqrt(2.0) * c.real(0.8, 1.2);
      t.p[i] = Point(x + r * std::cos(b), y + r * std::sin(b));
      sum += Vector2d(t.p[i].first, t.p[i].second) / 4;
    }
    t.cxy = Point(sum[0], sum[1]);
    return t;
  };
  const double side = c.real(10, 100);
  TagDetection a = any(side, 100, 100), b = any(side * c.real(0.5, 2), 100 + c.real(-150, 150), 100 + c.real(-150, 150));
  double edges = 0;
  for (int i = 0; i < 4; i++)
    for (const TagDetection* t : {&a, &b}) edges += std::hypot(t->p[i].first - t->p[(i + 1) % 4].first, t->p[i].second - t->p[(i + 1) % 4].second);
  const double radius = edges / 16, gap = std::hypot(a.cxy.first - b.cxy.first, a.cxy.second - b.cxy.second);
  c << "radius " << radius << ", centres " << gap << " apart";
  c.nontrivial();
  c.eq(a.overlapsTooMuch(b), b.overlapsTooMuch(a), "symmetric");
  c.check(a.overlapsTooMuch(a), "a tag overlaps itself");
  if (std::fabs(gap - radius) > 1e-3 * radius) c.eq(a.overlapsTooMuch(b), gap < radius, "overlapping when the centres are closer than the mean half edge");
  TagDetection fresh, numbered(7);
  c.check(!fresh.good && fresh.id == 0 && numbered.id == 7 && fresh.homography.isZero() && !numbered.good, "new detections are empty");
  c.check(TagDetection::sortByIdCompare(fresh, numbered) && !TagDetection::sortByIdCompare(numbered, fresh) && !TagDetection::sortByIdCompare(fresh, fresh), "ordered by identity");
}
PBT_CLAIM(homography, 4000) {
  const double cx = c.real(0, 600), cy = c.real(0, 400);
  // four corners around a centre, in order, forming a convex quadrilateral
  std::vector<Point> p(4), s(4);
  const double size = c.real(15, 300), x = c.real(0, 600), y = c.real(0, 400), turn = c.real(-M_PI, M_PI);
  const double q[4][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}};
  for (int i = 0; i < 4; i++) {
    const double a = turn + std::atan2(q[i][1], q[i][0]), r = size * c.real(0.85, 1.15);
    p[i] = Point(x + r * std::cos(a), y + r * std::sin(a));
    s[i] = Point(q[i][0], q[i][1]);
  }
  c << "quad about " << x << " " << y << " of radius " << size << ", centre " << cx << " " << cy;
  c.nontrivial();
  Homography33 h(Point(cx, cy));
  h.setCorrespondences(s, p);
  for (int i = 0; i < 4; i++) c.check(apart(h.project(s[i].first, s[i].second), Vector2d(p[i].first, p[i].second)) < 0.02, "corners map onto corners");
  c.check(h.getCXY() == Point(cx, cy), "centre");
  const Matrix3d H = h.getH();
  const double u = c.real(-1, 1), v = c.real(-1, 1);
  const Vector2d want = (H * Vector3d(u, v, 1)).hnormalized() + Vector2d(cx, cy);
  c.check(apart(h.project(u, v), want) < 0.01, "projection is the homography about the centre");
  // lines stay lines: the centre is on both diagonals
  const Point o = h.project(0, 0);
  const Vector2d d = Vector2d(p[2].first - p[0].first, p[2].second - p[0].second), e = Vector2d(o.first - p[0].first, o.second - p[0].second);
  c.check(std::fabs(d[0] * e[1] - d[1] * e[0]) / d.norm() < 0.05, "the centre is on the diagonal");
  // new corners replace the old ones
  std::vector<Point> moved = p;
  for (Point& a : moved) a.first += 30;
  h.setCorrespondences(s, moved);
  c.check(apart(h.project(u, v), want + Vector2d(30, 0)) < 0.03, "new corners are used");
  // bilinear interpolation in a quadrilateral
  AprilTags::Quad quad(p, Point(cx, cy));
  const double a = (u + 1) / 2, b = (v + 1) / 2;
  auto P = [&](int i) { return Vector2d(p[i].first, p[i].second); };
  const Vector2d bilinear = (1 - b) * ((1 - a) * P(0) + a * P(1)) + b * ((1 - a) * P(3) + a * P(2));
  c.check(apart(quad.interpolate(u, v), bilinear) < 2e-3, "interpolated between the corners");
  c.check(apart(quad.interpolate01(a, b), bilinear) < 2e-3, "interpolated between the corners, from 0 to 1");
  for (int i = 0; i < 4; i++) c.check(apart(quad.homography.project(q[i][0], q[i][1]), P(i)) < 0.02, "homography of the quadrilateral");
}
PBT_CLAIM(graymodel, 5000) {
  AprilTags::GrayModel g;
  const int n = c.integer(1, 30);
  MatrixXd A(n, 4);
  VectorXd y(n);
  const double k[4] = {c.real(-1, 1), c.real(-1, 1), c.real(-1, 1), c.real(-1, 1)};
  const bool exact = c.boolean();
  c.eq(g.getNumObservations(), 0, "empty");
  for (int i = 0; i < n; i++) {
    const double u = c.integer(-16, 16) / 16.0, v = c.integer(-16, 16) / 16.0;
    A.row(i) << u, v, u * v, 1;
    y[i] = (float)(exact ? k[0] * u + k[1] * v + k[2] * u * v + k[3] : c.real(0, 1));
    g.addObservation(u, v, y[i]);
    if (c.oneIn(5)) g.interpolate(0.1, 0.2);
  }
  c.eq(g.getNumObservations(), n, "observations counted");
  c << n << " observations" << (exact ? ", exact" : "");
  const Matrix4d N = A.transpose() * A;
  const Vector4d ev = SelfAdjointEigenSolver<Matrix4d>(N).eigenvalues();
  const double u = c.real(-1, 1), v = c.real(-1, 1);
  if (n < 6) {
    c.label("few");
    c.near(g.interpolate(u, v), y.mean(), 1e-5, 1e-5, "the mean of few observations");
  } else if (ev[0] > 1e-3 * ev[3]) {
    c.label("fitted");
    c.nontrivial();
    const Vector4d fit = N.ldlt().solve(A.transpose() * y);
    c.near(g.interpolate(u, v), fit.dot(Vector4d(u, v, u * v, 1)), 2e-4, 2e-4, "the least squares fit");
    if (exact) c.near(g.interpolate(u, v), k[0] * u + k[1] * v + k[2] * u * v + k[3], 2e-4, 2e-4, "the model observed");
  } else {
    c.label("degenerate");
  }
}
PBT_CLAIM(lines, 10000) {
  using AprilTags::GLine2D;
  const Vector2d p(c.real(-100, 100), c.real(-100, 100)), d = Vector2d(1, 0) * 1.0, q(c.real(-100, 100), c.real(-100, 100));
  const double a = c.real(-M_PI, M_PI), b = a + c.sign() * c.real(0.1, M_PI - 0.1);
  const double la = c.logReal(0.1, 100), lb = c.logReal(0.1, 100);
  (void)d;
  const Vector2d u(std::cos(a), std::sin(a)), v(std::cos(b), std::sin(b));
  c << "through " << str(p.transpose()) << " at " << a << " and " << str(q.transpose()) << " at " << b;
  c.nontrivial();
  auto pt = [](const Vector2d& x) { return Point(x[0], x[1]); };
  GLine2D first(la * u[0], la * u[1], pt(p)), second(pt(q), pt(q + lb * v));
  Matrix2d M;
  M << u, -v;
  const Vector2d x = p + u * M.partialPivLu().solve(q - p)[0];
  const double tol = 1e-2 / std::fabs(std::sin(b - a)) * (1 + 1e-2 * x.norm());
  c.check(apart(first.intersectionWith(second), x) < tol && apart(second.intersectionWith(first), x) < tol, "the intersection is on both lines");
  GLine2D same(u[0], u[1], pt(q));
  const Point none = GLine2D(2, 0, pt(p)).intersectionWith(GLine2D(-3, 0, pt(q)));
  c.check(none == Point(-1, 0), "parallel lines do not meet");
  // line coordinate
  const double s = c.real(-50, 50);
  c.near(first.getLineCoordinate(pt(p + s * u)) - first.getLineCoordinate(pt(p)), s, 1e-3, 1e-4, "distance along the line");
  const Point back = first.getPointOfCoordinate(first.getLineCoordinate(pt(p + s * u)));
  c.check(apart(back, p + s * u) < 1e-3, "point at a coordinate along the line");
  // a point off the line is projected
  const double off = c.real(-5, 5);
  c.check(apart(first.getPointOfCoordinate(first.getLineCoordinate(pt(p + s * u + off * Vector2d(-u[1], u[0])))), p + s * u) < 2e-3, "projected onto the line");
  if (std::fabs(u[0]) > 0.1) {
    GLine2D sloped(u[1] / u[0], p[1] - p[0] * u[1] / u[0]);
    const Point m = sloped.getPointOfCoordinate(sloped.getLineCoordinate(pt(p + s * u)));
    c.check(apart(m, p + s * u) < 5e-2, "slope and intercept");
  }
  // fit to weighted points
  const int n = c.integer(2, 40);
  std::vector<AprilTags::XYWeight> w;
  double lo = 1e9, hi = -1e9;
  const Vector2d base(std::fabs(p[0]), std::fabs(p[1]));
  for (int i = 0; i < n; i++) {
    const double t = i == 0 ? 0 : i == 1 ? 20 : c.real(-5, 30);
    lo = std::min(lo, t); hi = std::max(hi, t);
    w.push_back(AprilTags::XYWeight(base[0] + t * u[0], base[1] + t * u[1], c.real(0.2, 1)));
  }
  const AprilTags::GLineSegment2D seg = AprilTags::GLineSegment2D::lsqFitXYW(w);
  const Vector2d e0 = base + lo * u, e1 = base + hi * u;
  const bool order = apart(seg.getP0(), e0) < apart(seg.getP0(), e1);
  c.check(apart(seg.getP0(), order ? e0 : e1) < 0.1 && apart(seg.getP1(), order ? e1 : e0) < 0.1, "a segment fitted to points on a line ends at the outermost points");
  // fit to scattered points against the principal axis
  for (auto& k : w) { const double r = c.real(-1, 1); k.x -= r * u[1]; k.y += r * u[0]; }
  double W = 0;
  Vector2d mean(0, 0);
  for (auto& k : w) { W += k.weight; mean += k.weight * Vector2d(k.x, k.y); }
  mean /= W;
  Matrix2d cov = Matrix2d::Zero();
  for (auto& k : w) cov += k.weight / W * (Vector2d(k.x, k.y) - mean) * (Vector2d(k.x, k.y) - mean).transpose();
  const SelfAdjointEigenSolver<Matrix2d> es(cov);
  const GLine2D fit = GLine2D::lsqFitXYW(w);
  if (es.eigenvalues()[1] > 3 * es.eigenvalues()[0] && es.eigenvalues()[1] > 1) {
    const Vector2d axis = es.eigenvectors().col(1), got = Vector2d(fit.getDx(), fit.getDy()).normalized();
    c.check(std::fabs(axis[0] * got[1] - axis[1] * got[0]) < 2e-2, "the fitted line follows the principal axis of the weighted points");
    c.check((Vector2d(fit.getFirst(), fit.getSecond()) - mean).norm() < 1e-2, "and passes through their weighted mean");
  }
}
PBT_CLAIM(angles, 20000) {
  using AprilTags::MathUtil;
  const double v = c.oneIn(4) ? c.real(-4, 4) : c.real(-60, 60), ref = c.real(-60, 60);
  c << v << " " << ref;
  c.nontrivial();
  const double r = MathUtil::mod2pi(v);
  c.check(std::fabs(r) <= M_PI + 1e-4, "within half a turn");
  c.near(std::remainder(r - v, 2 * M_PI), 0.0, 1e-4, 0, "the same angle");
  const double near = MathUtil::mod2pi(ref, v);
  c.check(std::fabs(near - ref) <= M_PI + 1e-4, "within half a turn of the reference");
  c.near(std::remainder(near - v, 2 * M_PI), 0.0, 2e-4, 0, "the same angle about the reference");
  c.near(MathUtil::square(v), v * v, 1e-4, 1e-5, "square");
  const double a = c.real(-9, 9), b = c.real(-9, 9);
  if (std::hypot(a, b) > 0.1) c.near(std::remainder(MathUtil::fast_atan2(a, b) - std::atan2(a, b), 2 * M_PI), 0.0, 0.08, 0, "approximate arc tangent");
  c.near(MathUtil::distance2D(Point(a, b), Point(v, ref)), std::hypot(a - v, b - ref), 1e-4, 1e-5, "distance");
}
PBT_CLAIM(unionfind, 3000) {
  const int n = c.integer(1, 40), ops = c.integer(0, 80);
  AprilTags::UnionFindSimple uf(n);
  std::vector<int> set(n);
  for (int i = 0; i < n; i++) set[i] = i;
  c << n << " nodes, " << ops << " operations";
  if (n > 2 && ops > 2) c.nontrivial();
  for (int k = 0; k < ops; k++) {
    const int a = c.integer(0, n - 1), b = c.integer(0, n - 1);
    const int sa = (int)std::count(set.begin(), set.end(), set[a]), sb = (int)std::count(set.begin(), set.end(), set[b]);
    if (c.boolean()) {
      const int from = set[b], to = set[a];
      const int ra = uf.getRepresentative(a), rb = uf.getRepresentative(b);
      const int root = uf.connectNodes(a, b);
      for (int& s : set) if (s == from) s = to;
      c.check(root == ra || root == rb, "one of the two representatives remains");
      if (sa != sb && from != to) c.eq(root, sa > sb ? ra : rb, "the larger set keeps its representative");
      c.eq(uf.getRepresentative(a), root, "representative of the first");
      c.eq(uf.getRepresentative(b), root, "representative of the second");
    } else {
      c.eq(uf.getRepresentative(a) == uf.getRepresentative(b), set[a] == set[b], "same representative exactly when connected");
      c.eq(uf.getSetSize(a), sa, "size of the set");
    }
  }
  for (int i = 0; i < n; i++) {
    c.eq(uf.getSetSize(i), (int)std::count(set.begin(), set.end(), set[i]), "size of a set at the end");
    c.check(set[uf.getRepresentative(i)] == set[i], "the representative is a member");
  }
}
PBT_CLAIM(filters, 1500) {
  using AprilTags::FloatImage;
  using AprilTags::Gaussian;
  const int n = 2 * c.integer(0, 4) + 1;
  const double sigma = c.oneIn(5) ? 0 : c.real(0.2, 4);
  const std::vector<float> f = Gaussian::makeGaussianFilter(sigma, n);
  c.eq((int)f.size(), n, "filter length");
  double total = 0;
  for (int i = 0; i < n; i++) {
    total += f[i];
    c.near(f[i], f[n - 1 - i], 1e-6, 0, "symmetric filter");
    const int k = i - n / 2;
    c.near(f[i] / f[n / 2], sigma == 0 ? (k == 0) : std::exp(-k * k / (2 * (double)(float)sigma * (float)sigma)), 1e-5, 1e-4, "a Gaussian");
  }
  c.near(total, 1.0, 1e-5, 0, "weights add up to one");
  const int w = c.integer(n, 16), h = c.integer(n, 16);
  std::vector<float> px(w * h);
  for (float& v : px) v = c.real(0, 1);
  FloatImage im(w, h, px);
  c << w << "x" << h << ", filter " << n << " sigma " << sigma;
  if (n > 1 && sigma > 0) c.nontrivial();
  c.check(im.getWidth() == w && im.getHeight() == h && im.getNumFloatImagePixels() == w * h && im.getFloatImagePixels() == px, "image as given");
  const int m = 2 * c.integer(0, 2) + 1;
  std::vector<float> g(m);
  for (float& v : g) v = c.real(0, 1);
  for (int i = 0; i < m; i++) g[m - 1 - i] = g[i];
  if (m > h) return c.discard();
  FloatImage smooth = im;
  smooth.filterFactoredCentered(f, g);
  // separable convolution with the edge repeated
  auto at = [&](int x, int y) { return (double)px[std::max(0, std::min(h - 1, y)) * w + std::max(0, std::min(w - 1, x))]; };
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++) {
      double want = 0;
      for (int j = 0; j < m; j++)
        for (int i = 0; i < n; i++) want += f[i] * g[j] * at(x + n / 2 - i, y + m / 2 - j);
      c.near(smooth.get(x, y), want, 2e-5, 1e-5, "filtered with the edge of the image repeated at " + std::to_string(x) + "," + std::to_string(y));
    }
  FloatImage copy;
  copy = im;
  c.check(copy.getFloatImagePixels() == px && copy.getWidth() == w, "copied");
  copy.set(w - 1, h - 1, 3.5f);
  c.check(copy.get(w - 1, h - 1) == 3.5f && im.get(w - 1, h - 1) == px.back(), "set");
  FloatImage norm = im;
  norm.normalize();
  const float lo = *std::min_element(px.begin(), px.end()), hi = *std::max_element(px.begin(), px.end());
  if (hi - lo > 1e-3)
    for (int i = 0; i < w * h; i++) c.near(norm.getFloatImagePixels()[i], (px[i] - lo) / (hi - lo), 1e-4, 1e-4, "normalized to 0..1");
  FloatImage small = im;
  small.decimateAvg();
  c.check(small.getWidth() == w / 2 && small.getHeight() == h / 2 && (int)small.getFloatImagePixels().size() == (w / 2) * (h / 2), "half the size");
  for (int y = 0; y < h / 2; y++)
    for (int x = 0; x < w / 2; x++) c.check(small.get(x, y) == px[2 * y * w + 2 * x], "every second pixel");
}
PBT_CLAIM(gridder, 1500) {
  // everything near a point is found, and nothing twice
  const int w = c.integer(5, 200), h = c.integer(5, 200), n = c.integer(0, 40);
  AprilTags::Gridder<int> g(0, 0, w, h, c.integer(1, 12));
  std::vector<int> ids(n);
  std::vector<Vector2d> at(n);
  for (int i = 0; i < n; i++) {
    ids[i] = i;
    at[i] = Vector2d(c.real(0, w), c.real(0, h));
    g.add(at[i][0], at[i][1], &ids[i]);
  }
  const Vector2d q(c.real(-10, w + 10), c.real(-10, h + 10));
  const double r = c.real(0, 50);
  c << n << " points in " << w << "x" << h << ", " << r << " about " << str(q.transpose());
  if (n > 1) c.nontrivial();
  std::multiset<int> got;
  AprilTags::Gridder<int>::iterator it = g.find(q[0], q[1], r);
  while (it.hasNext()) {
    got.insert(it.next());
    if (got.size() > ids.size()) c.fail("found more than was put in");
  }
  for (int i = 0; i < n; i++) {
    c.check(got.count(i) <= 1, "nothing is found twice");
    if ((at[i] - q).norm() < r - 1e-3) c.check(got.count(i) == 1, "everything within the range is found");
  }
}

// ---- april grid ---------------------------------------------------------------
PBT_CLAIM(aprilgrid, 200) {
  using aslam::cameras::GridCalibrationTargetAprilgrid;
  GridCalibrationTargetAprilgrid::AprilgridOptions options;
  options.minTagsForValidObs = c.integer(1, 5);
  options.blackTagBorder = c.integer(1, 2);
  options.doSubpixRefinement = c.boolean();
  options.minBorderDistance = c.oneIn(3) ? c.real(0, 30) : 4;
  const int rows = c.integer(1, 3), cols = c.integer(1, 4);
  const double size = c.logReal(0.02, 0.3), spacing = c.real(0.25, 0.45);
  GridCalibrationTargetAprilgrid grid(rows, cols, size, spacing, options);
  Scene s;
  s.dimension = 6;
  s.border = options.blackTagBorder;
  photometry(c, s);
  s.slopeX = s.slopeY = 0;
  s.background = s.bright;
  const double px = (6 + 2 * s.border) * c.real(4, 6);  // a tag, in pixels
  const double W = px * (cols + (cols - 1) * spacing), Hh = px * (rows + (rows - 1) * spacing);
  s.w = W * 1.25 + 60; s.h = Hh * 1.25 + 60;
  const double roll = c.oneIn(2) ? c.real(-0.15, 0.15) : 0, ox = c.oneIn(3) ? c.real(-60, 60) : 0, oy = c.oneIn(3) ? c.real(-60, 60) : 0;
  // board plane in metres to pixels, y up, slightly tilted
  const double scale = px / size;
  Matrix3d A;
  A << std::cos(roll) * scale, std::sin(roll) * scale, 0, std::sin(roll) * scale, -std::cos(roll) * scale, 0, 0, 0, 1;
  const Vector2d mid(size * (cols + (cols - 1) * spacing) / 2, size * (rows + (rows - 1) * spacing) / 2);
  Matrix3d centre = Matrix3d::Identity();
  centre.topRightCorner<2, 1>() = -mid;
  Matrix3d tilt = Matrix3d::Identity();
  tilt(2, 0) = c.real(-0.06, 0.06) / (size * cols); tilt(2, 1) = c.real(-0.06, 0.06) / (size * rows);
  Matrix3d place = Matrix3d::Identity();
  place(0, 2) = s.w / 2.0 + ox; place(1, 2) = s.h / 2.0 + oy;
  const Matrix3d board = place * A * tilt * centre;
  auto pixel = [&](const Vector3d& p) { return Vector2d((board * Vector3d(p[0], p[1], 1)).hnormalized()); };
  std::vector<char> hidden(rows * cols), whole(rows * cols, 1), clear(rows * cols, 1);
  for (int r = 0; r < rows; r++)
    for (int q = 0; q < cols; q++) {
      const int id = r * cols + q;
      hidden[id] = c.oneIn(4);
      Drawn t;
      t.id = id;
      t.code = AprilTags::tagCodes36h11.codes[id];
      t.quiet = 0;
      Matrix3d M;
      const double x = q * size * (1 + spacing), y = r * size * (1 + spacing);
      M << size / 2, 0, x + size / 2, 0, size / 2, y + size / 2, 0, 0, 1;
      t.H = board * M;
      t.finish();
      for (int i = 0; i < 4; i++) {
        const double edge = std::min(std::min(t.corner[i][0], s.w - t.corner[i][0]), std::min(t.corner[i][1], s.h - t.corner[i][1]));
        if (edge < options.minBorderDistance + 1.5 || edge < 6) whole[id] = 0;
        if (edge > options.minBorderDistance - 1.5) continue;
        if (edge < 1 && edge > -4 && options.minBorderDistance < 4) continue;  // a cut corner is found less exactly
        clear[id] = 0;
      }
      if (!hidden[id]) s.tags.push_back(t);
    }
  // the symmetric squares between the tags, drawn as tags without code
  struct Square { Vector2d a, b; };
  cv::Mat image = s.draw(3);
  {
    Matrix3d back = board.inverse();
    for (int y = 0; y < s.h; y++)
      for (int x = 0; x < s.w; x++) {
        double dark = 0;
        for (int i = 0; i < 9; i++) {
          const Vector2d m = (back * Vector3d(x - 0.5 + (i % 3 + 0.5) / 3, y - 0.5 + (i / 3 + 0.5) / 3, 1)).hnormalized();
          const double step = size * (1 + spacing);
          const double u = m[0] - std::floor((m[0] + spacing * size) / step) * step, v = m[1] - std::floor((m[1] + spacing * size) / step) * step;
          const int iu = std::floor((m[0] + spacing * size) / step), iv = std::floor((m[1] + spacing * size) / step);
          if (u < 0 && v < 0 && iu >= 0 && iu <= cols && iv >= 0 && iv <= rows) dark += 1.0 / 9;
        }
        if (dark > 0) image.at<uchar>(y, x) = image.at<uchar>(y, x) * (1 - dark) + s.dark * dark;
      }
  }
  // a tag that does not belong to the grid
  int certain = 0, possible = 0;
  for (int i = 0; i < rows * cols; i++)
    if (!hidden[i]) { certain += whole[i]; possible += clear[i]; }
  c << rows << "x" << cols << " tags of " << px << " pixels in " << s.w << "x" << s.h << ", border " << s.border << ", at least " << options.minTagsForValidObs << " wanted, "
    << certain << " to " << possible << " visible, border distance " << options.minBorderDistance << (options.doSubpixRefinement ? ", refined" : "");
  c.eq((int)grid.size(), 4 * rows * cols, "number of corners");
  MatrixXd points;
  std::vector<bool> observed;
  if (c.oneIn(3)) {  // left from an earlier image
    observed.assign(c.integer(0, 4 * rows * cols), true);
    points = MatrixXd::Constant(c.integer(0, 20), 2, -1);
  }
  const bool ok = grid.computeObservation(image, points, observed);
  if (certain >= (int)options.minTagsForValidObs) c.check(ok, "enough tags are visible, so the observation is accepted");
  if (possible < (int)options.minTagsForValidObs) c.check(!ok, "an observation with too few tags is refused");
  if (certain < rows * cols || roll != 0) c.nontrivial();
  c.label(ok ? "accepted" : "refused");
  if (!ok) return;
  c.eq((int)observed.size(), 4 * rows * cols, "one flag per corner");
  c.eq((int)points.rows(), 4 * rows * cols, "one point per corner");
  for (int r = 0; r < 2 * rows; r++)
    for (int q = 0; q < 2 * cols; q++) {
      const int id = (r / 2) * cols + q / 2, i = r * 2 * cols + q;
      const std::string w = "corner " + std::to_string(i) + " of tag " + std::to_string(id) + ": ";
      const Vector3d p = grid.points().row(i);
      if (hidden[id] || !clear[id]) c.check(!observed[i], w + "a tag that is hidden or too close to the edge is not observed");
      else if (whole[id] && !options.doSubpixRefinement) c.check(observed[i], w + "a visible tag is observed");
      if (observed[i]) {
        const double off = (Vector2d(points(i, 0), points(i, 1)) - pixel(p)).norm();
        const Vector2d at = pixel(p);
        const double inside = std::min(std::min(at[0], s.w - at[0]), std::min(at[1], s.h - at[1]));
        // next to the edge of the image there is no full window to refine in
        c.check(off < (inside < 8 ? 2.5 : 1.0), w + "observed at its place in the image, " + std::to_string(off) + " pixels off");
      }
    }
}
