// Stand-ins for the parts of ROS the code under test uses. They keep what is published,
// hand over what a test puts in, and follow the documented behaviour of ROS' own ones.
#ifndef ROS_STUB_H
#define ROS_STUB_H
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <typeindex>
#include <unordered_map>
#include <vector>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>

// ---------------------------------------------------------------- time
namespace ros {
struct Duration {
  int32_t sec = 0, nsec = 0; Duration() {} explicit Duration(double t) { fromSec(t); } Duration(int32_t s, int32_t n) : sec{s}, nsec{n} { norm(); }
  Duration &fromSec(double t) { sec = int32_t(std::floor(t)); nsec = int32_t(std::llround((t - sec) * 1e9)); norm(); return *this; }
  Duration &fromNSec(int64_t t) { sec = int32_t(t / 1000000000); int64_t r = t % 1000000000; nsec = int32_t(r); norm(); return *this; }
  void norm() { while (nsec >= 1000000000) { nsec -= 1000000000; ++sec; } while (nsec < 0) { nsec += 1000000000; --sec; } }
  double toSec() const { return sec + 1e-9 * nsec; } int64_t toNSec() const { return int64_t(sec) * 1000000000 + nsec; } bool isZero() const { return !sec && !nsec; }
  bool operator<(const Duration &o) const { return toNSec() < o.toNSec(); } bool operator>(const Duration &o) const { return o < *this; } bool operator<=(const Duration &o) const { return !(o < *this); } bool operator>=(const Duration &o) const { return !(*this < o); } bool operator==(const Duration &o) const { return toNSec() == o.toNSec(); } bool operator!=(const Duration &o) const { return !(*this == o); }
  Duration operator+(const Duration &o) const { return Duration{}.fromNSec(toNSec() + o.toNSec()); } Duration operator-(const Duration &o) const { return Duration{}.fromNSec(toNSec() - o.toNSec()); } Duration operator-() const { return Duration{}.fromNSec(-toNSec()); } Duration operator*(double f) const { return Duration{toSec() * f}; }
  bool sleep() const;
};
struct Time {
  uint32_t sec = 0, nsec = 0; Time() {} Time(uint32_t s, uint32_t n) : sec{s}, nsec{n} {} explicit Time(double t) { fromSec(t); }
  Time &fromSec(double t) { sec = uint32_t(std::floor(t)); nsec = uint32_t(std::llround((t - sec) * 1e9)); if (nsec >= 1000000000) { nsec -= 1000000000; ++sec; } return *this; }
  Time &fromNSec(uint64_t t) { sec = uint32_t(t / 1000000000); nsec = uint32_t(t % 1000000000); return *this; }
  double toSec() const { return sec + 1e-9 * nsec; } uint64_t toNSec() const { return uint64_t(sec) * 1000000000 + nsec; } bool isZero() const { return !sec && !nsec; }
  bool operator<(const Time &o) const { return toNSec() < o.toNSec(); } bool operator>(const Time &o) const { return o < *this; } bool operator<=(const Time &o) const { return !(o < *this); } bool operator>=(const Time &o) const { return !(*this < o); } bool operator==(const Time &o) const { return toNSec() == o.toNSec(); } bool operator!=(const Time &o) const { return !(*this == o); }
  Duration operator-(const Time &o) const { return Duration{}.fromNSec(int64_t(toNSec()) - int64_t(o.toNSec())); } Time operator+(const Duration &d) const { return Time{}.fromNSec(toNSec() + d.toNSec()); } Time operator-(const Duration &d) const { return Time{}.fromNSec(toNSec() - d.toNSec()); } Time &operator+=(const Duration &d) { return *this = *this + d; }
  static Time now(); static void init() {} static bool isValid() { return true; } static bool isSystemTime() { return false; } static void waitForValid() {}
};
inline std::ostream &operator<<(std::ostream &os, const Time &t) { char b[40]; snprintf(b, sizeof b, "%u.%09u", t.sec, t.nsec); return os << b; }
inline std::ostream &operator<<(std::ostream &os, const Duration &t) { return os << t.toSec(); }
}

// ---------------------------------------------------------------- messages
namespace std_msgs { struct Header { uint32_t seq = 0; ros::Time stamp; std::string frame_id; }; }
namespace geometry_msgs {
struct Vector3 { double x = 0, y = 0, z = 0; }; struct Point { double x = 0, y = 0, z = 0; }; struct Quaternion { double x = 0, y = 0, z = 0, w = 0; };
struct Pose { Point position; Quaternion orientation; }; struct PoseStamped { std_msgs::Header header; Pose pose; };
struct Transform { Vector3 translation; Quaternion rotation; }; struct TransformStamped { std_msgs::Header header; std::string child_frame_id; Transform transform; };
}
namespace sensor_msgs { struct LaserScan { using Ptr = boost::shared_ptr<LaserScan>; using ConstPtr = boost::shared_ptr<const LaserScan>; std_msgs::Header header; float angle_min = 0, angle_max = 0, angle_increment = 0, time_increment = 0, scan_time = 0, range_min = 0, range_max = 0; std::vector<float> ranges, intensities; }; }
namespace nav_msgs {
struct MapMetaData { ros::Time map_load_time; float resolution = 0; uint32_t width = 0, height = 0; geometry_msgs::Pose origin; };
struct OccupancyGrid { std_msgs::Header header; MapMetaData info; std::vector<int8_t> data; };
struct Path { std_msgs::Header header; std::vector<geometry_msgs::PoseStamped> poses; };
}

// ---------------------------------------------------------------- what a test sees and drives
namespace ros {
struct Param { enum { None, Str, Int, Dbl, Bool } type = None; std::string s; int i = 0; double d = 0; bool b = false; };
struct Bus {
  Time now{1, 0}; bool ok = true; std::map<std::string, Param> params; std::vector<std::string> errors;
  struct Pub { std::string topic; std::type_index type; std::shared_ptr<void> msg; Time at; }; std::vector<Pub> published;
  struct Sub { std::string topic; std::type_index type; std::function<void(std::shared_ptr<void>)> call; std::weak_ptr<int> alive; }; std::vector<Sub> subs;
  std::function<void()> on_spin, on_sleep; std::function<bool()> on_ok;
  template <class M> void deliver(const std::string &topic, const boost::shared_ptr<M> &m) { auto all = subs; for (auto &s : all) if (s.topic == topic && s.type == std::type_index(typeid(M)) && !s.alive.expired()) s.call(std::make_shared<boost::shared_ptr<M>>(m)); }
  template <class M> std::vector<const M *> of(const std::string &topic) const { std::vector<const M *> r; for (auto &p : published) if (p.topic == topic && p.type == std::type_index(typeid(M))) r.push_back(static_cast<const M *>(p.msg.get())); return r; }
};
inline Bus &bus() { static Bus b; return b; }
inline bool Duration::sleep() const { if (bus().on_sleep) bus().on_sleep(); return true; }
inline Time Time::now() { return bus().now; }
inline void init(int &, char **, const std::string &, uint32_t = 0) {}
inline bool ok() { return bus().on_ok ? bus().on_ok() : bus().ok; } inline void shutdown() { bus().ok = false; }
inline void spin() { if (bus().on_spin) bus().on_spin(); } inline void spinOnce() { if (bus().on_spin) bus().on_spin(); }
struct Rate { Duration d; Rate(double hz) : d{1 / hz} {} Rate(const Duration &x) : d{x} {} bool sleep() { if (bus().on_sleep) bus().on_sleep(); else std::this_thread::sleep_for(std::chrono::milliseconds(1)); return true; } };
struct Publisher { std::string topic; std::type_index type{typeid(void)};
  template <class M> void publish(const M &m) const { if (type != std::type_index(typeid(M))) throw std::runtime_error("a message of a wrong type is published to " + topic); bus().published.push_back({topic, typeid(M), std::make_shared<M>(m), bus().now}); }
  template <class M> void publish(const boost::shared_ptr<M> &m) const { publish(*m); } std::string getTopic() const { return topic; } uint32_t getNumSubscribers() const { return 1; } };
struct Subscriber { std::shared_ptr<int> pin; };
struct NodeHandle {
  NodeHandle() {} NodeHandle(const std::string &) {} bool ok() const { return ros::ok(); }
  template <class M> Publisher advertise(const std::string &topic, uint32_t, bool = false) { Publisher p; p.topic = topic; p.type = typeid(M); return p; }
  template <class M> Subscriber subscribe(const std::string &topic, uint32_t, void (*f)(boost::shared_ptr<M>)) { Subscriber s; s.pin = std::make_shared<int>(0); bus().subs.push_back({topic, typeid(M), [f](std::shared_ptr<void> m) { f(*static_cast<boost::shared_ptr<M> *>(m.get())); }, s.pin}); return s; }
};
namespace param {
inline std::string key(const std::string &k) { return k; }
inline bool get(const std::string &k, std::string &v) { auto it = bus().params.find(k); if (it == bus().params.end() || it->second.type != Param::Str) return false; v = it->second.s; return true; }
inline bool get(const std::string &k, double &v) { auto it = bus().params.find(k); if (it == bus().params.end()) return false; if (it->second.type == Param::Dbl) v = it->second.d; else if (it->second.type == Param::Int) v = it->second.i; else return false; return true; }
inline bool get(const std::string &k, float &v) { double d; if (!get(k, d)) return false; v = d; return true; }
inline bool get(const std::string &k, int &v) { auto it = bus().params.find(k); if (it == bus().params.end()) return false; if (it->second.type == Param::Int) v = it->second.i; else if (it->second.type == Param::Dbl) v = int(std::lround(it->second.d)); else return false; return true; }
inline bool get(const std::string &k, bool &v) { auto it = bus().params.find(k); if (it == bus().params.end() || it->second.type != Param::Bool) return false; v = it->second.b; return true; }
template <class T> bool param(const std::string &k, T &v, const T &d) { if (get(k, v)) return true; v = d; return false; }
inline void set(const std::string &k, const std::string &v) { Param p; p.type = Param::Str; p.s = v; bus().params[k] = p; }
inline void set(const std::string &k, const char *v) { set(k, std::string(v)); }
inline void set(const std::string &k, int v) { Param p; p.type = Param::Int; p.i = v; bus().params[k] = p; }
inline void set(const std::string &k, double v) { Param p; p.type = Param::Dbl; p.d = v; bus().params[k] = p; }
inline void set(const std::string &k, bool v) { Param p; p.type = Param::Bool; p.b = v; bus().params[k] = p; }
inline bool has(const std::string &k) { return bus().params.count(k); } inline bool del(const std::string &k) { return bus().params.erase(k); }
}
namespace message_traits {
template <class M> struct FrameId { static std::string value(const M &m) { return m.header.frame_id; } };
template <class M> struct TimeStamp { static Time value(const M &m) { return m.header.stamp; } };
}
}
inline void ros_stub_say(const char *f) { ros::bus().errors.push_back(f); }
template <class... A> void ros_stub_say(const char *f, A... a) { char b[2000]; snprintf(b, sizeof b, f, a...); ros::bus().errors.push_back(b); }
#define ROS_ERROR(...) ros_stub_say(__VA_ARGS__)
#define ROS_WARN(...) ros_stub_say(__VA_ARGS__)
#define ROS_INFO(...) ros_stub_say(__VA_ARGS__)
#define ROS_DEBUG(...) ros_stub_say(__VA_ARGS__)
#define ROS_FATAL(...) ros_stub_say(__VA_ARGS__)
#define ROS_STUB_STREAM(x) do { std::ostringstream ros_stub_os; ros_stub_os << x; ros::bus().errors.push_back(ros_stub_os.str()); } while (0)
#define ROS_ERROR_STREAM(x) ROS_STUB_STREAM(x)
#define ROS_WARN_STREAM(x) ROS_STUB_STREAM(x)
#define ROS_INFO_STREAM(x) ROS_STUB_STREAM(x)
#define ROS_DEBUG_STREAM(x) ROS_STUB_STREAM(x)
#define ROS_FATAL_STREAM(x) ROS_STUB_STREAM(x)

// ---------------------------------------------------------------- tf
namespace tf {
struct Vector3 { double v[3] = {0, 0, 0}; Vector3() {} Vector3(double x, double y, double z) : v{x, y, z} {}
  double x() const { return v[0]; } double y() const { return v[1]; } double z() const { return v[2]; } double getX() const { return v[0]; } double getY() const { return v[1]; } double getZ() const { return v[2]; } void setX(double a) { v[0] = a; } void setY(double a) { v[1] = a; } void setZ(double a) { v[2] = a; } void setValue(double a, double b, double c) { v[0] = a; v[1] = b; v[2] = c; }
  Vector3 operator+(const Vector3 &o) const { return {v[0] + o.v[0], v[1] + o.v[1], v[2] + o.v[2]}; } Vector3 operator-(const Vector3 &o) const { return {v[0] - o.v[0], v[1] - o.v[1], v[2] - o.v[2]}; } Vector3 operator-() const { return {-v[0], -v[1], -v[2]}; } Vector3 operator*(double s) const { return {v[0] * s, v[1] * s, v[2] * s}; } double length() const { return std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); } };
struct Quaternion { double X = 0, Y = 0, Z = 0, W = 1; Quaternion() {} Quaternion(double x, double y, double z, double w) : X{x}, Y{y}, Z{z}, W{w} {}
  double x() const { return X; } double y() const { return Y; } double z() const { return Z; } double w() const { return W; } double getX() const { return X; } double getY() const { return Y; } double getZ() const { return Z; } double getW() const { return W; }
  void setRPY(double r, double p, double y) { double hy = y / 2, hp = p / 2, hr = r / 2, cy = std::cos(hy), sy = std::sin(hy), cp = std::cos(hp), sp = std::sin(hp), cr = std::cos(hr), sr = std::sin(hr); X = sr * cp * cy - cr * sp * sy; Y = cr * sp * cy + sr * cp * sy; Z = cr * cp * sy - sr * sp * cy; W = cr * cp * cy + sr * sp * sy; }
  Quaternion operator*(const Quaternion &q) const { return {W * q.X + X * q.W + Y * q.Z - Z * q.Y, W * q.Y + Y * q.W + Z * q.X - X * q.Z, W * q.Z + Z * q.W + X * q.Y - Y * q.X, W * q.W - X * q.X - Y * q.Y - Z * q.Z}; }
  Quaternion inverse() const { return {-X, -Y, -Z, W}; } double length2() const { return X * X + Y * Y + Z * Z + W * W; } Quaternion normalized() const { double l = std::sqrt(length2()); return {X / l, Y / l, Z / l, W / l}; }
  Quaternion slerp(const Quaternion &o, double t) const { double d = X * o.X + Y * o.Y + Z * o.Z + W * o.W, s = d < 0 ? -1 : 1; d = std::min(1., std::abs(d)); double a = std::acos(d); if (a < 1e-9) return *this; double p = std::sin((1 - t) * a) / std::sin(a), q = s * std::sin(t * a) / std::sin(a); return {p * X + q * o.X, p * Y + q * o.Y, p * Z + q * o.Z, p * W + q * o.W}; } };
inline Vector3 quatRotate(const Quaternion &q, const Vector3 &v) { Quaternion r = q * Quaternion{v.x(), v.y(), v.z(), 0} * q.inverse(); return {r.X, r.Y, r.Z}; }
inline Quaternion createQuaternionFromRPY(double r, double p, double y) { Quaternion q; q.setRPY(r, p, y); return q; }
inline Quaternion createQuaternionFromYaw(double y) { return createQuaternionFromRPY(0, 0, y); }
inline Quaternion createIdentityQuaternion() { return {}; }
inline double getYaw(const Quaternion &q) { return std::atan2(2 * (q.W * q.Z + q.X * q.Y), 1 - 2 * (q.Y * q.Y + q.Z * q.Z)); }
struct Transform { Quaternion q; Vector3 o; Transform() {} Transform(const Quaternion &r, const Vector3 &t = Vector3{}) : q{r}, o{t} {}
  Vector3 &getOrigin() { return o; } const Vector3 &getOrigin() const { return o; } void setOrigin(const Vector3 &t) { o = t; } Quaternion getRotation() const { return q; } void setRotation(const Quaternion &r) { q = r; } void setIdentity() { *this = Transform{}; } static Transform getIdentity() { return {}; }
  Transform operator*(const Transform &t) const { return {q * t.q, quatRotate(q, t.o) + o}; } Vector3 operator*(const Vector3 &v) const { return quatRotate(q, v) + o; } Transform inverse() const { auto i = q.inverse(); return {i, quatRotate(i, -o)}; } };
struct StampedTransform : Transform { ros::Time stamp_; std::string frame_id_, child_frame_id_; StampedTransform() {} StampedTransform(const Transform &t, const ros::Time &at, const std::string &parent, const std::string &child) : Transform(t), stamp_{at}, frame_id_{parent}, child_frame_id_{child} {} void setData(const Transform &t) { *static_cast<Transform *>(this) = t; } };
struct tfMessage { std::vector<geometry_msgs::TransformStamped> transforms; };
inline void transformStampedMsgToTF(const geometry_msgs::TransformStamped &m, StampedTransform &t) { auto &r = m.transform.rotation; auto &o = m.transform.translation; t.q = Quaternion{r.x, r.y, r.z, r.w}; t.o = Vector3{o.x, o.y, o.z}; t.stamp_ = m.header.stamp; t.frame_id_ = m.header.frame_id; t.child_frame_id_ = m.child_frame_id; }
inline void transformStampedTFToMsg(const StampedTransform &t, geometry_msgs::TransformStamped &m) { m.header.stamp = t.stamp_; m.header.frame_id = t.frame_id_; m.child_frame_id = t.child_frame_id_; m.transform.translation.x = t.o.x(); m.transform.translation.y = t.o.y(); m.transform.translation.z = t.o.z(); m.transform.rotation.x = t.q.X; m.transform.rotation.y = t.q.Y; m.transform.rotation.z = t.q.Z; m.transform.rotation.w = t.q.W; }

// conversions that the code under test does without, but a rewording may use
inline void quaternionTFToMsg(const Quaternion &q, geometry_msgs::Quaternion &m) { m.x = q.X; m.y = q.Y; m.z = q.Z; m.w = q.W; }
inline void quaternionMsgToTF(const geometry_msgs::Quaternion &m, Quaternion &q) { q = Quaternion{m.x, m.y, m.z, m.w}; }
inline geometry_msgs::Quaternion createQuaternionMsgFromRollPitchYaw(double r, double p, double y) { geometry_msgs::Quaternion m; quaternionTFToMsg(createQuaternionFromRPY(r, p, y), m); return m; }
inline geometry_msgs::Quaternion createQuaternionMsgFromYaw(double y) { return createQuaternionMsgFromRollPitchYaw(0, 0, y); }
inline double getYaw(const geometry_msgs::Quaternion &m) { Quaternion q; quaternionMsgToTF(m, q); return getYaw(q); }
inline void vector3TFToMsg(const Vector3 &v, geometry_msgs::Vector3 &m) { m.x = v.x(); m.y = v.y(); m.z = v.z(); }
inline void vector3MsgToTF(const geometry_msgs::Vector3 &m, Vector3 &v) { v = Vector3{m.x, m.y, m.z}; }
inline void pointTFToMsg(const Vector3 &v, geometry_msgs::Point &m) { m.x = v.x(); m.y = v.y(); m.z = v.z(); }
inline void pointMsgToTF(const geometry_msgs::Point &m, Vector3 &v) { v = Vector3{m.x, m.y, m.z}; }
inline void poseTFToMsg(const Transform &t, geometry_msgs::Pose &m) { pointTFToMsg(t.getOrigin(), m.position); quaternionTFToMsg(t.getRotation(), m.orientation); }
inline void poseMsgToTF(const geometry_msgs::Pose &m, Transform &t) { Quaternion q; Vector3 v; quaternionMsgToTF(m.orientation, q); pointMsgToTF(m.position, v); t = Transform{q, v}; }
inline void transformTFToMsg(const Transform &t, geometry_msgs::Transform &m) { vector3TFToMsg(t.getOrigin(), m.translation); quaternionTFToMsg(t.getRotation(), m.rotation); }
inline void transformMsgToTF(const geometry_msgs::Transform &m, Transform &t) { Quaternion q; Vector3 v; quaternionMsgToTF(m.rotation, q); vector3MsgToTF(m.translation, v); t = Transform{q, v}; }
using Point = Vector3; using Pose = Transform; using tfScalar = double;
struct TransformException : std::runtime_error { using std::runtime_error::runtime_error; };
struct LookupException : TransformException { using TransformException::TransformException; };
struct ConnectivityException : TransformException { using TransformException::TransformException; };
struct ExtrapolationException : TransformException { using TransformException::TransformException; };
struct InvalidArgument : TransformException { using TransformException::TransformException; };

struct Transformer { // a tree of frames with histories
  struct Hist { std::string parent; std::map<uint64_t, Transform> at; }; std::map<std::string, Hist> frames; double keep;
  Transformer(bool = true, ros::Duration d = ros::Duration{10.}) : keep{d.toSec()} {}
  static std::string strip(const std::string &s) { return !s.empty() && s[0] == '/' ? s.substr(1) : s; }
  bool setTransform(const StampedTransform &t, const std::string & = "") { auto &h = frames[strip(t.child_frame_id_)]; auto p = strip(t.frame_id_); if (h.parent != p) { h.parent = p; h.at.clear(); } h.at[t.stamp_.toNSec()] = t; while (h.at.rbegin()->first - h.at.begin()->first > keep * 1e9) h.at.erase(h.at.begin()); return true; }
  bool known(const std::string &f) const { if (frames.count(f)) return true; for (auto &k : frames) if (k.second.parent == f) return true; return false; }
  std::vector<std::string> chain(std::string f) const { std::vector<std::string> c{f}; while (frames.count(f) && c.size() < 100) { f = frames.at(f).parent; c.push_back(f); } return c; }
  Transform link(const std::string &f, uint64_t t) const { auto &a = frames.at(f).at; char b[300];
    if (!t) return a.rbegin()->second; if (t > a.rbegin()->first) { snprintf(b, sizeof b, "Lookup would require extrapolation into the future.  Requested time %.9f but the latest data is at time %.9f, when looking up transform from frame [%s]", t * 1e-9, a.rbegin()->first * 1e-9, f.c_str()); throw ExtrapolationException(b); }
    if (t < a.begin()->first) { snprintf(b, sizeof b, "Lookup would require extrapolation into the past.  Requested time %.9f but the earliest data is at time %.9f, when looking up transform from frame [%s]", t * 1e-9, a.begin()->first * 1e-9, f.c_str()); throw ExtrapolationException(b); }
    auto hi = a.lower_bound(t); if (hi->first == t) return hi->second; auto lo = std::prev(hi); double r = double(t - lo->first) / double(hi->first - lo->first); return {lo->second.q.slerp(hi->second.q, r), lo->second.o * (1 - r) + hi->second.o * r}; }
  void lookupTransform(const std::string &target, const std::string &source, const ros::Time &time, StampedTransform &out) const {
    auto T = strip(target), S = strip(source); Transform res; if (T != S) { for (auto &f : {T, S}) if (!known(f)) throw LookupException("\"" + f + "\" passed to lookupTransform does not exist. ");
      auto ct = chain(T), cs = chain(S); std::string meet; for (auto &f : cs) if (std::find(ct.begin(), ct.end(), f) != ct.end()) { meet = f; break; } if (meet.empty()) throw ConnectivityException("Could not find a connection between '" + T + "' and '" + S + "' because they are not part of the same tree. Tf has two or more unconnected trees.");
      Transform s, t; for (auto f : cs) { if (f == meet) break; s = link(f, time.toNSec()) * s; } for (auto f : ct) { if (f == meet) break; t = link(f, time.toNSec()) * t; } res = t.inverse() * s; }
    out.setData(res); out.stamp_ = time; out.frame_id_ = target; out.child_frame_id_ = source; }
  bool canTransform(const std::string &t, const std::string &s, const ros::Time &at) const { StampedTransform o; try { lookupTransform(t, s, at, o); } catch (const TransformException &) { return false; } return true; }
  bool waitForTransform(const std::string &t, const std::string &s, const ros::Time &at, const ros::Duration &) const { return canTransform(t, s, at); }
};
inline Transformer &shared_buffer() { static Transformer t; return t; }
struct TransformListener { TransformListener(ros::Duration = ros::Duration{10.}, bool = true) {} void lookupTransform(const std::string &t, const std::string &s, const ros::Time &at, StampedTransform &o) const { shared_buffer().lookupTransform(t, s, at, o); } bool canTransform(const std::string &t, const std::string &s, const ros::Time &at) const { return shared_buffer().canTransform(t, s, at); } bool waitForTransform(const std::string &t, const std::string &s, const ros::Time &at, const ros::Duration &) const { return canTransform(t, s, at); } };
struct Sent { std::mutex m; std::vector<StampedTransform> all; }; inline Sent &sent() { static Sent s; return s; }
struct TransformBroadcaster { void sendTransform(const StampedTransform &t) { std::lock_guard<std::mutex> l{sent().m}; sent().all.push_back(t); } void sendTransform(const geometry_msgs::TransformStamped &m) { StampedTransform t; transformStampedMsgToTF(m, t); sendTransform(t); } void sendTransform(const std::vector<StampedTransform> &v) { for (auto &t : v) sendTransform(t); } };
}
namespace message_filters {
template <class M> struct Subscriber { std::string topic; std::shared_ptr<int> pin = std::make_shared<int>(0); std::vector<std::function<void(boost::shared_ptr<M>)>> cbs; Subscriber(ros::NodeHandle &, const std::string &t, uint32_t) : topic{t} { ros::bus().subs.push_back({t, typeid(M), [this](std::shared_ptr<void> m) { for (auto &c : cbs) c(*static_cast<boost::shared_ptr<M> *>(m.get())); }, pin}); } Subscriber(const Subscriber &) = delete; };
}
namespace tf {
template <class M> struct MessageFilter { // (messages whose transform is not there yet wait in ROS' own one; a test puts transforms in first)
  std::vector<std::function<void(boost::shared_ptr<M>)>> cbs; template <class F> MessageFilter(F &f, TransformListener &, const std::string &, uint32_t) { f.cbs.push_back([this](boost::shared_ptr<M> m) { for (auto &c : cbs) c(m); }); }
  template <class T> void registerCallback(void (T::*f)(boost::shared_ptr<M>), T *o) { cbs.push_back([=](boost::shared_ptr<M> m) { (o->*f)(m); }); }
  template <class T> void registerCallback(void (T::*f)(const boost::shared_ptr<M>), T *o, int) { cbs.push_back([=](boost::shared_ptr<M> m) { (o->*f)(m); }); } };
}

// ---------------------------------------------------------------- bags
namespace rosbag {
struct Record { std::string topic; std::type_index type; std::shared_ptr<void> msg; };
inline std::map<std::string, std::vector<Record>> &bags() { static std::map<std::string, std::vector<Record>> b; return b; }
struct Bag { std::string name; bool open = true; Bag(const std::string &f) : name{f} { if (!bags().count(f)) throw std::runtime_error("Error opening file: " + f); } void close() { open = false; } };
struct TopicQuery { std::vector<std::string> topics; TopicQuery(const std::vector<std::string> &t) : topics{t} {} TopicQuery(const std::string &t) : topics{t} {} };
struct MessageInstance { const Record *r; std::string const getTopic() const { return r->topic; } template <class M> bool isType() const { return r->type == std::type_index(typeid(M)); } template <class M> boost::shared_ptr<M> instantiate() const { if (r->type != std::type_index(typeid(M))) return {}; return boost::make_shared<M>(*static_cast<const M *>(r->msg.get())); } };
struct View { std::vector<MessageInstance> all; using iterator = std::vector<MessageInstance>::const_iterator; using const_iterator = iterator;
  View(const Bag &b, const TopicQuery &q) { for (auto &r : bags().at(b.name)) if (std::find(q.topics.begin(), q.topics.end(), r.topic) != q.topics.end()) all.push_back({&r}); } iterator begin() const { return all.begin(); } iterator end() const { return all.end(); } uint32_t size() const { return all.size(); } };
template <class M> void put(const std::string &bag, const std::string &topic, const M &m) { bags()[bag].push_back({topic, typeid(M), std::make_shared<M>(m)}); }
}
inline void reset_ros() { ros::bus().published.clear(); ros::bus().subs.clear(); ros::bus().params.clear(); ros::bus().errors.clear(); ros::bus().now = ros::Time{1, 0}; ros::bus().ok = true; ros::bus().on_spin = nullptr; ros::bus().on_sleep = nullptr; ros::bus().on_ok = nullptr; tf::shared_buffer() = tf::Transformer{}; tf::sent().all.clear(); rosbag::bags().clear(); }
#endif
