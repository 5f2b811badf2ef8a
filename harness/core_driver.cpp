// Executes a scenario against the real tinyfk (public C++ API only) and prints one JSON object
// per operation: the recorded half of a trace event.  Input: one operation per line, tokens
// separated by blanks; strings are 'x'+hex, reals are 16 hex digits (IEEE bits).
#include <locale>
#include <cstddef>
#include "tinyfk.hpp"
#include <cmath>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <sstream>
#include <thread>
#include <atomic>
#include <malloc.h>
#include <new>
#include <tinyxml.h>
#include <Eigen/Dense>

// what is held, by whomever: every allocation of the process passes here (also those of new[] and malloc)
static std::atomic<long> held_blocks, held_bytes;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);
static void taken(const volatile void *p, size_t) { held_blocks++; held_bytes += __sanitizer_get_allocated_size(p); }
static void given(const volatile void *p) { if (p) { held_blocks--; held_bytes -= __sanitizer_get_allocated_size(p); } }

using namespace tinyfk;
using std::string;
using std::vector;
typedef std::unique_ptr<KinematicModel> Ptr;

static thread_local std::istringstream in;
static thread_local std::ostringstream out;
static std::map<string, Ptr> models;

struct NoId {};  // the scenario names something the model does not list

static string tok() { string s; if (!(in >> s)) throw std::logic_error("short line"); return s; }
static string str() {
  string t = tok(), r;
  for (size_t i = 1; i + 1 < t.size(); i += 2) r += char(std::stoi(t.substr(i, 2), nullptr, 16));
  return r;
}
static double real() { uint64_t b = std::stoull(tok(), nullptr, 16); double d; memcpy(&d, &b, 8); return d; }
static int num() { return std::stoi(tok()); }
static vector<string> strs() { int n = num(); vector<string> v; while (n-- > 0) v.push_back(str()); return v; }
static vector<double> reals(int n) { vector<double> v; while (n-- > 0) v.push_back(real()); return v; }

static void pr(double d) { uint64_t b; memcpy(&b, &d, 8); out << '[' << int32_t(b >> 32) << ',' << int32_t(b) << ']'; }
static void pj(const string &s) {
  out << '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') out << '\\' << c;
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); out << b; }
    else out << c;
  }
  out << '"';
}
template <class C, class F> static void arr(const C &c, F f) {
  out << '['; bool first = true;
  for (const auto &x : c) { if (!first) out << ','; first = false; f(x); }
  out << ']';
}
static void key(const char *k) { out << (out.str().size() > 1 ? "," : "") << '"' << k << "\":"; }
static void kb(const char *k, bool b) { key(k); out << (b ? "true" : "false"); }
static void kstr(const char *k, const string &s) { key(k); pj(s); }
static void kreals(const char *k, const vector<double> &v) { key(k); arr(v, pr); }
static void kids(const char *k, const vector<size_t> &v) { key(k); arr(v, [](size_t i) { out << i; }); }
static void kstrs(const char *k, const vector<string> &v) { key(k); arr(v, pj); }
static void kmat(const char *k, const Eigen::MatrixXd &m) {
  key(k); out << '[';
  for (int r = 0; r < m.rows(); r++) {
    if (r) out << ',';
    out << '[';
    for (int c = 0; c < m.cols(); c++) { if (c) out << ','; pr(m(r, c)); }
    out << ']';
  }
  out << ']';
}
static vector<double> v3(const Vector3 &v) { return {v.x, v.y, v.z}; }
static vector<double> q4(const Rotation &q) { return {q.x, q.y, q.z, q.w}; }
static void tf(const Transform &t) {
  out << "{\"p\":"; arr(v3(t.position), pr); out << ",\"q\":"; arr(q4(t.rotation), pr);
  out << ",\"rpy\":"; arr(v3(t.rotation.getRPY()), pr);
  double r, p, y; t.rotation.getRPY(r, p, y);
  out << ",\"rpy2\":"; arr(vector<double>{r, p, y}, pr); out << '}';
}

static size_t at(const vector<string> &names, const string &n) {
  for (size_t i = 0; i < names.size(); i++) if (names[i] == n) return i;
  throw NoId();
}
static vector<size_t> at(const vector<string> &names, const vector<string> &ns) {
  vector<size_t> r; for (auto &n : ns) r.push_back(at(names, n)); return r;
}
static KinematicModel &model() { auto i = models.find(tok()); if (i == models.end() || !i->second) throw NoId(); return *i->second; }
static Transform pose_arg(const string &kind, const vector<double> &p, const vector<double> &r) {
  Transform t;
  t.position = Vector3(p[0], p[1], p[2]);
  if (kind == "rpy") t.rotation.setFromRPY(r[0], r[1], r[2]);
  else t.rotation.setFromQuaternion(r[0], r[1], r[2], r[3]);
  return t;
}
static void names(KinematicModel &m) {
  kstrs("lnames", m.get_link_names()); kstrs("jnames", m.get_joint_names());
  kstr("root", m.links_.at(m.root_link_id_)->name);
}
static string export_urdf(const string &xml) {
  auto m = urdf::parseURDF(xml);
  if (!m) throw std::runtime_error("not parsed");
  std::unique_ptr<TiXmlDocument> d(urdf::exportURDF(m));
  TiXmlPrinter p; d->Accept(&p); return p.Str();
}
static Ptr &slot(const string &h) { auto i = models.find(h); return i != models.end() ? i->second : models[h]; }
static void load(const string &h, const string &xml) {
  Ptr &m = slot(h);
  try { m.reset(new KinematicModel(xml)); kb("ok", true); names(*m); }
  catch (...) { m.reset(); kb("ok", false); }
}
static RotationType rot(const string &s) {
  return s == "rpy" ? RotationType::RPY : s == "xyzw" ? RotationType::XYZW : RotationType::IGNORE;
}

// ---- parsed content (K22)
static void pose6(const char *k, const urdf::Pose &p) { key(k); tf(p); }
static void color(const urdf::Color &c) { arr(vector<double>{c.r, c.g, c.b, c.a}, pr); }
static void mat(const urdf::MaterialSharedPtr &m) {
  if (!m) { out << "[]"; return; }
  out << "[{\"name\":"; pj(m->name); out << ",\"texture\":"; pj(m->texture_filename); out << ",\"color\":"; color(m->color); out << "}]";
}
static void geom(const urdf::GeometrySharedPtr &g) {
  if (!g) { out << "{\"shape\":\"none\",\"dims\":[],\"file\":\"\"}"; return; }
  vector<double> d; string shape, file;
  if (auto s = std::dynamic_pointer_cast<urdf::Sphere>(g)) { shape = "sphere"; d = {s->radius}; }
  else if (auto b = std::dynamic_pointer_cast<urdf::Box>(g)) { shape = "box"; d = v3(b->dim); }
  else if (auto c = std::dynamic_pointer_cast<urdf::Cylinder>(g)) { shape = "cylinder"; d = {c->radius, c->length}; }
  else if (auto m = std::dynamic_pointer_cast<urdf::Mesh>(g)) { shape = "mesh"; d = v3(m->scale); file = m->filename; }
  int tag = g->type;
  const char *tags[] = {"sphere", "box", "cylinder", "mesh"};
  out << "{\"shape\":"; pj(shape); out << ",\"tag\":"; pj(tag >= 0 && tag < 4 ? tags[tag] : "?");
  out << ",\"dims\":"; arr(d, pr); out << ",\"file\":"; pj(file); out << "}";
}
template <class P, class F> static void opt(const char *k, const P &p, F f) {
  out << ",\"" << k << "\":["; if (p) f(*p); out << ']';
}
static void parsed(string xml, bool file, int times = 0) {
  try { while (times-- > 0) xml = export_urdf(xml); } catch (...) { kb("ok", false); return; }
  urdf::ModelInterfaceSharedPtr m = file ? urdf::parseURDFFile(xml) : urdf::parseURDF(xml);
  kb("ok", bool(m));
  if (!m) return;
  kstr("robot", m->getName());
  kstr("root", m->getRoot() ? m->getRoot()->name : "");
  key("materials"); arr(m->materials_, [](const std::pair<const string, urdf::MaterialSharedPtr> &p) {
    out << "{\"key\":"; pj(p.first); out << ",\"mat\":"; mat(p.second); out << '}'; });
  vector<urdf::LinkSharedPtr> ls; m->getLinks(ls);
  key("links"); arr(ls, [&](const urdf::LinkSharedPtr &l) {
    out << "{\"name\":"; pj(l->name);
    out << ",\"found\":" << (m->getLink(l->name) == l ? "true" : "false");
    out << ",\"parent\":"; vector<string> par; if (l->getParent()) par.push_back(l->getParent()->name); arr(par, pj);
    out << ",\"pjoint\":"; vector<string> pjn; if (l->parent_joint) pjn.push_back(l->parent_joint->name); arr(pjn, pj);
    out << ",\"cjoints\":"; arr(l->child_joints, [](const urdf::JointSharedPtr &j) { pj(j->name); });
    out << ",\"clinks\":"; arr(l->child_links, [](const urdf::LinkSharedPtr &c) { pj(c->name); });
    opt("inertial", l->inertial, [](const urdf::Inertial &i) {
      out << "{\"mass\":"; pr(i.mass); out << ",\"origin\":"; tf(i.origin);
      out << ",\"I\":"; arr(vector<double>{i.ixx, i.ixy, i.ixz, i.iyy, i.iyz, i.izz}, pr); out << '}'; });
    auto vis = [](const urdf::VisualSharedPtr &v) {
      out << "{\"name\":"; pj(v->name); out << ",\"origin\":"; tf(v->origin); out << ",\"geom\":"; geom(v->geometry);
      out << ",\"mname\":"; pj(v->material_name); out << ",\"mat\":"; mat(v->material); out << '}'; };
    auto col = [](const urdf::CollisionSharedPtr &c) {
      out << "{\"name\":"; pj(c->name); out << ",\"origin\":"; tf(c->origin); out << ",\"geom\":"; geom(c->geometry); out << '}'; };
    out << ",\"visuals\":"; arr(l->visual_array, vis);
    out << ",\"collisions\":"; arr(l->collision_array, col);
    out << ",\"first\":" << ((l->visual_array.empty() ? !l->visual : l->visual == l->visual_array[0]) &&
                             (l->collision_array.empty() ? !l->collision : l->collision == l->collision_array[0]) ? "true" : "false");
    out << '}'; });
  key("joints"); arr(m->joints_, [&](const std::pair<const string, urdf::JointSharedPtr> &p) {
    const urdf::Joint &j = *p.second;
    const char *types[] = {"unknown", "revolute", "continuous", "prismatic", "floating", "planar", "fixed"};
    out << "{\"name\":"; pj(j.name); out << ",\"found\":" << (m->getJoint(j.name) == p.second ? "true" : "false");
    out << ",\"type\":"; pj(types[j.type]); out << ",\"parent\":"; pj(j.parent_link_name); out << ",\"child\":"; pj(j.child_link_name);
    out << ",\"origin\":"; tf(j.parent_to_joint_origin_transform); out << ",\"axis\":"; arr(v3(j.axis), pr);
    opt("limit", j.limits, [](const urdf::JointLimits &x) { arr(vector<double>{x.lower, x.upper, x.effort, x.velocity}, pr); });
    opt("dynamics", j.dynamics, [](const urdf::JointDynamics &x) { arr(vector<double>{x.damping, x.friction}, pr); });
    opt("safety", j.safety, [](const urdf::JointSafety &x) {
      arr(vector<double>{x.soft_lower_limit, x.soft_upper_limit, x.k_position, x.k_velocity}, pr); });
    opt("calibration", j.calibration, [](const urdf::JointCalibration &x) {
      out << "{\"rising\":["; if (x.rising) pr(*x.rising); out << "],\"falling\":["; if (x.falling) pr(*x.falling); out << "]}"; });
    opt("mimic", j.mimic, [](const urdf::JointMimic &x) {
      out << "{\"joint\":"; pj(x.joint_name); out << ",\"num\":"; arr(vector<double>{x.multiplier, x.offset}, pr); out << '}'; });
    out << '}'; });
}

// ---- containers (K23)
static SizedStack<Transform> stack_;
static SizedCache<Transform> cache_;
static Transform elem(double v) { Transform t; t.position = Vector3(v, -v, v + 1); return t; }
static void kelem(const char *k, const Transform &t) {
  key(k); pr(t.position.x == -t.position.y && t.position.z == t.position.x + 1 ? t.position.x : std::nan(""));
}
static size_t ncache, nstack;
static bool watch = true;   // otherwise nothing is looked at that is not asked for
static void cache_view() {
  if (!watch) return;
  key("view"); out << '[';
  for (size_t i = 0; i < ncache; i++) {
    if (i) out << ',';
    const Transform *t = cache_.get_cache(i);
    out << '['; if (t) pr(t->position.x); out << ']';
  }
  out << ']';
}
static void stack_view() {
  if (!watch) return;
  key("size"); out << stack_.size(); kb("empty", stack_.empty());
  key("top"); out << '['; if (!stack_.empty()) pr(stack_.top().position.x); out << ']';
}

struct Comma : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  string do_grouping() const override { return "\3"; }
};

static void step(const string &op) {
  if (op == "begin") { models.clear(); std::locale::global(std::locale::classic()); }
  else if (op == "locale") { std::locale::global(std::locale(std::locale::classic(), new Comma)); }   // what programs may have set
  else if (op == "load") { string h = tok(); load(h, str()); }
  else if (op == "loadfile") {
    string h = tok(), path = str(); string xml;
    try { xml = load_urdf(path); } catch (...) { kb("ok", false); slot(h).reset(); return; }
    load(h, xml);
  }
  else if (op == "export") {
    string h = tok(), xml = str(); int times = num();
    try { while (times-- > 0) xml = export_urdf(xml); } catch (...) { kb("ok", false); return; }
    kstr("xml", xml);
    load(h, xml);
  }
  else if (op == "names") { names(model()); }
  else if (op == "lookup") {
    auto &m = model(); string kind = tok(); auto ns = strs(); vector<size_t> ids;
    try { ids = kind == "link" ? m.get_link_ids(ns) : m.get_joint_ids(ns); kb("ok", true); kids("ids", ids); }
    catch (const std::exception &) { kb("ok", false); }
  }
  else if (op == "setj") {
    auto &m = model(); string mode = tok(); auto ns = strs(); auto v = reals(ns.size());
    auto ids = at(m.get_joint_names(), ns);
    if (mode == "all") m.set_joint_angles(ids, v);
    else if (mode == "each") for (size_t i = 0; i < ids.size(); i++) m.set_joint_angle(ids[i], v[i]);
    else { m._set_joint_angles(ids, v); m.clear_cache(); }
    kids("ids", ids);
  }
  else if (op == "setb") {
    auto &m = model(); string mode = tok(), kind = tok(); auto p = reals(3); auto r = reals(kind == "rpy" ? 3 : 4);
    auto t = pose_arg(kind, p, r);
    if (mode == "raw") { m._set_base_pose(t); m.clear_cache(); } else m.set_base_pose(t);
  }
  else if (op == "reset") { model().set_init_angles(); }
  else if (op == "clear") { model().clear_cache(); }
  else if (op == "getq") {
    auto &m = model(); auto ids = at(m.get_joint_names(), strs());
    kreals("vals", m.get_joint_angles(ids)); kids("ids", ids);
    key("base"); tf(m.base_pose_);
  }
  else if (op == "pose") {
    auto &m = model(); auto ids = at(m.get_link_names(), strs()); kids("links", ids);
    key("poses"); arr(ids, [&](size_t i) { Transform t; t.position.x = 1e300; m.get_link_pose(i, t); tf(t); });
  }
  else if (op == "jac") {
    auto &m = model(); size_t l = at(m.get_link_names(), str()); string r = tok(); int base = num();
    auto ids = at(m.get_joint_names(), strs());
    auto J = m.get_jacobian(l, ids, rot(r), base);
    Transform t; m.get_link_pose(l, t);
    key("link"); out << l; kids("ids", ids); kmat("J", J); kreals("q", q4(t.rotation));
  }
  else if (op == "mass") { key("v"); pr(model().total_mass_); }
  else if (op == "com") { kreals("v", v3(model().get_com())); }
  else if (op == "comjac") {
    auto &m = model(); int base = num(); auto ids = at(m.get_joint_names(), strs());
    auto J = m.get_com_jacobian(ids, base); kids("ids", ids); kmat("J", J);
  }
  else if (op == "inertia") { kmat("I", model().get_total_inertia_matrix()); }
  else if (op == "limits") {
    auto &m = model(); auto ids = at(m.get_joint_names(), strs()); kids("ids", ids);
    auto p = m.get_joint_position_limits(ids); auto v = m.get_joint_velocity_limits(ids); auto e = m.get_joint_effort_limits(ids);
    key("pos"); arr(p, [](const Bound &b) { out << '['; pr(b.first); out << ','; pr(b.second); out << ']'; });
    kreals("vel", v); kreals("eff", e);
  }
  else if (op == "add") {
    auto &m = model(); string mode = tok(), name = str(); size_t par = at(m.get_link_names(), str());
    string kind = tok(); auto p = reals(3); auto r = reals(kind == "rpy" ? 3 : 4);
    key("parent"); out << par;
    try {
      urdf::LinkSharedPtr l;
      if (kind == "rpy" && mode == "arr") l = m.add_new_link(name, par, std::array<double, 3>{p[0], p[1], p[2]}, std::array<double, 3>{r[0], r[1], r[2]});
      else l = m.add_new_link(name, par, pose_arg(kind, p, r));
      kb("ok", true);
      key("id"); out << (l && l->name == name ? long(l->id) : -1L);
    } catch (const std::exception &) { kb("ok", false); }
  }
  else if (op == "copy") { auto &m = model(); string h2 = tok(); slot(h2).reset(new KinematicModel(m)); kb("ok", true); }
  else if (op == "assign") { auto &m = model(); auto &m2 = model(); m2 = m; kb("ok", true); }
  else if (op == "chain") {     // a long chain of links, parsed and dropped
    int n = num(); string order = tok(), kind = tok(), s = "<robot name='r'>"; bool ok;
    auto l = [&](int i) { char b[16]; snprintf(b, 16, "l%07d", order == "up" ? i : n - 1 - i); return string(b); };
    for (int i = 0; i < n; i++) s += "<link name='" + l(i) + "'/>";
    for (int i = 1; i < n; i++) s += "<joint name='j" + l(i) + "' type='fixed'><parent link='" + l(i - 1) + "'/><child link='" + l(i) + "'/></joint>";
    if (kind == "loop") s += "<joint name='k' type='fixed'><parent link='" + l(n - 1) + "'/><child link='" + l(0) + "'/></joint>";
    if (kind == "model") { try { KinematicModel m(s + "</robot>"); ok = true; } catch (const std::exception &) { ok = false; } }
    else ok = bool(urdf::parseURDF(s + "</robot>"));
    kb("ok", ok);
  }
  else if (op == "mem") {
    { std::ostringstream small; small << out.str(); out.swap(small); }      // answers differ in length
    key("held"); out << '[' << held_blocks << ',' << held_bytes << ']';
  }
  else if (op == "destroy") { slot(tok()).reset(); }
  else if (op == "parsed") { int file = num(); parsed(str(), file); }
  else if (op == "reparsed") { int times = num(); parsed(str(), false, times); }
  // rigid transforms
  else if (op == "geo") {
    string f = tok();
    auto P = [] { Transform t; auto p = reals(3), q = reals(4); t.position = Vector3(p[0], p[1], p[2]); t.rotation = Rotation(q[0], q[1], q[2], q[3]); return t; };
    if (f == "rpy") { auto r = reals(3); Transform t; t.rotation.setFromRPY(r[0], r[1], r[2]); key("out"); tf(t); }
    else if (f == "quat") { auto q = reals(4); Transform t; t.rotation.setFromQuaternion(q[0], q[1], q[2], q[3]);
      double a, b, c, d; t.rotation.getQuaternion(a, b, c, d); kreals("got", {a, b, c, d}); key("out"); tf(t); }
    else if (f == "compose") { auto a = P(), b = P(); key("out"); tf(urdf::pose_transform(a, b)); }
    else if (f == "inverse") { auto a = P(); key("out"); tf(a.inverse()); a.inverse_inplace(); key("out2"); tf(a); }
    else if (f == "rinverse") { auto a = P(); Transform t; t.rotation = a.rotation.inverse(); key("out"); tf(t);
      t.rotation = a.rotation.GetInverse(); key("out2"); tf(t); a.rotation.inverse_inplace(); t.rotation = a.rotation; key("out3"); tf(t); }
    else if (f == "apply") { auto a = P(); auto v = reals(3); kreals("out", v3(a.rotation * Vector3(v[0], v[1], v[2]))); }
    else if (f == "vec") { auto a = reals(3), b = reals(3); double s = real(); Vector3 A(a[0], a[1], a[2]), B(b[0], b[1], b[2]), C;
      kreals("sum", v3(A + B)); kreals("diff", v3(A - B)); kreals("quot", v3(A / s));
      urdf::cross_product(A, B, C); kreals("cross", v3(C));
      kreals("idx", {A[0], A[1], A[2]}); A[0] = B[0]; A[1] = B[1]; A[2] = B[2]; kreals("wr", v3(A)); }
    else throw std::logic_error("geo " + f);
  }
  // containers
  else if (op == "watch") { watch = num(); }
  else if (op == "snew") { nstack = num(); stack_ = nstack ? SizedStack<Transform>(nstack) : SizedStack<Transform>(); stack_view(); }
  else if (op == "scopy") {
    SizedStack<Transform> other(stack_);
    stack_.reset(); for (size_t i = 0; i < nstack; i++) stack_.push(elem(77));
    stack_ = other;
    other.reset(); for (size_t i = 0; i < nstack; i++) other.push(elem(78));
    stack_view();
  }
  else if (op == "spush") { stack_.push(elem(real())); stack_view(); }
  else if (op == "spop") { kelem("v", stack_.top()); stack_.pop(); stack_view(); }
  else if (op == "sreset") { stack_.reset(); stack_view(); }
  else if (op == "cnew") { ncache = num(); cache_ = ncache ? SizedCache<Transform>(ncache) : SizedCache<Transform>(); cache_view(); }
  else if (op == "ccopy") {
    SizedCache<Transform> other(cache_);
    cache_.clear(); for (size_t i = 0; i < ncache; i++) cache_.set_cache(i, elem(77));
    cache_ = other;
    other.clear(); for (size_t i = 0; i < ncache; i++) other.set_cache(i, elem(78));
    cache_view();
  }
  else if (op == "cset") { int i = num(); cache_.set_cache(i, elem(real())); cache_view(); }
  else if (op == "cget") { int i = num(); const Transform *t = cache_.get_cache(i); kb("hit", t); if (t) kelem("v", *t); }
  else if (op == "cclear") { cache_.clear(); cache_view(); }
  else if (op == "cextend") { cache_.extend(); ncache++; cache_view(); }
  else throw std::logic_error("unknown op " + op);
}

static string answer(const string &line) {
  if (line.compare(0, 6, "times ") == 0) {    // the same call over and over; the last answer counts
    size_t at = line.find(' ', 6); string last;
    for (long n = std::stol(line.substr(6, at - 6)); n > 0; n--) last = answer(line.substr(at + 1));
    return last;
  }
  in.clear(); in.str(line); out.str(""); out << '{';
  try { step(tok()); }
  catch (const NoId &) { out.str(""); out << "{\"e\":\"NoId\""; }
  catch (const std::logic_error &e) {
    if (dynamic_cast<const std::invalid_argument *>(&e) || dynamic_cast<const std::out_of_range *>(&e)) {
      out.str(""); out << "{\"e\":\"Raised\",\"what\":"; pj(e.what());
    } else { std::cerr << "driver: " << e.what() << "\n"; exit(3); }
  }
  catch (const std::exception &e) { out.str(""); out << "{\"e\":\"Raised\",\"what\":"; pj(e.what()); }
  out << "}\n"; return out.str();
}

// '@<thread> <operation>' waits for 'par <handles>'; then every thread carries out its operations, at the same time
static void together(const vector<string> &waiting, const vector<string> &handles) {
  for (auto &h : handles) models[h];      // from here on the directory of models stays as it is
  std::map<string, vector<size_t>> todo;
  for (size_t i = 0; i < waiting.size(); i++) todo[waiting[i].substr(0, waiting[i].find(' '))].push_back(i);
  vector<string> said(waiting.size());
  vector<std::thread> ts;
  for (auto &t : todo) {
    const vector<size_t> &mine = t.second;
    ts.emplace_back([&waiting, &said, &mine] { for (size_t i : mine) said[i] = answer(waiting[i].substr(waiting[i].find(' ') + 1)); });
  }
  for (auto &t : ts) t.join();
  for (auto &x : said) std::cout << x;
}

int main() {
  __sanitizer_install_malloc_and_free_hooks(taken, given);
  string line;
  vector<string> waiting;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    if (line[0] == '@') { waiting.push_back(line); continue; }
    if (line.compare(0, 4, "par ") == 0) {
      std::istringstream is(line.substr(4)); vector<string> hs; string h;
      while (is >> h) hs.push_back(h);
      together(waiting, hs); waiting.clear();
      std::cout << "{}\n" << std::flush;
      continue;
    }
    std::cout << answer(line) << std::flush;
  }
  return 0;
}
