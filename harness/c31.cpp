// VF_FLAGS: -I@REPO@/libs/testlib/include -lCatch2
// C31: the Catch2 matchers and string makers of libs/testlib
#include <string>
#include <ostream>
#include <iomanip>
#include <sstream>
#include <catch2/catch_test_macros.hpp>
#include <catch2/catch_tostring.hpp>
#include <catch2/matchers/catch_matchers_floating_point.hpp>
#include <catch2/internal/catch_enforce.hpp>
#include "vf.h"
#include "mathlib_testlib.h"
using namespace vf;
using namespace mathlib;
// the components of a value, in the order they are printed
template <class R> void comps(Vec2<R>& v, std::vector<R*>& o) { o.push_back(&v.x); o.push_back(&v.y); }
template <class R> void comps(Vec3<R>& v, std::vector<R*>& o) { o.push_back(&v.x); o.push_back(&v.y); o.push_back(&v.z); }
template <class R> void comps(Vec4<R>& v, std::vector<R*>& o) { o.push_back(&v.x); o.push_back(&v.y); o.push_back(&v.z); o.push_back(&v.w); }
template <class R> void comps(Quat<R>& v, std::vector<R*>& o) { o.push_back(&v.x); o.push_back(&v.y); o.push_back(&v.z); o.push_back(&v.w); }
template <class R> void comps(Mat2<R>& m, std::vector<R*>& o) { comps(m.x, o); comps(m.y, o); }
template <class R> void comps(Mat3<R>& m, std::vector<R*>& o) { comps(m.x, o); comps(m.y, o); comps(m.z, o); }
template <class R> void comps(Mat4<R>& m, std::vector<R*>& o) { comps(m.x, o); comps(m.y, o); comps(m.z, o); comps(m.t, o); }
template <class R> void comps(Mat34<R>& m, std::vector<R*>& o) { comps(m.rs, o); comps(m.t, o); }
template <class R> void comps(AABB2<R>& b, std::vector<R*>& o) { comps(b.inf, o); comps(b.sup, o); }
template <class R> void comps(AABB3<R>& b, std::vector<R*>& o) { comps(b.inf, o); comps(b.sup, o); }
template <class R> void comps(CAABB2<R>& b, std::vector<R*>& o) { comps(b.center, o); comps(b.extents, o); }
template <class R> void comps(CAABB3<R>& b, std::vector<R*>& o) { comps(b.center, o); comps(b.extents, o); }
template <class R> void comps(ColorRGB<R>& c, std::vector<R*>& o) { o.push_back(&c.r); o.push_back(&c.g); o.push_back(&c.b); }
template <class R> void comps(ColorRGBA<R>& c, std::vector<R*>& o) { o.push_back(&c.r); o.push_back(&c.g); o.push_back(&c.b); o.push_back(&c.a); }
template <class R> void comps(ColorHSV<R>& c, std::vector<R*>& o) { o.push_back(&c.h); o.push_back(&c.s); o.push_back(&c.v); }
template <class R> void comps(Line2<R>& l, std::vector<R*>& o) { comps(l.start, o); comps(l.end, o); }
template <class R> void comps(Line3<R>& l, std::vector<R*>& o) { comps(l.start, o); comps(l.end, o); }
template <class R> void comps(Ray2<R>& l, std::vector<R*>& o) { comps(l.start, o); comps(l.direction, o); }
template <class R> void comps(Ray3<R>& l, std::vector<R*>& o) { comps(l.start, o); comps(l.direction, o); }
template <class R> void comps(Plane<R>& p, std::vector<R*>& o) { comps(p.normal, o); o.push_back(&p.d); }
template <class R> void comps(Circle<R>& p, std::vector<R*>& o) { comps(p.center, o); o.push_back(&p.radius); }
template <class R> void comps(Sphere<R>& p, std::vector<R*>& o) { comps(p.center, o); o.push_back(&p.radius); }
template <class R> void comps(Frustum<R>& f, std::vector<R*>& o) { for (int i = 0; i < 8; i++) comps(f.corners[i], o); }

template <class T> T zeroed() { T t{}; return t; }
template <class M, class T> bool matches(const M& m, const T& t) { const Catch::Matchers::MatcherBase<T>& b = m; return b.match(t); }

template <class R, template <class> class K, int digits> void matcher(Case& c) {
	typedef K<R> T;
	T target = zeroed<T>(); std::vector<R*> t; comps(target, t); int n = int(t.size());
	for (auto p : t) *p = c.in("t", R(c.r.p(0.1) ? c.r.sgn() * c.r.logu(1e-6, 1e6) : gReal<R>(c.r)));
	double margin; switch (c.r.n(4)) { case 0: margin = 1e-3; break; case 1: margin = 0; break; default: margin = c.r.logu(1e-3, 1e3); } c.in("margin", margin);
	// the matchee: every component well within, then perhaps exactly one component outside (or NaN)
	T got = target; std::vector<R*> g; comps(got, g);
	int kind = c.in("kind", c.r.n(5)), bad = c.in("bad", c.r.n(n)); bool over = c.r.p(0.5);
	if (kind != 0) for (int i = 0; i < n; i++) *g[i] = R(*t[i] + c.r.uni(-0.99, 0.99) * margin);
	if (kind == 2) *g[bad] = R(*t[bad] + (over ? 1 : -1) * margin * c.r.logu(1.02, 100));
	if (kind == 3) *g[bad] = R(*t[bad] + (over ? 1 : -1) * (margin * 3 + std::fabs(*t[bad])));
	if (kind == 4) *g[bad] = c.r.p(0.5) ? std::numeric_limits<R>::quiet_NaN() : R(c.r.sgn()) * std::numeric_limits<R>::infinity();
	bool in = true, edge = false; double worst = 0;
	for (int i = 0; i < n; i++) { L d = fabsl((L)*g[i] - (L)*t[i]); if (!(d <= margin)) in = false; if (d != 0 && margin != 0 && fabsl(d - margin) <= 1e-12L * (fabsl(*t[i]) + fabsl(*g[i]) + margin)) edge = true; if (margin == 0 && d != 0 && d <= 1e-14L * fabsl(*t[i])) edge = true; worst = std::max(worst, double(d)); }
	c.cls("matches", in && !edge); c.cls("does not match", !in && !edge); c.cls("one component outside", kind == 2 || kind == 3); c.cls("not a number", kind == 4); c.cls("zero margin", margin == 0); c.cls("undecided", edge);
	if (edge) return;
	c.chk(Matches::marginCheck(got, target, margin) == in, "marginCheck", "component %d, largest difference %.17g", bad, worst);
	c.chk(Matches::marginCheck(target, got, margin) == in, "marginCheck is symmetric", "component %d, largest difference %.17g", bad, worst);
	auto m = Matches::WithinAbs(target, margin);
	c.chk(matches(m, got) == in, "WithinAbs", "component %d, largest difference %.17g", bad, worst);
	c.chk(matches(m, target), "WithinAbs matches its own target");
	if (std::fabs(worst - 1e-3) > 1e-6 || worst != worst) { bool d = true; for (int i = 0; i < n; i++) if (!(fabsl((L)*g[i] - (L)*t[i]) <= 1e-3L)) d = false; c.cls("default margin matches", d); auto md = Matches::WithinAbs(target); c.chk(matches(md, got) == d, "WithinAbs default margin", "largest difference %.17g", worst); }
}
// what a failing assertion prints: every component, in order, and the margin
std::mutex catchMutex;      // Catch2's own stream pool is not meant to be shared by threads
template <class R, template <class> class K, int digits> void printing(Case& c) {
	std::lock_guard<std::mutex> guard(catchMutex);
	typedef K<R> T;
	T v = zeroed<T>(); std::vector<R*> t; comps(v, t); int n = int(t.size());
	for (auto p : t) *p = c.in("t", R(c.r.p(0.3) ? c.r.sgn() * c.r.logu(1e-20, 1e20) : gReal<R>(c.r)));
	std::string s = Catch::StringMaker<T>::convert(v); auto parse = [](const std::string& s) { std::vector<double> o; const char* p = s.c_str(); while (*p) { char* e; if ((*p >= '0' && *p <= '9') || ((*p == '-' || *p == '+') && p[1] >= '0' && p[1] <= '9')) { o.push_back(strtod(p, &e)); p = e; } else p++; } return o; };
	auto cmp = [&](const std::vector<double>& o, size_t from, const char* site) { bool ok = o.size() == from + n; for (int i = 0; ok && i < n; i++) { L tol = digits == 4 ? 1.0e-4L : 1e-15L; ok = fabsl((L)o[from + i] - (L)*t[i]) <= tol * fabsl((L)*t[i]); } c.chk(ok, site, "%s", s.c_str()); };
	cmp(parse(s), 0, "every component is printed in order"); c.chk(Catch::Detail::stringify(v) == s, "the string maker is used");
	double margin = c.r.p(0.5) ? 1e-3 : c.in("margin", c.r.in(1, 1000) / 8.0); auto m = Matches::WithinAbs(v, margin); std::string d = static_cast<const Catch::Matchers::MatcherUntypedBase&>(m).toString(); std::vector<double> o = parse(d);
	c.chk(o.size() == size_t(n) + 1 && std::fabs(o[0] - margin) <= 1e-6 * margin, "the description names the margin", "%s", d.c_str()); cmp(o, 1, "the description names the target"); c.chk(d.find(s) != std::string::npos, "the description names the target as it is printed", "%s", d.c_str());
	bool thrown = false; try { auto x = Matches::WithinAbs(v, -margin); (void)x; } catch (const std::exception&) { thrown = true; } catch (...) { thrown = true; }
	c.chk(thrown, "a negative margin is refused"); c.cls("printed");
}
#define ONE(K, d) \
	vf::reg("matcher " #K ".f", 6000, matcher<float, K, d>, {"matches", "does not match", "one component outside", "not a number", "zero margin", "default margin matches"}); \
	vf::reg("matcher " #K ".d", 6000, matcher<double, K, d>, {"matches", "does not match", "one component outside", "not a number", "zero margin", "default margin matches"}); \
	vf::reg("printing " #K ".f", 400, printing<float, K, d>, {"printed"}); \
	vf::reg("printing " #K ".d", 400, printing<double, K, d>, {"printed"});
void vf::registerAll() {
	ONE(Vec2, 16) ONE(Vec3, 16) ONE(Vec4, 16) ONE(Quat, 16) ONE(Mat2, 4) ONE(Mat3, 4) ONE(Mat4, 4) ONE(Mat34, 4) ONE(AABB2, 16) ONE(AABB3, 16) ONE(CAABB2, 16) ONE(CAABB3, 16)
	ONE(ColorRGB, 16) ONE(ColorRGBA, 16) ONE(ColorHSV, 16) ONE(Line2, 16) ONE(Line3, 16) ONE(Ray2, 16) ONE(Ray3, 16) ONE(Plane, 16) ONE(Circle, 16) ONE(Sphere, 16) ONE(Frustum, 4)
}
VF_MAIN()
