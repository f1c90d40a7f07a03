// C26: splines through points
#include "vf.h"
#include "scale.h"
using namespace vf;
using namespace mathlib;
template <class R> L co(const Vec3<R>& v, int k) { return k == 0 ? v.x : k == 1 ? v.y : v.z; }
template <class R> struct Job { int n; std::vector<Vec3<R>> p1, p2, p3, keep; L m; };
template <class R> Job<R> gJob(Case& c, int n, int m) {
	Job<R> j; j.n = n; j.m = 0; c.in("n", n); Vec3<R> o = c.r.p(0.15) ? gVec3<R>(c.r) * R(100) : Vec3<R>::Zero; R k = c.r.p(0.15) ? gScale<R>(c.r) : R(1); int shape = c.r.n(6);
	for (int i = 0; i < n; i++) { Vec3<R> v; if (shape == 0) v = Vec3<R>(R(i), R(0), R(0)); else if (shape == 1 && i && c.r.p(0.4)) v = j.p1[c.r.n(i)]; else v = gVec3<R>(c.r) * k + o; j.p1.push_back(v); if (c.log && i < 12) c.in("p", v); else for (int q = 0; q < 3; q++) c.hash(co(v, q)); for (int q = 0; q < 3; q++) j.m = std::max(j.m, fabsl(co(v, q))); }
	Vec3<R> poison(R(1e30), R(-1e30), R(1e30)); j.p2.assign(m, poison); j.p3.assign(m, poison); j.keep = j.p1; return j;
}
template <class R> void inputs(Case& c, const Job<R>& j) { for (int i = 0; i < j.n; i++) same(c, j.p1[i], j.keep[i], "the points are not modified"); }
// joint at p: incoming (a2 a3) outgoing (b2 b3)
template <class R> void joint(Case& c, const Vec3<R>& p, const Vec3<R>& a2, const Vec3<R>& a3, const Vec3<R>& b2, const Vec3<R>& b3, L tol) {
	for (int k = 0; k < 3; k++) { L i = co(p, k) - co(a3, k), o = co(b2, k) - co(p, k); c.chk(fabsl(i - o) <= tol, "first derivatives meet", "in %.17Lg out %.17Lg (+-%.3Lg)", 3 * i, 3 * o, tol); L i2 = co(p, k) - 2 * co(a3, k) + co(a2, k), o2 = co(p, k) - 2 * co(b2, k) + co(b3, k); c.chk(fabsl(i2 - o2) <= 3 * tol, "second derivatives meet", "in %.17Lg out %.17Lg (+-%.3Lg)", 6 * i2, 6 * o2, tol); }
}
template <class R> int gN(Rng& r, int big) { if (r.p(0.001)) return big < 100 ? r.in(60, 130) : r.p(0.1) ? r.in(32700, 70000) : r.in(250, 3000); switch (r.n(12)) { case 0: case 1: return 2; case 2: case 3: return 3; case 4: return 4; case 5: return r.in(big / 2, big); default: return r.in(5, 14); } }
template <class R> void natural(Case& c) {
	int n = gN<R>(c.r, 120); Job<R> j = gJob<R>(c, n, n - 1); bool ok = SplineSolver3<R>::naturalBezierSpline(n, j.p1.data(), j.p2.data(), j.p3.data()); c.cls("two points", n == 2); c.cls("three points", n == 3); c.cls("many points", n > 50); c.cls("very many points", n > 200); if (!c.chk(ok, "a natural spline exists")) return; inputs(c, j); L tol = 48 * E<R>::u() * j.m; int m = n - 1;
	for (int i = 1; i < m; i++) joint(c, j.p1[i], j.p2[i - 1], j.p3[i - 1], j.p2[i], j.p3[i], tol);
	for (int k = 0; k < 3; k++) { c.nearAbs(R(0), co(j.p1[0], k) - 2 * co(j.p2[0], k) + co(j.p3[0], k), 3 * tol, "no curvature at the start of a natural spline"); c.nearAbs(R(0), co(j.p2[m - 1], k) - 2 * co(j.p3[m - 1], k) + co(j.p1[m], k), 3 * tol, "no curvature at the end of a natural spline"); }
	if (n == 2) for (int k = 0; k < 3; k++) { c.nearAbs(R(co(j.p2[0], k)), (2 * co(j.p1[0], k) + co(j.p1[1], k)) / 3, tol, "two points: a straight line"); c.nearAbs(R(co(j.p3[0], k)), (co(j.p1[0], k) + 2 * co(j.p1[1], k)) / 3, tol, "two points: a straight line"); }
	// evaluated through the segments
	if (m >= 2) { int i = c.r.n(m - 1); BezierSegment3<R> a(j.p1[i], j.p2[i], j.p3[i], j.p1[i + 1]), b(j.p1[i + 1], j.p2[i + 1], j.p3[i + 1], j.p1[i + 2]); Vec3<R> e = a.tangentAt(R(1)) - b.tangentAt(R(0)); for (int k = 0; k < 3; k++) c.nearAbs(R(co(e, k)), 0, 40 * tol, "the spline is smooth where segments meet"); }
}
template <class R> void clamped(Case& c) {
	int n = gN<R>(c.r, 120); Job<R> j = gJob<R>(c, n, n - 1); Vec3<R> s = c.in("p2start", gVec3<R>(c.r)), e = c.in("p3end", gVec3<R>(c.r)); for (int k = 0; k < 3; k++) j.m = std::max(j.m, std::max(fabsl(co(s, k)), fabsl(co(e, k))));
	bool ok = SplineSolver3<R>::bezierSpline(n, j.p1.data(), s, e, j.p2.data(), j.p3.data()); c.cls("two points", n == 2); c.cls("three points", n == 3); c.cls("many points", n > 50); c.cls("very many points", n > 200); if (!c.chk(ok, "a clamped spline exists")) return; inputs(c, j); L tol = 48 * E<R>::u() * j.m; int m = n - 1;
	for (int i = 1; i < m; i++) joint(c, j.p1[i], j.p2[i - 1], j.p3[i - 1], j.p2[i], j.p3[i], tol);
	for (int k = 0; k < 3; k++) { c.nearAbs(R(co(j.p2[0], k)), co(s, k), tol, "a clamped spline leaves through p2start"); c.nearAbs(R(co(j.p3[m - 1], k)), co(e, k), tol, "a clamped spline arrives through p3end"); }
}
template <class R> void closed(Case& c) {
	int n = gN<R>(c.r, 24); Job<R> j = gJob<R>(c, n, n); bool ok = SplineSolver3<R>::closedBezierSpline(n, j.p1.data(), j.p2.data(), j.p3.data()); c.cls("two points", n == 2); c.cls("three points", n == 3); c.cls("many points", n > 12); c.cls("very many points", n > 50); if (!c.chk(ok, "a closed spline exists")) return; inputs(c, j); L tol = 96 * E<R>::u() * j.m;
	for (int i = 0; i < n; i++) { int h = (i + n - 1) % n; joint(c, j.p1[i], j.p2[h], j.p3[h], j.p2[i], j.p3[i], tol); }
	// starting at another point gives the same curve
	int sh = c.r.n(n); std::vector<Vec3<R>> q(n), q2(n), q3(n); for (int i = 0; i < n; i++) q[i] = j.p1[(i + sh) % n]; if (c.chk(SplineSolver3<R>::closedBezierSpline(n, q.data(), q2.data(), q3.data()), "a closed spline exists")) for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) { c.nearAbs(R(co(q2[i], k)), co(j.p2[(i + sh) % n], k), 2 * tol, "a closed spline does not depend on the starting point"); c.nearAbs(R(co(q3[i], k)), co(j.p3[(i + sh) % n], k), 2 * tol, "a closed spline does not depend on the starting point"); }
}
// splines in another unit of length
template <class R> void scaled(Case& c) {
	int n = c.in("n", c.r.in(2, 8)); std::vector<Vec3<R>> p; for (int i = 0; i < n + 2; i++) p.push_back(c.in("p", gSim3<R>(c.r)));
	similar<R>(c, "splines in another unit of length", 1, [&](Sc<R>& o) {
		std::vector<Vec3<R>> q, a(n), b(n); for (auto& v : p) q.push_back(o.len(v)); auto all = [&](int m) { for (int i = 0; i < m; i++) { o.v(a[i], 1); o.v(b[i], 1); } };
		if (o.b(SplineSolver3<R>::naturalBezierSpline(n, q.data(), a.data(), b.data()))) all(n - 1); if (o.b(SplineSolver3<R>::bezierSpline(n, q.data(), q[n], q[n + 1], a.data(), b.data()))) all(n - 1); if (o.b(SplineSolver3<R>::closedBezierSpline(n, q.data(), a.data(), b.data()))) all(n); });
}
void vf::registerAll() {
	VF_BOTH(natural, "natural", 40000, "two points", "three points", "many points", "very many points");
	VF_BOTH(clamped, "clamped", 40000, "two points", "three points", "many points", "very many points");
	VF_BOTH(closed, "closed", 25000, "two points", "three points", "many points", "very many points");
	VF_BOTH(scaled, "another unit", 30000);
}
VF_MAIN()
