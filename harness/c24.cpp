// C24: Hermite segments
#include "vf.h"
#include "scale.h"
using namespace vf;
using namespace mathlib;
template <class R> R gT(Rng& r) { switch (r.n(6)) { case 0: return R(0); case 1: return R(1); case 2: return R(r.n(9)) / 8; case 3: return R(r.logu(1e-6, 0.1)); case 4: return R(1 - r.logu(1e-6, 0.1)); default: return R(r.u01()); } }
struct Hb { L p1, p4, r1, r4; }; static Hb basis(L t) { return {(1 + 2 * t) * (1 - t) * (1 - t), t * t * (3 - 2 * t), t * (1 - t) * (1 - t), t * t * (t - 1)}; } static Hb dbasis(L t) { return {6 * t * t - 6 * t, 6 * t - 6 * t * t, 3 * t * t - 4 * t + 1, 3 * t * t - 2 * t}; }
template <class R> struct Pts { Vec3<R> p1, p4, r1, r4; L m; };
template <class R> Pts<R> gPts(Case& c) { Pts<R> s; s.p1 = c.in("p1", gVec3<R>(c.r)); s.p4 = c.in("p4", c.r.p(0.05) ? s.p1 : gVec3<R>(c.r)); s.r1 = c.in("r1", gVec3<R>(c.r)); s.r4 = c.in("r4", c.r.p(0.1) ? s.r1 : gVec3<R>(c.r)); s.m = 0; for (auto& v : {s.p1, s.p4, s.r1, s.r4}) s.m = std::max(s.m, fabsl((L)v.x) + fabsl((L)v.y) + fabsl((L)v.z)); return s; }
template <class R> void vec(Case& c, const Vec3<R>& got, const Pts<R>& s, const Hb& b, L tol, const char* site) { for (int i = 0; i < 3; i++) { auto g = [i](const Vec3<R>& v) { return (L)(i == 0 ? v.x : i == 1 ? v.y : v.z); }; c.nearAbs(R(g(got)), g(s.p1) * b.p1 + g(s.p4) * b.p4 + g(s.r1) * b.r1 + g(s.r4) * b.r4, tol, site); } }
template <class R> void segment(Case& c) {
	typedef HermiteSplineSegment3<R> H; Pts<R> s = gPts<R>(c); H h(s.p1, s.p4, s.r1, s.r4), k; k.set(s.p1, s.p4, s.r1, s.r4); L u = E<R>::u(), tol = 24 * u * s.m;
	for (H* x : {&h, &k}) { same(c, x->p1(), s.p1, "p1"); same(c, x->p4(), s.p4, "p4"); same(c, x->r1(), s.r1, "r1"); same(c, x->r4(), s.r4, "r4"); }
	R t = c.in("t", gT<R>(c.r)); c.cls("start", t == 0); c.cls("end", t == 1); c.cls("between", t > 0 && t < 1);
	vec(c, h.pointAt(t), s, basis(t), tol, "pointAt"); vec(c, h.tangentAt(t), s, dbasis(t), 2 * tol, "tangentAt"); vec(c, k.pointAt(t), s, basis(t), tol, "pointAt after set"); vec(c, k.tangentAt(t), s, dbasis(t), 2 * tol, "tangentAt after set");
	// ends: interpolates points and tangents
	Hb e0 = {1, 0, 0, 0}, e1 = {0, 1, 0, 0}, d0 = {0, 0, 1, 0}, d1 = {0, 0, 0, 1}; vec(c, h.pointAt(R(0)), s, e0, tol, "starts at p1"); vec(c, h.pointAt(R(1)), s, e1, tol, "ends at p4"); vec(c, h.tangentAt(R(0)), s, d0, 2 * tol, "starts along r1"); vec(c, h.tangentAt(R(1)), s, d1, 2 * tol, "ends along r4");
	// reversal, through the segment's own accessors
	H q = h; q.set(q.p4(), q.p1(), q.r1(), q.r4()); same(c, q.p1(), s.p4, "set from own points"); same(c, q.p4(), s.p1, "set from own points"); H v(s.p4, s.p1, -s.r4, -s.r1); R tr = R(1) - t; Vec3<R> a = v.pointAt(tr); vec(c, a, s, basis(1 - (L)tr), tol, "reversed segment"); vec(c, -v.tangentAt(tr), s, dbasis(1 - (L)tr), 2 * tol, "reversed segment tangent");
	// the same curve as a Bezier segment
	BezierSegment3<R> b(s.p1, s.p1 + s.r1 / R(3), s.p4 - s.r4 / R(3), s.p4); vec(c, b.pointAt(t), s, basis(t), 2 * tol, "Bezier form"); vec(c, b.tangentAt(t), s, dbasis(t), 8 * tol, "Bezier form tangent"); 
	// translating the points translates the curve
	Vec3<R> o = c.in("o", gVec3<R>(c.r)); H w(s.p1 + o, s.p4 + o, s.r1, s.r4); Vec3<R> d = w.pointAt(t) - h.pointAt(t); L om = fabsl((L)o.x) + fabsl((L)o.y) + fabsl((L)o.z); c.nearAbs(d.x, o.x, 2 * tol + 24 * u * om, "translation"); c.nearAbs(d.y, o.y, 2 * tol + 24 * u * om, "translation"); c.nearAbs(d.z, o.z, 2 * tol + 24 * u * om, "translation");
}
template <class R> void functions(Case& c) {
	typedef HermiteSplineSegment3<R> H; R t = c.in("t", c.r.p(0.7) ? gT<R>(c.r) : R(c.r.uni(-2, 3))); Hb b = basis(t), d = dbasis(t); L a = fabsl((L)t) + 1, tol = 12 * E<R>::u() * a * a * a, td = 24 * E<R>::u() * a * a; c.cls("outside 0..1", t < 0 || t > 1);
	c.nearAbs(H::hp1(t), b.p1, tol, "hp1"); c.nearAbs(H::hp4(t), b.p4, tol, "hp4"); c.nearAbs(H::hr1(t), b.r1, tol, "hr1"); c.nearAbs(H::hr4(t), b.r4, tol, "hr4"); c.nearAbs(H::dhp1(t), d.p1, td, "dhp1"); c.nearAbs(H::dhp4(t), d.p4, td, "dhp4"); c.nearAbs(H::dhr1(t), d.r1, td, "dhr1"); c.nearAbs(H::dhr4(t), d.r4, td, "dhr4");
	c.nearAbs(R(H::hp1(t) + H::hp4(t)), 1, 2 * tol, "hp1 + hp4 is 1"); c.nearAbs(R(H::dhp1(t) + H::dhp4(t)), 0, 2 * td, "dhp1 + dhp4 is 0");
}
// curves in another unit of length
template <class R> void scaled(Case& c) {
	Vec3<R> p[4]; for (auto& v : p) v = c.in("p", gSim3<R>(c.r)); R t = c.in("t", R(c.r.uni(0, 1)));
	similar<R>(c, "Hermite segments in another unit of length", 1, [&](Sc<R>& o) { HermiteSplineSegment3<R> h(o.len(p[0]), o.len(p[1]), o.len(p[2]), o.len(p[3])); o.v(h.pointAt(t), 1); o.v(h.tangentAt(t), 1); });
}
void vf::registerAll() {
	VF_BOTH(segment, "segment", 250000, "start", "end", "between");
	VF_BOTH(functions, "functions", 100000, "outside 0..1");
	VF_BOTH(scaled, "another unit", 30000);
}
VF_MAIN()
