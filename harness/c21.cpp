// C21: planes
#include "geo.h"
#include "alias.h"
#include "scale.h"
using namespace vf;
using namespace mathlib;
template <class R> using X = E<R>;
template <class R> V3<R> unit(const V3<R>& v) { E<R> l = len(v); return V3<R>(v.x / l, v.y / l, v.z / l); }
template <class R> bool finite3(const V3<R>& v, L cap) { return v.x.e < cap && v.y.e < cap && v.z.e < cap; }
template <class R> bool samePlane(const Plane<R>& a, const Plane<R>& b) { return a.normal.x == b.normal.x && a.normal.y == b.normal.y && a.normal.z == b.normal.z && a.d == b.d; }
template <class R> Vec3<R> gN(Rng& r) { return r.p(0.3) ? gUnit3<R>(r) : gUnit3<R>(r) * R(r.logu(0.05, 50)); }
template <class R> Plane<R> gPlane(Case& c, const char* n) {
	Vec3<R> u = gUnit3<R>(c.r); R d = c.r.p(0.1) ? R(0) : gReal<R>(c.r); Plane<R> p; p.normal = u; p.d = d; c.in(n, u); c.in("d", d); return p;
}
// signed distance with its error bound
template <class R> E<R> sd(const Plane<R>& p, const Vec3<R>& q) { return dot(V3<R>(q), V3<R>(p.normal)) - E<R>(p.d); }
// a point at (about) distance k from the plane
template <class R> Vec3<R> gAt(Rng& r, const Plane<R>& p, R k) { Vec3<R> q = gVec3<R>(r); R t = p.normal * q - p.d; return q - p.normal * (t - k); }

template <class R> void build(Case& c) {
	typedef Vec3<R> V; typedef Plane<R> P; typedef E<R> XX;
	V n = c.in("n", gN<R>(c.r)), q = c.in("q", gVec3<R>(c.r)); R d = c.in("d", gReal<R>(c.r)); V3<R> u = unit(V3<R>(n));
	P a = P::from(n, d), b; P& r1 = b.set(n, d); c.chk(&r1 == &b, "set returns the plane"); near(c, b.normal, u, "set(normal, distance)"); c.same(b.d, d, "set(normal, distance)"); near(c, a.normal, u, "from(normal, distance)"); c.same(a.d, d, "from(normal, distance)");
	P e = P::from(q, n), f; P& r2 = f.set(q, n); c.chk(&r2 == &f, "set returns the plane"); near(c, f.normal, u, "set(point, normal)"); c.near(f.d, dot(u, V3<R>(q)), "set(point, normal)"); near(c, e.normal, u, "from(point, normal)"); c.near(e.d, dot(u, V3<R>(q)), "from(point, normal)");
	c.chk(e.contains(q, R(200) * R(E<R>::u()) * (mathlib::abs(q.x) + mathlib::abs(q.y) + mathlib::abs(q.z) + R(1e-30))), "the plane contains its point"); c.nearAbs(e.normal.length(), 1, 8 * E<R>::u(), "the normal has unit length");
	V t1 = c.in("u", gN<R>(c.r)), t2 = c.in("v", gN<R>(c.r)); V3<R> cr = cross(V3<R>(t1), V3<R>(t2)); XX cl = len(cr);
	if (cl.v > 0 && std::max(cr.x.e, std::max(cr.y.e, cr.z.e)) < 0.02L * cl.v) {
		V3<R> w = unit(cr); P g = P::fromPointAndTangents(q, t1, t2), h; P& r3 = h.setFromPointAndTangents(q, t1, t2); c.chk(&r3 == &h, "set returns the plane"); near(c, h.normal, w, "setFromPointAndTangents"); c.near(h.d, dot(w, V3<R>(q)), "setFromPointAndTangents"); near(c, g.normal, w, "fromPointAndTangents"); c.near(g.d, dot(w, V3<R>(q)), "fromPointAndTangents"); c.cls("tangents");
		c.chk((t1 % t2) * g.normal > 0, "orientation of the tangents");
	}
	V pb = c.in("b", V(q + t1)), pc = c.in("c", V(q + t2)); V3<R> ab = V3<R>(pb) - V3<R>(q), ac = V3<R>(pc) - V3<R>(q), cr2 = cross(ab, ac); XX cl2 = len(cr2);
	if (cl2.v > 0 && std::max(cr2.x.e, std::max(cr2.y.e, cr2.z.e)) < 0.02L * cl2.v) {
		V3<R> w = unit(cr2); P g = P::from(q, pb, pc), h; P& r4 = h.set(q, pb, pc); c.chk(&r4 == &h, "set returns the plane"); near(c, h.normal, w, "set(a, b, c)"); c.near(h.d, dot(w, V3<R>(q)), "set(a, b, c)"); near(c, g.normal, w, "from(a, b, c)"); c.near(g.d, dot(w, V3<R>(q)), "from(a, b, c)");
		L m = std::max(w.x.e, std::max(w.y.e, w.z.e)); for (const V& z : {q, pb, pc}) { L s = fabsl((L)z.x) + fabsl((L)z.y) + fabsl((L)z.z) + fabsl((L)q.x) + fabsl((L)q.y) + fabsl((L)q.z); c.chk(mathlib::abs(g.distance(z)) <= 20 * (m + E<R>::u()) * s, "the plane passes through its three points", "distance %.17g", double(g.distance(z))); } c.cls("three points");
	}
	P k = P::from(e, d), l; P& r5 = l.set(e, d); c.chk(&r5 == &l, "set returns the plane"); same(c, l.normal, e.normal, "a parallel plane keeps the normal (set)"); c.near(l.d, XX(e.d) + XX(d), "set(plane, distance)"); same(c, k.normal, e.normal, "a parallel plane keeps the normal"); c.near(k.d, XX(e.d) + XX(d), "from(plane, distance)");
	P m = e.moved(d); same(c, m.normal, e.normal, "moved keeps the normal"); c.near(m.d, XX(e.d) + XX(d), "moved"); P mm = e; P& r6 = mm.move(d); c.chk(&r6 == &mm, "move returns the plane"); same(c, mm.normal, e.normal, "move keeps the normal"); c.near(mm.d, XX(e.d) + XX(d), "move");
	P fl = e.flipped(); same(c, fl.normal, -e.normal, "flipped"); c.same(fl.d, -e.d, "flipped"); P ff = e; P& r7 = ff.flip(); c.chk(&r7 == &ff && samePlane(ff, fl), "flip agrees with flipped"); P s = e; s.set(s, d); same(c, s.normal, e.normal, "parallel plane of itself"); c.near(s.d, XX(e.d) + XX(d), "parallel plane of itself");
	P ct(n, d); same(c, ct.normal, n, "constructor keeps the values"); c.same(ct.d, d, "constructor keeps the values");
	int ch = c.r.n(5); P z = e; if (ch == 0) z.normal.x += 1; else if (ch == 1) z.normal.y += 1; else if (ch == 2) z.normal.z += 1; else if (ch == 3) z.d = std::nextafter(z.d, R(1e30)); c.chk((z == e) == (ch == 4), "=="); c.chk((z != e) == (ch != 4), "!="); c.cls("equal", ch == 4);
	const P& ce = e; c.same(ce.data()[0], e.normal.x, "data"); c.same(ce.data()[1], e.normal.y, "data"); c.same(ce.data()[2], e.normal.z, "data"); c.same(ce.data()[3], e.d, "data"); c.chk(e.data() == ce.data(), "data aliases the object");
	auto cf = e.template cast<float>(); auto cd = e.template cast<double>(); c.same(cf.normal.x, float(e.normal.x), "cast"); c.same(cf.normal.y, float(e.normal.y), "cast"); c.same(cf.normal.z, float(e.normal.z), "cast"); c.same(cf.d, float(e.d), "cast"); c.same(cd.normal.z, double(e.normal.z), "cast"); c.same(cd.d, double(e.d), "cast");
	c.same(P::XY.distance(q), q.z, "XY"); c.same(P::YZ.distance(q), q.x, "YZ"); c.same(P::ZX.distance(q), q.y, "ZX");
	// the axes form right-handed coordinate planes
	c.chk(P::from(V::Zero, V::OneX, V::OneY) == P::XY, "XY spans x and y"); c.chk(P::from(V::Zero, V::OneY, V::OneZ) == P::YZ, "YZ spans y and z"); c.chk(P::from(V::Zero, V::OneZ, V::OneX) == P::ZX, "ZX spans z and x");
}
template <class R> void dist(Case& c) {
	typedef Vec3<R> V; typedef E<R> XX; Plane<R> p = gPlane<R>(c, "n"); V q = c.in("q", c.r.p(0.3) ? gAt<R>(c.r, p, R(0)) : gVec3<R>(c.r)); XX s = sd(p, q);
	c.cls("front", s.v > 6 * s.e); c.cls("behind", s.v < -6 * s.e); c.cls("on", fabsl(s.v) <= 6 * s.e);
	c.near(p.distance(q), s, "signed distance"); R tol = c.in("tol", R(std::fabs(double(s.v)) * (c.r.p(0.3) ? 1 + c.r.sgn() * c.r.logu(1e-5, 0.3) : c.r.uni(0, 2))));
	L g = fabsl(s.v) - tol; if (fabsl(g) > 6 * s.e) { c.chk(p.contains(q, tol) == (g < 0), "contains with a tolerance", "distance %.17Lg tolerance %.17g", s.v, double(tol)); c.cls(g < 0 ? "within tolerance" : "beyond tolerance"); }
	V o; R t = p.project(o, q); c.near(t, s, "project returns the signed distance"); V3<R> ref = V3<R>(q) - V3<R>(p.normal) * s; near(c, o, ref, "projection");
	V al = q; R t2 = p.project(al, al); c.same(t2, t, "projection in place"); same(c, al, o, "projection in place");
	c.chk(fabsl(sd(p, o).v) <= 12 * (s.e + E<R>::u() * fabsl(s.v) + sd(p, o).e), "the projection lies on the plane", "distance %.17Lg", sd(p, o).v);
	// exact on an integer grid: the border belongs to the slab
	Plane<R> ex; ex.normal = V(R(0), R(c.r.sgn()), R(0)); ex.d = R(c.r.in(-5, 5)); R ek = R(c.r.in(-6, 6)), ea = mathlib::abs(ek); V ep(R(c.r.in(-9, 9)), (ex.d + ek) * ex.normal.y, R(c.r.in(-9, 9)));
	c.same(ex.distance(ep), ek, "signed distance on a grid"); c.chk(ex.contains(ep, ea), "a point at the tolerance is contained"); c.chk(ex.contains(ep, ea + R(0.5)), "a point within the tolerance is contained"); if (ek != 0) c.chk(!ex.contains(ep, ea - R(0.5)), "a point beyond the tolerance is not contained");
	// flipping, moving
	c.near(p.flipped().distance(q), -s, "flipping negates distances"); R k = c.in("k", gReal<R>(c.r)); c.near(p.moved(k).distance(q), s - XX(k), "moving by k lowers distances by k");
	// along a direction
	V d = c.in("dir", c.r.p(0.2) ? V(p.normal % gUnit3<R>(c.r)) : gN<R>(c.r)); XX f = dot(V3<R>(d), V3<R>(p.normal)); V o2 = V(R(5), R(6), R(7)); bool ok = p.project(o2, q, d);
	if (fabsl(f.v) > 8 * f.e && f.v != 0) { c.cls("oblique projection"); if (c.chk(ok, "project along a direction succeeds")) { V3<R> rf = V3<R>(q) - V3<R>(d) * (s / f); near(c, o2, rf, "projection along a direction", 8); V a2 = q; p.project(a2, a2, d); same(c, a2, o2, "projection along a direction in place"); V a3 = d; p.project(a3, q, a3); near(c, a3, rf, "projection along a direction, result over the direction", 8); } }
	Plane<R> ax; ax.normal = V(R(0), R(0), R(c.r.sgn())); ax.d = p.d; V pd = V(gReal<R>(c.r), gNonZero<R>(c.r), R(0)); V o3 = q; c.chk(!ax.project(o3, q, pd), "project along a parallel direction fails"); same(c, o3, q, "a failed projection writes nothing");
}
template <class R> void rays(Case& c) {
	typedef Vec3<R> V; typedef E<R> XX; Plane<R> p = gPlane<R>(c, "n"); if (c.r.p(0.1)) { R k = R(c.r.uni(0.3, 3)); p.normal = p.normal * k; c.in("scaled", k); }
	V s = c.r.p(0.1) ? gAt<R>(c.r, p, R(0)) : gVec3<R>(c.r), d = c.r.p(0.15) ? V((p.normal % gUnit3<R>(c.r)) + p.normal * R(c.r.sgn() * c.r.logu(1e-3, 0.1))) : c.r.p(0.8) ? gUnit3<R>(c.r) : gN<R>(c.r); bool par = c.r.p(0.06);
	if (c.r.p(0.06)) { p.normal = V(R(0), R(0), R(c.r.sgn())); d = V(R(c.r.uni(-1, 1)), R(c.r.sgn() * c.r.uni(0.1, 1)), R(c.r.sgn() * c.r.logu(1e-12, 1e-3))); c.cls("nearly parallel"); }
	if (par) { p.normal = V(R(0), R(c.r.sgn()), R(0)); d = V(gReal<R>(c.r), R(0), gReal<R>(c.r)); }
	c.in("start", s); c.in("dir", d); Ray3<R> r; r.start = s; r.direction = d;
	XX sdist = sd(p, s), f = dot(V3<R>(p.normal), V3<R>(d)); V h1 = V(R(5), R(6), R(7)), h2 = h1, h0 = h1; R t1 = R(-7), t2 = R(-7); bool g1 = p.hits(h1, t1, r), g2 = p.intersects(h2, t2, r);
	c.cls("parallel", par); if (par) { c.chk(!g1 && !g2, "a parallel ray meets nothing"); same(c, h1, h0, "no hit, no output"); return; }
	if (fabsl(f.v) <= 4 * f.e || fabsl(sdist.v) <= 4 * sdist.e) { c.cls("undecided"); return; }
	XX t = -sdist / f; bool ahead = t.v > 0, front = f.v < 0; c.cls("front hit", ahead && front); c.cls("back hit", ahead && !front); c.cls("plane behind", !ahead);
	c.chk(g2 == ahead, "ray intersects", "expected at %.17Lg", t.v); c.chk(g1 == (ahead && front), "ray hits only the front", "expected at %.17Lg", t.v);
	V3<R> at = V3<R>(s) + V3<R>(d) * t;
	if (g2 && ahead) { c.near(t2, t, "ray parameter"); near(c, h2, at, "ray point", 8); } else same(c, h2, h0, "no hit, no output");
	if (g1 && ahead) { c.near(t1, t, "ray hit parameter"); near(c, h1, at, "ray hit point", 8); } else same(c, h1, h0, "no hit, no output");
	// exact: starting on the plane
	Plane<R> e; e.normal = V(R(0), R(0), R(1)); e.d = R(c.r.in(-5, 5)); Ray3<R> q; q.start = V(R(c.r.in(-5, 5)), R(2), e.d); q.direction = V(R(0), R(0), R(-1)); V hh; R tt = 9; c.chk(e.hits(hh, tt, q) && tt == 0, "a ray starting on the plane hits it at 0"); tt = 9; c.chk(e.intersects(hh, tt, q) && tt == 0, "a ray starting on the plane intersects it at 0"); same(c, hh, q.start, "a ray starting on the plane hits its start");
	q.direction.z = 1; c.chk(!e.hits(hh, tt, q), "a ray leaving along the normal does not hit"); tt = 9; c.chk(e.intersects(hh, tt, q) && tt == 0, "a ray starting on the plane intersects it at 0");
}
template <class R> void segs(Case& c) {
	typedef Vec3<R> V; typedef E<R> XX; Plane<R> p = gPlane<R>(c, "n"); V s = c.in("start", c.r.p(0.5) ? gAt<R>(c.r, p, gReal<R>(c.r)) : gVec3<R>(c.r)), e = c.in("end", c.r.p(0.4) ? gAt<R>(c.r, p, gReal<R>(c.r)) : c.r.p(0.04) ? s : gVec3<R>(c.r)); Line3<R> l = Line3<R>::from(s, e);
	auto one = [&](R off, bool rad) {
		XX a = sd(p, s) - XX(off), b = sd(p, e) - XX(off); if (fabsl(a.v) <= 4 * a.e || fabsl(b.v) <= 4 * b.e) { c.cls("undecided"); return; }
		V h0 = V(R(5), R(6), R(7)), h1 = h0, h2 = h0; R t1 = R(-7), t2 = R(-7); bool g1 = rad ? p.hits(h1, t1, l, off) : p.hits(h1, t1, l);
		bool front = a.v > 0 && b.v < 0, cross = (a.v > 0) != (b.v > 0); XX t = a / (a - b); V3<R> at = V3<R>(s) + (V3<R>(e) - V3<R>(s)) * t;
		c.cls("crosses to the back", front); c.cls("crosses to the front", cross && !front); c.cls("stays in front", !cross && a.v > 0); c.cls("stays behind", !cross && a.v < 0);
		c.chk(g1 == front, rad ? "segment hits at a radius" : "segment hits", "distances %.17Lg %.17Lg", a.v, b.v); if (g1 && front) { c.near(t1, t, rad ? "segment hit parameter at a radius" : "segment hit parameter"); near(c, h1, at, rad ? "segment hit point at a radius" : "segment hit point", 8); } else same(c, h1, h0, "no hit, no output");
		if (rad) return; bool g2 = p.intersects(h2, t2, l); c.chk(g2 == cross, "segment intersects", "distances %.17Lg %.17Lg", a.v, b.v); if (g2 && cross) { c.near(t2, t, "segment parameter"); near(c, h2, at, "segment point", 8); } else same(c, h2, h0, "no hit, no output");
	};
	one(R(0), false); R r = c.in("radius", gPos<R>(c.r)); one(r, true);
	// exact cases on an integer grid
	Plane<R> z; z.normal = V(R(0), R(1), R(0)); z.d = R(c.r.in(-5, 5)); V on(R(1), z.d, R(2)), up(R(4), z.d + R(c.r.in(1, 8)), R(2)), dn(R(-3), z.d - R(c.r.in(1, 8)), R(6)); V hh; R tt = 9;
	c.chk(z.hits(hh, tt, Line3<R>::from(on, dn)) && tt == 0, "a segment from the plane to its back hits at 0"); c.chk(!z.hits(hh, tt, Line3<R>::from(up, on)), "a segment ending on the plane does not hit"); c.chk(!z.hits(hh, tt, Line3<R>::from(on, up)), "a segment from the plane to its front does not hit");
	R ir = R(c.r.in(1, 6)); V off(R(0), ir, R(0)); tt = 9; c.chk(z.hits(hh, tt, Line3<R>::from(on + off, dn), ir) && tt == 0, "a segment starting at the radius hits at 0"); c.chk(!z.hits(hh, tt, Line3<R>::from(up + off, on + off), ir), "a segment ending at the radius does not hit");
	tt = 9; c.chk(z.hits(hh, tt, Line3<R>::from(V(on + off) + V(R(0), R(2), R(0)), V(on + off) - V(R(0), R(2), R(0))), ir) && tt == R(0.5), "a segment passing the radius halfway"); c.chk(!z.hits(hh, tt, Line3<R>::from(on, dn), ir), "a segment starting nearer than the radius does not hit");
	tt = 9; if (c.chk(z.intersects(hh, tt, Line3<R>::from(up, on)), "a segment ending on the plane intersects")) c.same(tt, R(1), "a segment ending on the plane intersects at 1"); tt = 9; if (c.chk(z.intersects(hh, tt, Line3<R>::from(on, up)), "a segment starting on the plane intersects")) c.same(tt, R(0), "a segment starting on the plane intersects at 0");
	V on2 = on; on2.x += 3; c.chk(!z.intersects(hh, tt, Line3<R>::from(on, on2)), "a segment within the plane does not intersect at a point"); c.chk(!z.hits(hh, tt, Line3<R>::from(on, on2)), "a segment within the plane does not hit"); V up2 = up; up2.x += 5; c.chk(!z.intersects(hh, tt, Line3<R>::from(up, up2)), "a parallel segment does not intersect");
}
template <class R> void balls(Case& c) {
	typedef Vec3<R> V; typedef E<R> XX; Plane<R> p = gPlane<R>(c, "n"); R r = c.in("r", gPos<R>(c.r)); R k = c.r.p(0.3) ? R(r * c.r.sgn() * (1 + c.r.sgn() * c.r.logu(1e-5, 0.2))) : R(r * c.r.uni(-2, 2)); V q = c.in("q", gAt<R>(c.r, p, k)); Sphere<R> s(q, r); XX d = sd(p, q);
	R a = R(-7), b = R(-7); bool g1 = p.hits(a, s), g2 = p.intersects(b, s); L m = 4 * d.e; if (fabsl(d.v) <= m || fabsl(d.v - r) <= m || fabsl(d.v + r) <= m) { c.cls("undecided"); return; }
	bool in = fabsl(d.v) < r; c.cls("touches, centre in front", in && d.v > 0); c.cls("touches, centre behind", in && d.v < 0); c.cls("in front", d.v > r); c.cls("behind", d.v < -r);
	c.chk(g2 == in, "sphere intersects", "distance %.17Lg radius %.17g", d.v, double(r)); c.chk(g1 == (in && d.v > 0), "sphere hits from the front", "distance %.17Lg radius %.17g", d.v, double(r));
	if (g2) c.near(b, XX(r) - d, "penetration depth"); else c.same(b, R(-7), "no contact, no output"); if (g1) c.near(a, XX(r) - d, "hit depth"); else c.same(a, R(-7), "no contact, no output");
	Plane<R> z; z.normal = V(R(1), R(0), R(0)); z.d = R(c.r.in(-5, 5)); R ri = R(c.r.in(1, 9)); V ce(z.d + ri, R(3), R(1)); R dd = 9; c.chk(z.hits(dd, Sphere<R>(ce, ri)) && dd == 0, "a touching sphere hits at depth 0"); dd = 9; c.chk(z.intersects(dd, Sphere<R>(ce, ri)) && dd == 0, "a touching sphere intersects at depth 0");
	ce.x = z.d - ri; dd = 9; if (c.chk(z.intersects(dd, Sphere<R>(ce, ri)), "a sphere touching from behind intersects")) c.same(dd, 2 * ri, "a sphere touching from behind intersects"); c.chk(!z.hits(dd, Sphere<R>(ce, ri)), "a sphere behind does not hit"); ce.x = z.d; c.chk(z.hits(dd, Sphere<R>(ce, ri)) && dd == ri, "a sphere centred on the plane hits");
}
template <class R> void three(Case& c) {
	typedef Vec3<R> V; typedef E<R> XX; Plane<R> p[3]; for (auto& x : p) x = gPlane<R>(c, "n"); if (c.r.p(0.2)) { p[2].normal = p[c.r.n(2)].normal * R(c.r.sgn()); c.in("copy", p[2].normal); } else if (c.r.p(0.2)) { V t = p[0].normal + p[1].normal * gReal<R>(c.r) + gUnit3<R>(c.r) * R(c.r.logu(1e-5, 1e-1)); R l = t.length(); if (l > 1e-3) p[2].normal = t / l; c.in("near dependent", p[2].normal); }
	V3<R> n0(p[0].normal), n1(p[1].normal), n2(p[2].normal); XX det = dot(cross(n0, n1), n2); V o(R(5), R(6), R(7)); bool ok = Plane<R>::intersectAtSinglePoint(o, p[0], p[1], p[2]);
	L g = fabsl(det.v) - 1e-4L; if (fabsl(g) <= 8 * det.e + 1e-10L) { c.cls("undecided"); return; } bool ref = g > 0; c.cls(ref ? "one point" : "no single point"); c.chk(ok == ref, "three planes meet at one point", "determinant %.17Lg", det.v); if (!ok) { same(c, o, V::Zero, "no single point: zero"); return; } if (!ref) return;
	V3<R> num = cross(n1, n2) * XX(p[0].d) + cross(n2, n0) * XX(p[1].d) + cross(n0, n1) * XX(p[2].d); near(c, o, V3<R>(num.x / det, num.y / det, num.z / det), "common point", 8);
	L m = 0; for (int i = 0; i < 3; i++) m = std::max(m, (L)(num[i] / det).e); for (auto& x : p) c.chk(fabsl(sd(x, o).v) <= 30 * m + 8 * sd(x, o).e, "the common point lies on all three planes", "distance %.17Lg", sd(x, o).v);
}
// planes and the same planes in another unit of length
template <class R> void scaled(Case& c) {
	typedef Vec3<R> V; V a = c.in("a", gSim3<R>(c.r)), b = c.in("b", gSim3<R>(c.r)), d = c.in("c", gSim3<R>(c.r)), s = c.in("start", gSim3<R>(c.r)), e = c.in("end", gSim3<R>(c.r)), p = c.in("p", gSim3<R>(c.r)), q = c.in("q", gSim3<R>(c.r)); R r = c.in("radius", std::fabs(gSim<R>(c.r))); V n = (b - a) % (d - a); R nl = n.length();
	if (!(nl > R(1e-3)) || s == e) { c.trivial = true; return; } bool met = false, single = false;
	bool ip = c.r.p(0.5); c.in("in place", ip);
	similar<R>(c, "planes in another unit of length", 6, [&](Sc<R>& o) {
		V A = o.len(a), B = o.len(b), C = o.len(d), S = o.len(s), T = o.len(e), P = o.len(p), Q = o.len(q), h; R rr = o.len(r), t = 0; auto pl = [&](const Plane<R>& z) { o.v(z.normal, 0); o.v(z.d, 1); };
		Plane<R> x = made<Plane<R>>(ip, A, B, C), y = Plane<R>::fromPointAndTangents(P, V(C - A), V(Q - A)), w = made<Plane<R>>(ip, Q, V(x.normal)); if (ip) { y = x; y.setFromPointAndTangents(P, V(C - A), V(Q - A)); } pl(x); pl(w); pl(x.moved(rr)); pl(x.flipped()); pl(made<Plane<R>>(ip, x, rr)); { Plane<R> z = x; pl(z.move(rr)); pl(z.flip()); } o.v(x.distance(P), 1); o.b(x.contains(P, rr)); o.v(x.project(h, P), 1); o.v(h, 1); if (o.b(x.project(h, P, V(T - S)))) o.v(h, 1);
		Line3<R> l = Line3<R>::from(S, T); Ray3<R> ray = Ray3<R>::from(S, V(T - S)); Sphere<R> ball(P, rr); Ray3<R> free; free.start = S; free.direction = T - S; if (o.b(x.hits(h, t, free))) { o.v(h, 1); o.v(t, 0); } if (o.b(x.intersects(h, t, free))) { o.v(h, 1); o.v(t, 0); }
		if (o.b(x.hits(h, t, l))) { o.v(h, 1); o.v(t, 0); met = true; } if (o.b(x.hits(h, t, l, rr))) { o.v(h, 1); o.v(t, 0); } if (o.b(x.intersects(h, t, l))) { o.v(h, 1); o.v(t, 0); } if (o.b(x.hits(h, t, ray))) { o.v(h, 1); o.v(t, 1); } if (o.b(x.intersects(h, t, ray))) { o.v(h, 1); o.v(t, 1); } if (o.b(x.hits(t, ball))) o.v(t, 1); if (o.b(x.intersects(t, ball))) o.v(t, 1);
		Plane<R> u = Plane<R>::from(S, V(Plane<R>::from(A, B, T).normal)); if (std::isfinite(y.d) && std::isfinite(u.d)) { pl(y); if (o.b(Plane<R>::intersectAtSinglePoint(h, x, y, u))) { o.v(h, 1); single = true; } } });
	c.cls("segment hits", met); c.cls("three planes meet", single);
}
// planes changed by their own normal and distance, and answers written over the question
template <class R> void owns(Case& c) {
	typedef Plane<R> A; typedef Vec3<R> V; V n = gOwn3<R>(c.r), p = c.in("p", gOwn3<R>(c.r)), q = c.in("q", gOwn3<R>(c.r)); if (hypotl(hypotl(n.x, n.y), n.z) < 0.01L) n = V(1, 2, 2); n.normalize(); A b(n, R(c.r.uni(-3, 3))); c.in("normal", b.normal); int k = c.in("component", c.r.n(4));
	own<R>(c, "plane set from its parts", b, [&](A& x, const A& y) { x.set(y.normal, y.data()[3]); }); own<R>(c, "plane moved by own number", b, [&](A& x, const A& y) { x.move(y.data()[k]); }); own<R>(c, "plane set to itself at another distance", b, [&](A& x, const A& y) { x.set(y, y.data()[k]); });
	own<R>(c, "plane through a point with own normal", b, [&](A& x, const A& y) { x.set(p, y.normal); });
	// the projected point replaces the point
	own<R>(c, "point replaced by its projection", p, [&](V& x, const V& y) { b.project(x, y); });
	{ L d = fabsl(L(n.x) * q.x + L(n.y) * q.y + L(n.z) * q.z); if (d > 0.05L) own<R>(c, "point replaced by its projection along a direction", p, [&](V& x, const V& y) { if (!b.project(x, y, q)) x = V(9, 9, 9); }); }
	{ typedef std::pair<V, V> Two; Two w(p, q); L d = fabsl(L(n.x) * q.x + L(n.y) * q.y + L(n.z) * q.z); if (d > 0.05L) own<R>(c, "direction replaced by a projection along it", w, [&](Two& x, const Two& y) { if (!b.project(x.second, y.first, y.second)) x.second = V(9, 9, 9); }); }
}
void vf::registerAll() {
	VF_BOTH(build, "build", 80000, "tangents", "three points", "equal");
	VF_BOTH(dist, "distance", 120000, "front", "behind", "on", "within tolerance", "beyond tolerance", "oblique projection");
	VF_BOTH(rays, "ray", 150000, "front hit", "back hit", "plane behind", "parallel", "nearly parallel");
	VF_BOTH(segs, "segment", 150000, "crosses to the back", "crosses to the front", "stays in front", "stays behind");
	VF_BOTH(balls, "sphere", 120000, "touches, centre in front", "touches, centre behind", "in front", "behind");
	VF_BOTH(three, "three planes", 120000, "one point", "no single point");
	VF_BOTH(scaled, "another unit", 60000, "segment hits", "three planes meet");
	VF_BOTH(owns, "own parts", 12000, "point replaced by its projection along a direction");
}
VF_MAIN()
