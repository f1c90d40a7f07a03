// C03: interpolation of directions (Vec2 clerp, Vec3 slerp) and of circular angles
#include "vf.h"
#include "alias.h"
#include "scale.h"
using namespace vf;
using namespace mathlib;

static L wrap(L d) { L r = remainderl(d, 2 * PIL); return r; }   // [-pi, pi]

template <class R> R gAng(Rng& r) {
	switch (r.n(5)) {
	case 0: return R(r.uni(-40, 40));
	case 1: return R(r.in(-6, 6)) * R(PIL / 4);
	default: return R(r.uni(-7, 7));
	}
}

template <class R> void scalar(Case& c) {
	R from = c.in("from", gAng<R>(c.r)), to = c.in("to", gAng<R>(c.r));
	if (c.r.p(0.1)) { to = from + R(c.r.uni(-0.01, 0.01)); c.in("to", to); }
	if (c.r.p(0.05)) { from = R(0); to = c.in("tiny to", R(c.r.sgn() * c.r.logu(1e-12, 1e-3))); }
	R ratio = c.in("ratio", c.r.p(0.2) ? R(c.r.n(3)) * R(0.5) : gRatio<R>(c.r));
	R maxA = c.in("max", c.r.p(0.15) ? R(0) : c.r.p(0.2) ? R(10) : c.r.p(0.1) ? R(c.r.logu(1e-12, 1e-2)) : c.r.p(0.1) ? R(mathlib::abs(to - from) * R(c.r.uni(0.1, 1.5))) : R(c.r.uni(0, 3.5)));
	L d = wrap((L)to - (L)from), tol = 16 * E<R>::u() * (fabsl(from) + fabsl(to) + 4);
	bool amb = PIL - fabsl(d) < tol;          // opposite: both arcs are shortest
	c.cls("to-from < -pi", (L)to - from < -PIL); c.cls("to-from > pi", (L)to - from > PIL); c.cls("opposite", amb);
	auto ok = [&](R got, L e1, L e2) { return fabsl(got - e1) <= tol || (amb && fabsl(got - e2) <= tol); };
	L d2 = d > 0 ? d - 2 * PIL : d + 2 * PIL;
	R g = mathlib::clerp(from, to, ratio);
	c.chk(ok(g, from + d * ratio, from + d2 * ratio), "clerp", "got %.12g expected %.12Lg", double(g), from + d * ratio);
	auto lim = [&](L x) { return x > maxA ? (L)maxA : x < -maxA ? -(L)maxA : x; };
	g = mathlib::clerpMaxAngle(from, to, maxA);
	c.chk(ok(g, from + lim(d), from + lim(d2)), "clerpMaxAngle", "got %.12g expected %.12Lg", double(g), from + lim(d));
	R q = R(-77);
	g = mathlib::clerpMaxAngle(from, to, maxA, q);
	c.chk(ok(g, from + lim(d), from + lim(d2)), "clerpMaxAngle(ratio)", "got %.12g expected %.12Lg", double(g), from + lim(d));
	c.cls("limited", fabsl(d) > maxA);
	if (fabsl(d) > 100 * tol) {
		L er = lim(d) / d;
		c.nearAbs(q, er, 4 * tol / fabsl(d), "clerpMaxAngle ratio");
	} else c.chk(q >= 0 && q <= R(1.0001), "clerpMaxAngle ratio range", "ratio %g", double(q));
	if (from == to) { c.cls("equal"); c.chk(q >= 0 && q <= 1, "clerpMaxAngle ratio equal angles", "ratio %g", double(q)); }
}
template <class R> void scalarEq(Case& c) {   // identical angles
	R from = c.in("from", gAng<R>(c.r)), q = R(-77);
	R maxA = c.in("max", R(c.r.uni(0.01, 3)));
	c.cls("equal");
	L tol = 16 * E<R>::u() * (2 * fabsl(from) + 4);
	c.nearAbs(mathlib::clerp(from, from, R(0.5)), from, tol, "clerp equal");
	c.nearAbs(mathlib::clerpMaxAngle(from, from, maxA, q), from, tol, "clerpMaxAngle equal");
	c.chk(q >= 0 && q <= 1, "clerpMaxAngle ratio equal angles", "ratio %g", double(q));
}

template <class R> void dir2(Case& c) {
	Vec2<R> u = c.in("u", gVec2<R>(c.r)), v = c.in("v", gVec2<R>(c.r));
	if (u.isNull() || v.isNull()) { c.trivial = true; return; }
	R ratio = c.in("ratio", c.r.p(0.2) ? R(c.r.n(3)) * R(0.5) : gRatio<R>(c.r));
	R maxA = c.in("max", c.r.p(0.15) ? R(0) : c.r.p(0.2) ? R(10) : c.r.p(0.1) ? R(c.r.logu(1e-9, 1e-2)) : R(c.r.uni(0, 3.5)));
	L lu = hypotl(u.x, u.y), lv = hypotl(v.x, v.y), au = atan2l(u.y, u.x);
	L d = atan2l((L)u.x * v.y - (L)u.y * v.x, (L)u.x * v.x + (L)u.y * v.y);
	bool amb = PIL - fabsl(d) < 32 * E<R>::u();
	c.cls("wraps ccw", d > 0 && atan2l(v.y, v.x) < au); c.cls("wraps cw", d < 0 && atan2l(v.y, v.x) > au); c.cls("obtuse", fabsl(d) > PIL / 2);
	L tol = 64 * E<R>::u();
	auto ck = [&](const Vec2<R>& g, L ang, L ang2, L l, L lt, const char* site) {
		L t = tol * std::max(lu, lv) + lt;
		bool a = fabsl(g.x - l * cosl(ang)) <= t && fabsl(g.y - l * sinl(ang)) <= t;
		bool b = amb && fabsl(g.x - l * cosl(ang2)) <= t && fabsl(g.y - l * sinl(ang2)) <= t;
		c.chk(a || b, site, "got (%.9g,%.9g) expected (%.9Lg,%.9Lg)", double(g.x), double(g.y), l * cosl(ang), l * sinl(ang));
	};
	L d2 = d > 0 ? d - 2 * PIL : d + 2 * PIL;
	Vec2<R> t(R(3), R(4));
	c.chk(&t.clerp(u, v, ratio) == &t, "Vec2 clerp returns itself");
	ck(t, au + d * ratio, au + d2 * ratio, lu + (lv - lu) * ratio, 0, "Vec2 clerp");
	ck(Vec2<R>::fromClerp(u, v, ratio), au + d * ratio, au + d2 * ratio, lu + (lv - lu) * ratio, 0, "Vec2 fromClerp");
	t = u; t.clerp(t, v, ratio); ck(t, au + d * ratio, au + d2 * ratio, lu + (lv - lu) * ratio, 0, "Vec2 clerp aliased");
	auto lim = [&](L x) { return x > maxA ? (L)maxA : x < -maxA ? -(L)maxA : x; };
	c.cls("limited", fabsl(d) > maxA);
	if (fabsl(d) > 1000 * E<R>::u()) {
		L q = lim(d) / d, lt = fabsl(lv - lu) * 64 * E<R>::u() / fabsl(d);
		if (maxA == 0) q = 0;
		t.clerpMaxAngle(u, v, maxA);
		ck(t, au + lim(d), au + lim(d2), lu + (lv - lu) * q, lt, "Vec2 clerpMaxAngle");
		ck(Vec2<R>::fromClerpMaxAngle(u, v, maxA), au + lim(d), au + lim(d2), lu + (lv - lu) * q, lt, "Vec2 fromClerpMaxAngle");
	} else {   // same direction: stays in that direction with a length between both
		t.clerpMaxAngle(u, v, maxA);
		L l = hypotl(t.x, t.y);
		c.chk(l >= std::min(lu, lv) - 1e-5L * std::max(lu, lv) && l <= std::max(lu, lv) * (1 + 1e-5L), "Vec2 clerpMaxAngle parallel length", "length %Lg of %Lg..%Lg", l, lu, lv);
		if (l > 1e-5L * std::max(lu, lv)) c.chk(fabsl(t.x * (L)u.y - t.y * (L)u.x) <= 3000 * E<R>::u() * l * lu && (L)t.x * u.x + (L)t.y * u.y > 0, "Vec2 clerpMaxAngle parallel direction");
	}
}

template <class R> void dir3(Case& c) {
	Vec3<R> u = c.in("u", gVec3<R>(c.r)), v;
	int kind = c.r.n(6);
	if (u.isNull()) { c.trivial = true; return; }
	R lr = c.r.p(0.3) ? R(1) : R(c.r.logu(0.1, 10));
	if (kind == 0) { // nearly parallel
		v = (u + gUnit3<R>(c.r) * (u.length() * R(c.r.logu(1e-4, 0.2)))) * lr;
	} else if (kind == 1) { // close to opposite but not opposite
		v = (-u + gUnit3<R>(c.r) * (u.length() * R(c.r.uni(0.1, 0.5)))) * lr;
	} else if (kind == 2) { v = u * lr; }
	else v = gUnit3<R>(c.r) * (u.length() * lr);
	c.in("v", v);
	if (v.isNull()) { c.trivial = true; return; }
	R ratio = c.in("ratio", c.r.p(0.2) ? R(c.r.n(3)) * R(0.5) : gRatio<R>(c.r));
	R maxA = c.in("max", c.r.p(0.15) ? R(0) : c.r.p(0.2) ? R(10) : c.r.p(0.1) ? R(c.r.logu(1e-9, 1e-2)) : R(c.r.uni(0, 3.5)));
	L ux = u.x, uy = u.y, uz = u.z, vx = v.x, vy = v.y, vz = v.z;
	L nx = uy * vz - uz * vy, ny = uz * vx - ux * vz, nz = ux * vy - uy * vx;
	L lu = sqrtl(ux * ux + uy * uy + uz * uz), lv = sqrtl(vx * vx + vy * vy + vz * vz), ln = sqrtl(nx * nx + ny * ny + nz * nz);
	L th = atan2l(ln, ux * vx + uy * vy + uz * vz), s = sinl(th);
	c.cls("obtuse", th > PIL / 2 && th < PIL - 0.05L); c.cls("acute", th < PIL / 2 && s > 0.05L); c.cls("small", th < 0.05L);
	// unit vector in the plane, orthogonal to u, towards v
	L px, py, pz;
	if (ln > 0) { px = (ny * uz - nz * uy) / (ln * lu); py = (nz * ux - nx * uz) / (ln * lu); pz = (nx * uy - ny * ux) / (ln * lu); }
	else { px = py = pz = 0; }
	auto expect = [&](L ang, L l, L* o) {
		o[0] = l * (cosl(ang) * ux / lu + sinl(ang) * px); o[1] = l * (cosl(ang) * uy / lu + sinl(ang) * py); o[2] = l * (cosl(ang) * uz / lu + sinl(ang) * pz);
	};
	auto ck = [&](const Vec3<R>& g, L ang, L l, L tol, const char* site) {
		L o[3]; expect(ang, l, o);
		L e = std::max(fabsl(g.x - o[0]), std::max(fabsl(g.y - o[1]), fabsl(g.z - o[2])));
		c.chk(e <= tol, site, "got (%.9g,%.9g,%.9g) expected (%.9Lg,%.9Lg,%.9Lg) theta=%.6Lg", double(g.x), double(g.y), double(g.z), o[0], o[1], o[2], th);
	};
	L m = std::max(lu, lv);
	bool opp = PIL - th < 0.02L;
	if (!opp) {
		// rounding of the rotation axis grows as 1/sin; below 0.05 rad the library may interpolate linearly
		L tol = m * (200 * E<R>::u() / std::max(s, (L)0.02) + (th < 0.051L ? th * 1.05L + 1e-6L : 0));
		Vec3<R> t(R(1), R(2), R(3));
		c.chk(&t.slerp(u, v, ratio) == &t, "Vec3 slerp returns itself");
		ck(t, th * ratio, lu + (lv - lu) * ratio, tol, "Vec3 slerp");
		ck(Vec3<R>::fromSlerp(u, v, ratio), th * ratio, lu + (lv - lu) * ratio, tol, "Vec3 fromSlerp");
		t = v; t.slerp(u, t, ratio); ck(t, th * ratio, lu + (lv - lu) * ratio, tol, "Vec3 slerp aliased");
		L a = std::min(th, (L)maxA), q = th > 0 ? a / th : 1, lt = fabsl(lv - lu) * (th > 1e-3L ? 64 * E<R>::u() / th / th : 1);
		c.cls("limited", th > maxA);
		if (maxA == 0) q = 0, lt = 0;
		t.slerpMaxAngle(u, v, maxA);
		L tol2 = m * (200 * E<R>::u() / std::max(s, (L)1e-4)) + lt;
		ck(t, a, lu + (lv - lu) * q, tol2, "Vec3 slerpMaxAngle");
		ck(Vec3<R>::fromSlerpMaxAngle(u, v, maxA), a, lu + (lv - lu) * q, tol2, "Vec3 fromSlerpMaxAngle");
	}
	// end points exact
	same(c, Vec3<R>::fromSlerp(u, v, R(0)), u, "Vec3 slerp 0"); same(c, Vec3<R>::fromSlerp(u, v, R(1)), v, "Vec3 slerp 1");
	same(c, Vec3<R>::fromSlerpMaxAngle(u, v, R(0)), u, "Vec3 slerpMaxAngle 0");
	Vec3<R> z(R(0));
	if (c.r.p(0.2)) {   // null vectors: linear interpolation, never NaN
		Vec3<R> a = Vec3<R>::fromSlerp(u, z, ratio), b = Vec3<R>::fromSlerp(z, v, ratio);
		near(c, a, V3<R>(u) + (V3<R>(z) - V3<R>(u)) * E<R>(ratio), "Vec3 slerp to null"); near(c, b, V3<R>(v) * E<R>(ratio), "Vec3 slerp from null");
		Vec3<R> d = Vec3<R>::fromSlerpMaxAngle(z, v, R(1)), e = Vec3<R>::fromSlerpMaxAngle(u, z, R(1));
		c.chk(d.lengthSqr() == d.lengthSqr() && e.lengthSqr() == e.lengthSqr(), "Vec3 slerpMaxAngle null is finite");
	}
}
// Opposite vectors: the direction is undetermined, the length is not.
template <class R> void opposite3(Case& c) {
	Vec3<R> u = c.in("u", gUnit3<R>(c.r)), v = u * c.in("k", -R(c.r.uni(0.5, 3)));
	R ratio = c.in("ratio", R(c.r.uni(0.05, 0.95)));
	L lu = sqrtl((L)u.x * u.x + (L)u.y * u.y + (L)u.z * u.z), lv = sqrtl((L)v.x * v.x + (L)v.y * v.y + (L)v.z * v.z);
	Vec3<R> w = Vec3<R>::fromSlerp(u, v, ratio);
	c.nearAbs(w.length(), lu + (lv - lu) * ratio, 1e-5L * std::max(lu, lv), "Vec3 slerp opposite keeps the interpolated length");
	Vec3<R> x = Vec3<R>::fromSlerpMaxAngle(u, v, R(4));
	c.nearAbs(x.x, v.x, 1e-3L, "Vec3 slerpMaxAngle opposite unlimited"); c.nearAbs(x.y, v.y, 1e-3L, "Vec3 slerpMaxAngle opposite unlimited"); c.nearAbs(x.z, v.z, 1e-3L, "Vec3 slerpMaxAngle opposite unlimited");
}

// turning one vector towards another does not depend on their lengths' unit
template <class R> void scaled(Case& c) {
	Vec3<R> u = c.in("u", gSim3<R>(c.r)), v = c.in("v", c.r.p(0.1) ? u * R(2) : gSim3<R>(c.r)); R t = c.in("ratio", gRatio<R>(c.r)), m = c.in("maxAngle", R(c.r.uni(0, 3.2)));
	if (u.isNull() || v.isNull()) { c.trivial = true; return; }
	bool ip = c.r.p(0.5);
	similar<R>(c, "3D slerp in another unit of length", 3, [&](Sc<R>& o) { Vec3<R> a = o.len(u), b = o.len(v); if (ip) { Vec3<R> d(3, 4, 5); o.v(d.slerp(a, b, t), 1); o.v(d.slerpMaxAngle(a, b, m), 1); return; } o.v(Vec3<R>::fromSlerp(a, b, t), 1); o.v(Vec3<R>::fromSlerpMaxAngle(a, b, m), 1); });
	Vec2<R> p(u.x, u.y), q(v.x, v.y); if (p.isNull() || q.isNull()) return;
	similar<R>(c, "2D clerp in another unit of length", 3, [&](Sc<R>& o) { Vec2<R> a = o.len(p), b = o.len(q); if (ip) { Vec2<R> d(3, 4); o.v(d.clerp(a, b, t), 1); o.v(d.clerpMaxAngle(a, b, m), 1); return; } o.v(Vec2<R>::fromClerp(a, b, t), 1); o.v(Vec2<R>::fromClerpMaxAngle(a, b, m), 1); });
}
// interpolation into one of the ends, with weights stored there
template <class R> void owns(Case& c) {
	typedef Vec2<R> P; typedef Vec3<R> V; V v = c.in("v", gOwn3<R>(c.r)), u = c.in("u", gOwn3<R>(c.r)); P p = c.in("p", gOwn2<R>(c.r)), q = c.in("q", gOwn2<R>(c.r)); int i = c.in("component", c.r.n(3)), j = i % 2;
	if (v.isNull() || u.isNull() || p.isNull() || q.isNull()) { c.trivial = true; return; }
	R w = (&v.x)[i]; if (!(w > 0 && w < 1)) (&v.x)[i] = c.in("weight", R(c.r.uni(0, 1))); w = (&p.x)[j]; if (!(w > 0 && w < 1)) (&p.x)[j] = c.in("weight", R(c.r.uni(0, 1)));
	if (v.isNull() || p.isNull()) return;
	// opposite directions have no shortest way
	{ L d = (L(v.x) * u.x + L(v.y) * u.y + L(v.z) * u.z) / (hypotl(hypotl(v.x, v.y), v.z) * hypotl(hypotl(u.x, u.y), u.z)); if (fabsl(d) > 0.99L) return; d = (L(p.x) * q.x + L(p.y) * q.y) / (hypotl(p.x, p.y) * hypotl(q.x, q.y)); if (fabsl(d) > 0.99L) return; }
	own<R>(c, "Vec2 clerp from itself", p, [&](P& a, const P& b) { a.clerp(b, q, b.data()[j]); }); own<R>(c, "Vec2 clerp to itself", p, [&](P& a, const P& b) { a.clerp(q, b, b.data()[j]); });
	own<R>(c, "Vec2 clerpMaxAngle from itself", p, [&](P& a, const P& b) { a.clerpMaxAngle(b, q, b.data()[j]); }); own<R>(c, "Vec2 clerpMaxAngle to itself", p, [&](P& a, const P& b) { a.clerpMaxAngle(q, b, b.data()[j]); });
	own<R>(c, "Vec3 slerp from itself", v, [&](V& a, const V& b) { a.slerp(b, u, b.data()[i]); }); own<R>(c, "Vec3 slerp to itself", v, [&](V& a, const V& b) { a.slerp(u, b, b.data()[i]); });
	own<R>(c, "Vec3 slerpMaxAngle from itself", v, [&](V& a, const V& b) { a.slerpMaxAngle(b, u, b.data()[i]); }); own<R>(c, "Vec3 slerpMaxAngle to itself", v, [&](V& a, const V& b) { a.slerpMaxAngle(u, b, b.data()[i]); });
}
void vf::registerAll() {
	VF_BOTH(scalar, "scalar", 60000, "to-from < -pi", "to-from > pi", "limited");
	VF_BOTH(scalarEq, "scalar-equal", 5000, "equal");
	VF_BOTH(dir2, "dir2", 60000, "wraps ccw", "wraps cw", "limited", "obtuse");
	VF_BOTH(dir3, "dir3", 60000, "obtuse", "acute", "small", "limited");
	VF_BOTH(opposite3, "opposite3", 5000);
	VF_BOTH(scaled, "another unit", 60000);
	VF_BOTH(owns, "own parts", 8000, "Vec2 clerp from itself", "Vec3 slerp to itself", "Vec3 slerpMaxAngle from itself");
}
VF_MAIN()
