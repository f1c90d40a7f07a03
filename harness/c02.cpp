// C02: elementary rotations, mirrors and 2D/3D conversions of vectors
#include "vf.h"
#include "alias.h"
using namespace vf;
using namespace mathlib;

template <class R> void rot2(Case& c) {
	Vec2<R> v = c.in("v", gVec2<R>(c.r));
	R a = c.in("a", gAngle<R>(c.r)), k = c.in("k", gPos<R>(c.r));
	c.trivial = v.isNull();
	E<R> x(v.x), y(v.y), s = esin(E<R>(a)), co = ecos(E<R>(a));
	V2<R> e(x * co - y * s, x * s + y * co);
	Vec2<R> t;
	near(c, v.rotated(a), e, "Vec2 rotated");
	t = v; c.chk(&t.rotate(a) == &t, "Vec2 rotate returns itself"); near(c, t, e, "Vec2 rotate");
	same(c, v.rotated90(), Vec2<R>(-v.y, v.x), "Vec2 rotated90"); t = v; t.rotate90(); same(c, t, Vec2<R>(-v.y, v.x), "Vec2 rotate90");
	same(c, v.rotated180(), Vec2<R>(-v.x, -v.y), "Vec2 rotated180"); t = v; t.rotate180(); same(c, t, Vec2<R>(-v.x, -v.y), "Vec2 rotate180");
	same(c, v.rotated270(), Vec2<R>(v.y, -v.x), "Vec2 rotated270"); t = v; t.rotate270(); same(c, t, Vec2<R>(v.y, -v.x), "Vec2 rotate270");
	same(c, v.mirrored(Coord::X), Vec2<R>(-v.x, v.y), "Vec2 mirrored X"); t = v; t.mirror(Coord::X); same(c, t, Vec2<R>(-v.x, v.y), "Vec2 mirror X");
	same(c, v.mirrored(Coord::Y), Vec2<R>(v.x, -v.y), "Vec2 mirrored Y"); t = v; t.mirror(Coord::Y); same(c, t, Vec2<R>(v.x, -v.y), "Vec2 mirror Y");
	// polar form
	V2<R> pol(E<R>(k) * co, E<R>(k) * s);
	near(c, Vec2<R>::fromAngle(a, k), pol, "Vec2 fromAngle(a,l)"); t.setAngle(a, k); near(c, t, pol, "Vec2 setAngle(a,l)");
	near(c, Vec2<R>::fromAngle(a), V2<R>(co, s), "Vec2 fromAngle(a)"); t.setAngle(a); near(c, t, V2<R>(co, s), "Vec2 setAngle(a)");
	if (!v.isNull()) {
		// the angle is a direction: compare as a rotation of the unit vector
		R g = v.angle();
		L l = hypotl(v.x, v.y);
		c.chk(std::fabs(g) <= R(PIL) * R(1.000001), "Vec2 angle range", "angle %g", double(g));
		c.nearAbs(R(cosl(g)), v.x / l, 8 * E<R>::u(), "Vec2 angle cos"); c.nearAbs(R(sinl(g)), v.y / l, 8 * E<R>::u(), "Vec2 angle sin");
	}
}

template <class R> void rot3(Case& c) {
	Vec3<R> v = c.in("v", gVec3<R>(c.r));
	R a = c.in("a", gAngle<R>(c.r));
	c.trivial = v.isNull();
	E<R> s = esin(E<R>(a)), co = ecos(E<R>(a));
	Vec3<R> t;
	for (int i = 0; i < 3; i++) {
		int j = (i + 1) % 3, k = (i + 2) % 3;      // right-handed: j -> k
		V3<R> ev(v), e(v);
		e[j] = ev[j] * co - ev[k] * s; e[k] = ev[j] * s + ev[k] * co;
		near(c, v.rotated(Coord(i), a), e, "Vec3 rotated");
		t = v; c.chk(&t.rotate(Coord(i), a) == &t, "Vec3 rotate returns itself"); near(c, t, e, "Vec3 rotate");
		c.same(v.rotated(Coord(i), a)[Coord(i)], v[Coord(i)], "Vec3 rotated keeps the axis coordinate");
		Vec3<R> m = v; m[Coord(i)] = -m[Coord(i)];
		same(c, v.mirrored(Coord(i)), m, "Vec3 mirrored"); t = v; t.mirror(Coord(i)); same(c, t, m, "Vec3 mirror");
	}
}

template <class R> void conv(Case& c) {
	Vec3<R> v = c.in("v", gVec3<R>(c.r));
	Vec2<R> u = c.in("u", gVec2<R>(c.r));
	same(c, Vec2<R>(v, Coord::X), Vec2<R>(v.y, v.z), "Vec2(Vec3,X)"); same(c, Vec2<R>(v, Coord::Y), Vec2<R>(v.x, v.z), "Vec2(Vec3,Y)"); same(c, Vec2<R>(v, Coord::Z), Vec2<R>(v.x, v.y), "Vec2(Vec3,Z)"); same(c, Vec2<R>(v), Vec2<R>(v.x, v.y), "Vec2(Vec3)");
	same(c, v.toVec2(Coord::X), Vec2<R>(v.y, v.z), "toVec2 X"); same(c, v.toVec2(Coord::Y), Vec2<R>(v.z, v.x), "toVec2 Y"); same(c, v.toVec2(Coord::Z), Vec2<R>(v.x, v.y), "toVec2 Z"); same(c, v.toVec2(), Vec2<R>(v.x, v.y), "toVec2()");
	same(c, Vec3<R>(u, Coord::X), Vec3<R>(R(0), u.x, u.y), "Vec3(Vec2,X)"); same(c, Vec3<R>(u, Coord::Y), Vec3<R>(u.y, R(0), u.x), "Vec3(Vec2,Y)"); same(c, Vec3<R>(u, Coord::Z), Vec3<R>(u.x, u.y, R(0)), "Vec3(Vec2,Z)"); same(c, Vec3<R>(u), Vec3<R>(u.x, u.y, R(0)), "Vec3(Vec2)");
	for (int i = 0; i < 3; i++) same(c, Vec3<R>(u, Coord(i)).toVec2(Coord(i)), u, "Vec3(Vec2).toVec2 round trip");
	same(c, Vec2<R>::OneX, Vec2<R>(R(1), R(0)), "Vec2 OneX"); same(c, Vec2<R>::OneY, Vec2<R>(R(0), R(1)), "Vec2 OneY"); same(c, Vec2<R>::Zero, Vec2<R>(R(0), R(0)), "Vec2 Zero");
	for (int i = 0; i < 3; i++) {
		c.chk(next3D(Coord(i)) == Coord((i + 1) % 3), "next3D");
		if (i < 2) c.chk(next2D(Coord(i)) == Coord(1 - i), "next2D");
	}
	c.chk(next2D(Coord::Z) == Coord::Undefined && next2D(Coord::W) == Coord::Undefined && next2D(Coord::Undefined) == Coord::Undefined && next3D(Coord::W) == Coord::Undefined && next3D(Coord::Undefined) == Coord::Undefined, "next* Undefined");
}

// long chains of in-place operations followed by their inverses come back
template <class R> void chain(Case& c) {
	Vec3<R> v = c.in("v", gUnit3<R>(c.r)), w = v;
	int n = c.r.in(2, 12);
	std::vector<std::pair<int, R>> ops;
	for (int i = 0; i < n; i++) {
		int ax = c.r.n(3); R a = gAngle<R>(c.r);
		c.in("ax", ax); c.in("ang", a);
		ops.push_back(std::make_pair(ax, a));
		if (c.r.p(0.5)) w.rotate(Coord(ax), a); else w = w.rotated(Coord(ax), a);
		c.nearAbs(w.length(), 1, 40 * (i + 1) * E<R>::u(), "chain preserves length");
	}
	for (int i = n - 1; i >= 0; i--) w.rotate(Coord(ops[i].first), -ops[i].second);
	c.nearAbs(w.x, v.x, 60 * n * E<R>::u(), "chain inverse"); c.nearAbs(w.y, v.y, 60 * n * E<R>::u(), "chain inverse"); c.nearAbs(w.z, v.z, 60 * n * E<R>::u(), "chain inverse");
}

// a vector turned by an angle stored in it
template <class R> void owns(Case& c) {
	typedef Vec2<R> P; typedef Vec3<R> V; V v = c.in("v", gOwn3<R>(c.r)); P p = c.in("p", gOwn2<R>(c.r)); int i = c.in("component", c.r.n(3)), j = i % 2, l = c.in("axis", c.r.n(3));
	own<R>(c, "Vec2 rotate by own component", p, [&](P& a, const P& b) { a.rotate(b.data()[j]); });
	own<R>(c, "Vec3 rotate by own component", v, [&](V& a, const V& b) { a.rotate(Coord(l), b.data()[i]); });
}
void vf::registerAll() {
	VF_BOTH(rot2, "rot2", 40000);
	VF_BOTH(rot3, "rot3", 40000);
	VF_BOTH(conv, "conv", 10000);
	VF_BOTH(chain, "chain", 10000);
	VF_BOTH(owns, "own parts", 8000, "Vec2 rotate by own component", "Vec3 rotate by own component");
}
VF_MAIN()
