// C30: objects shared read-only by several threads, and repeated in any order, always answer the same
#include "vf.h"
using namespace vf;
using namespace mathlib;
// digest of everything a const call returned
struct H {
	uint64_t h = 1; int n = 0;
	void raw(double x) { if (x != x) x = -12345.678; uint64_t b; memcpy(&b, &x, 8); h = mix(h, b); n++; }
	H& operator<<(float x) { raw(x); return *this; } H& operator<<(double x) { raw(x); return *this; } H& operator<<(bool x) { raw(x); return *this; } H& operator<<(int x) { raw(x); return *this; }
	H& operator<<(Coord c) { raw(int(c)); return *this; }
	template <class R> H& operator<<(const Vec2<R>& v) { return *this << v.x << v.y; } template <class R> H& operator<<(const Vec3<R>& v) { return *this << v.x << v.y << v.z; } template <class R> H& operator<<(const Vec4<R>& v) { return *this << v.x << v.y << v.z << v.w; }
	template <class R> H& operator<<(const Mat2<R>& m) { return *this << m.x << m.y << m.isNormal() << m.isOrthogonal() << m.isIdentity(); } template <class R> H& operator<<(const Mat3<R>& m) { return *this << m.x << m.y << m.z << m.isNormal() << m.isOrthogonal() << m.isIdentity(); }
	template <class R> H& operator<<(const Mat4<R>& m) { return *this << m.x << m.y << m.z << m.t << m.isNormal() << m.isOrthogonal() << m.isIdentity(); } template <class R> H& operator<<(const Mat34<R>& m) { return *this << m.rs << m.t << m.isNormal() << m.isOrthogonal() << m.isIdentity(); }
	template <class R> H& operator<<(const Quat<R>& q) { return *this << q.x << q.y << q.z << q.w; }
	template <class R> H& operator<<(const Ray3<R>& q) { return *this << q.start << q.direction; } template <class R> H& operator<<(const Plane<R>& q) { return *this << q.normal << q.d; }
	template <class R> H& operator<<(const Sphere<R>& q) { return *this << q.center << q.radius; } template <class R> H& operator<<(const Circle<R>& q) { return *this << q.center << q.radius; }
	template <class R> H& operator<<(const AABB2<R>& q) { return *this << q.inf << q.sup; } template <class R> H& operator<<(const AABB3<R>& q) { return *this << q.inf << q.sup; } template <class R> H& operator<<(const CAABB2<R>& q) { return *this << q.center << q.extents; } template <class R> H& operator<<(const CAABB3<R>& q) { return *this << q.center << q.extents; }
	template <class R> H& operator<<(const ColorRGB<R>& q) { return *this << q.r << q.g << q.b; } template <class R> H& operator<<(const ColorRGBA<R>& q) { return *this << q.r << q.g << q.b << q.a; } template <class R> H& operator<<(const ColorHSV<R>& q) { return *this << q.h << q.s << q.v; }
};
// one world: objects of every kind, built once by the main thread and only read afterwards
template <class R> struct World {
	Vec2<R> a2, b2; Vec3<R> a3, b3, c3; Vec4<R> a4, b4; Mat2<R> m2, n2; Mat3<R> m3, n3, rot3; Mat4<R> m4, n4; Mat34<R> m34, n34; Quat<R> q, p; AABB2<R> x2, y2; AABB3<R> x3, y3; CAABB2<R> cx2, cy2; CAABB3<R> cx3, cy3;
	Circle<R> ci, cj; Sphere<R> s, t; Plane<R> pl, pm, pn; Line2<R> l2; Line3<R> l3; Ray2<R> r2; Ray3<R> r3; Tri2<R> tri; Frustum<R> fr; ColorRGB<R> rgb; ColorRGBA<R> rgba; ColorHSV<R> hsv; HermiteSplineSegment3<R> he; BezierSegment3<R> be; R k, angle; Vec3<R> pts[6]; Vec2<R> pts2[6];
};
template <class R> void build(World<R>& w, Rng& r) {
	auto v2 = [&]() { return Vec2<R>(R(r.uni(-4, 4)), R(r.uni(-4, 4))); }; auto v3 = [&]() { R a = R(r.uni(-4, 4)), b = R(r.uni(-4, 4)), c = R(r.uni(-4, 4)); return Vec3<R>(a, b, c); };
	w.a2 = v2(); w.b2 = v2(); w.a3 = v3(); w.b3 = v3(); w.c3 = v3(); w.a4 = Vec4<R>(w.a3.x, w.a3.y, w.a3.z, R(r.uni(0.5, 2))); w.b4 = Vec4<R>(w.b3.x, w.b3.y, w.b3.z, R(1)); w.k = R(r.uni(0.1, 0.9)); w.angle = R(r.uni(-3, 3));
	Vec3<R> u = gUnit3<R>(r), v = gUnit3<R>(r); w.q = Quat<R>::from(u, w.angle); w.p = Quat<R>::from(v, R(r.uni(-3, 3)));
	w.m2 = Mat2<R>(v2(), v2()); w.n2 = Mat2<R>::from(w.angle); w.m3 = Mat3<R>(v3(), v3(), v3()); w.n3 = Mat3<R>::from(w.q); w.rot3 = Mat3<R>::from(w.p); w.m4 = Mat4<R>::from(w.q, w.a3); w.n4 = Mat4<R>::from(v3(), v3(), v3(), v3()); w.m34 = Mat34<R>::from(w.q, w.b3); w.n34 = Mat34<R>::from(w.p, w.c3);
	auto box2 = [&](AABB2<R>& b) { Vec2<R> a = v2(), c = v2(); b = AABB2<R>::from(Vec2<R>::min(a, c), Vec2<R>::max(a, c)); }; auto box3 = [&](AABB3<R>& b) { Vec3<R> a = v3(), c = v3(); b = AABB3<R>::from(Vec3<R>::min(a, c), Vec3<R>::max(a, c)); };
	box2(w.x2); box2(w.y2); box3(w.x3); box3(w.y3); w.cx2 = CAABB2<R>::from(w.x2.center(), w.x2.size()); w.cy2 = CAABB2<R>::from(w.y2.center(), w.y2.size()); w.cx3 = CAABB3<R>::from(w.x3); w.cy3 = CAABB3<R>::from(w.y3);
	w.ci = Circle<R>::from(v2(), R(r.uni(0.5, 3))); w.cj = Circle<R>::from(v2(), R(r.uni(0.5, 3))); w.s = Sphere<R>::from(v3(), R(r.uni(0.5, 3))); w.t = Sphere<R>::from(v3(), R(r.uni(0.5, 3)));
	w.pl = Plane<R>::from(u, R(r.uni(-2, 2))); w.pm = Plane<R>::from(v, R(r.uni(-2, 2))); w.pn = Plane<R>::from(gUnit3<R>(r), R(r.uni(-2, 2)));
	w.l2 = Line2<R>::from(v2(), v2()); w.l3 = Line3<R>::from(v3(), v3()); w.r2 = Ray2<R>::from(v2(), gUnit2<R>(r)); w.r3 = Ray3<R>::from(v3(), gUnit3<R>(r)); w.tri = Tri2<R>::from(v2(), v2(), v2());
	Vec3<R> co[8]; for (int i = 0; i < 8; i++) { R z = i < 4 ? R(1) : R(6), h = z * R(0.7); int j = i % 4; co[i] = Vec3<R>(j == 0 || j == 3 ? -h : h, j < 2 ? -h : h, z); } w.fr.set(co);
	w.rgb = ColorRGB<R>(R(r.u01()), R(r.u01()), R(r.u01())); w.rgba = ColorRGBA<R>(R(r.u01()), R(r.u01()), R(r.u01()), R(r.u01())); w.hsv = ColorHSV<R>(R(r.uni(0, 359)), R(r.u01()), R(r.u01()));
	w.he = HermiteSplineSegment3<R>(v3(), v3(), v3(), v3()); w.be = BezierSegment3<R>(v3(), v3(), v3(), v3()); for (auto& p : w.pts) p = v3(); for (auto& p : w.pts2) p = v2();
}
// every part uses one kind of object through its const interface
enum { PARTS = 20 };
template <class R> __attribute__((noinline)) void part(const World<R>& w, int part, H& h) {
	R t1 = 0, t2 = 0; Vec3<R> hit(R(0), R(0), R(0)); Vec2<R> hit2(R(0), R(0));
	switch (part) {
	case 0: h << w.a2 + w.b2 << -w.a2 << w.a2 - w.b2 << w.a2 * w.b2 << w.a2 % w.b2 << w.a2 * w.k << w.a2 / w.k << (w.a2 == w.b2) << w.a2.copy() << w.a2.length() << w.a2.lengthSqr() << w.a2.moved(Coord::X, w.k) << w.a2.rotated(w.angle) << w.a2.normalized() << w.a2.rotated90() << w.a2.rotated180() << w.a2.rotated270() << w.a2.mirrored(Coord::Y) << w.a2.angle() << w.a2.majorCoord() << w.a2.minorCoord() << w.a2.isNull() << w.a2[Coord::Y] << w.a2 * w.m2 << Vec2<R>::product(w.a2, w.b2) << Vec2<R>::min(w.a2, w.b2) << Vec2<R>::max(w.a2, w.b2) << Vec2<R>::fromAngle(w.angle) << Vec2<R>::fromClerp(w.a2, w.b2, w.k) << Vec2<R>::Zero << Vec2<R>::OneX << Vec2<R>::OneY; break;
	case 1: h << w.a3 + w.b3 << -w.a3 << w.a3 - w.b3 << w.a3 * w.b3 << w.a3 % w.b3 << w.a3 % Coord::X << w.a3 * w.k << w.a3 / w.k << (w.a3 == w.b3) << w.a3.length() << w.a3.lengthSqr() << w.a3.moved(Coord::Z, w.k) << w.a3.rotated(Coord::Y, w.angle) << w.a3.normalized() << w.a3.mirrored(Coord::X) << w.a3.majorCoord() << w.a3.minorCoord() << w.a3.isNull() << w.a3.toVec2() << w.a3 * w.m3 << Vec3<R>::product(w.a3, w.b3) << Vec3<R>::min(w.a3, w.b3) << Vec3<R>::max(w.a3, w.b3) << Vec3<R>::fromSlerp(w.a3, w.b3, w.k) << Vec3<R>::Zero << Vec3<R>::OneX << Vec3<R>::OneY << Vec3<R>::OneZ; break;
	case 2: h << w.a4 + w.b4 << -w.a4 << w.a4 - w.b4 << w.a4 * w.b4 << w.a4 * w.k << w.a4 / w.k << w.a4.length() << w.a4.toVec3() << w.a4.isNull() << Vec4<R>::min(w.a4, w.b4) << Vec4<R>::Zero << Vec4<R>::OneX << Vec4<R>::OneY << Vec4<R>::OneZ << Vec4<R>::OneW; break;
	case 3: h << -w.m2 << w.m2 * w.n2 << w.m2 * w.k << w.m2 * w.a2 << w.m2 / w.k << (w.m2 == w.n2) << w.n2.rotated(w.k) << w.m2.scaled(w.a2) << w.m2.transposed() << w.m2.cofactors() << w.m2.adjoint() << w.m2.trace() << w.m2.determinant() << w.m2.inversed() << w.n2.inversed() << w.n2.angle() << w.m2.normalError() << w.m2.orthogonalError() << w.m2.identityError() << Mat2<R>::fromSlerp(w.n2, w.n2, w.k) << Mat2<R>::One << Mat2<R>::Zero; break;
	case 4: h << -w.m3 << w.m3 * w.n3 << w.m3 * w.k << w.m3 * w.a3 << w.m3 / w.k << (w.m3 == w.n3) << w.n3.rotated(w.rot3) << w.n3.rotated(w.p) << w.n3.rotated(Coord::X, w.k) << w.n3.rotatedPre(w.rot3) << w.n3.rotatedPre(w.p) << w.n3.rotatedPre(Coord::Z, w.k) << w.m3.scaled(w.a3) << w.m3.transposed() << w.m3.cofactors() << w.m3.adjoint() << w.m3.trace() << w.m3.determinant() << w.m3.inversed() << w.n3.inversed() << w.m3.normalError() << w.m3.orthogonalError() << w.m3.identityError() << Mat3<R>::fromSlerp(w.n3, w.rot3, w.k) << Mat3<R>::One << Mat3<R>::Zero; break;
	case 5: h << -w.m4 << w.m4 * w.n4 << w.m4 * w.k << w.m4 * w.a3 << w.m4 * w.a4 << w.m4 / w.k << (w.m4 == w.n4) << w.m4.rotated(w.p) << w.m4.translated(w.a3) << w.m4.scaled(w.a3) << w.m4.transformed(w.n4) << w.m4.rotatedPre(w.p) << w.m4.translatedPre(w.a3) << w.m4.scaledPre(w.a3) << w.m4.transformedPre(w.n4) << w.m4.localAxis(Coord::Y) << w.m4.localPlane(Coord::X) << w.n4.transposed() << w.n4.trace() << w.n4.determinant() << w.n4.inversed() << w.m4.inversed() << w.n4.normalError() << w.n4.orthogonalError() << w.n4.identityError() << Mat4<R>::One << Mat4<R>::Zero; break;
	case 6: h << -w.m34 << w.m34 * w.n34 << w.m34 * w.n3 << w.m34 * w.a3 << (w.m34 == w.n34) << w.m34.localAxis(Coord::Z) << w.m34.localPlane(Coord::Y) << Mat34<R>::fromSlerp(w.m34, w.n34, w.k) << Mat34<R>::One << Mat34<R>::Zero; break;
	case 7: { Vec3<R> ax; R an; w.q.toAxisAngle(ax, an); h << ax << an << w.q * w.p << w.q * w.a3 << -w.q << w.q / w.p << (w.q == w.p) << w.q.rotated(Coord::X) << w.q.rotated(w.a3) << w.q.inverse() << Quat<R>::fromLerp(w.q, w.p, w.k) << Quat<R>::fromSlerp(w.q, w.p, w.k) << Quat<R>::fromSlerpNoInvert(w.q, w.p, w.k) << Quat<R>::log(w.q) << Quat<R>::from(w.n3) << Quat<R>::from(w.m4) << Quat<R>::from(w.a3, w.b3) << Quat<R>::One; break; }
	case 8: h << w.x2 + w.a2 << w.x2 * w.k << w.x2.center() << w.x2.extents() << w.x2.size() << w.x2.innerCircle() << w.x2.outerCircle() << w.x2.area() << w.x2.isNull() << w.x2.pointAt(w.a2) << w.x2.contains(w.a2) << w.x2.contains(w.y2) << w.x2.intersects(w.y2) << AABB2<R>::fromUnion(w.x2, w.y2) << AABB2<R>::fromIntersection(w.x2, w.y2) << AABB2<R>::from(6, w.pts2) << AABB2<R>::Zero << AABB2<R>::One; h << w.x2.hits(t1, w.r2) << t1; h << w.x2.intersects(t1, t2, w.r2) << t1 << t2; break;
	case 9: h << w.x3 + w.a3 << w.x3 * w.k << w.x3.center() << w.x3.extents() << w.x3.size() << w.x3.innerSphere() << w.x3.outerSphere() << w.x3.volume() << w.x3.isNull() << w.x3.pointAt(w.a3) << w.x3.contains(w.a3) << w.x3.contains(w.s) << w.x3.contains(w.y3) << w.x3.intersects(w.y3) << AABB3<R>::fromUnion(w.x3, w.y3) << AABB3<R>::fromIntersection(w.x3, w.y3) << AABB3<R>::from(6, w.pts) << AABB3<R>::Zero << AABB3<R>::One; h << w.x3.hits(t1, w.r3) << t1; h << w.x3.hits(t1, w.l3) << t1; h << w.x3.intersects(t1, t2, w.r3) << t1 << t2; h << w.x3.intersects(t1, t2, w.l3) << t1 << t2; break;
	case 10: h << w.cx2 + w.a2 << w.cx2 * w.k << w.cx2.inf() << w.cx2.sup() << w.cx2.size() << w.cx2.innerCircle() << w.cx2.outerCircle() << w.cx2.area() << w.cx2.isNull() << w.cx2.pointAt(w.a2) << w.cx2.contains(w.a2) << w.cx2.contains(w.cy2) << w.cx2.intersects(w.cy2) << CAABB2<R>::from(6, w.pts2) << CAABB2<R>::One; break;
	case 11: h << w.cx3 + w.a3 << w.cx3 * w.k << w.cx3.inf() << w.cx3.sup() << w.cx3.size() << w.cx3.innerSphere() << w.cx3.outerSphere() << w.cx3.volume() << w.cx3.isNull() << w.cx3.pointAt(w.a3) << w.cx3.contains(w.a3) << w.cx3.contains(w.s) << w.cx3.contains(w.cy3) << w.cx3.intersects(w.cy3) << CAABB3<R>::from(6, w.pts) << CAABB3<R>::One; break;
	case 12: h << w.s + w.a3 << w.s * w.k << w.s.contains(w.a3) << w.s.contains(w.t) << w.s.intersects(w.t) << w.s.intersects(w.l3) << Sphere<R>::from(6, w.pts) << Sphere<R>::One; h << w.s.hits(hit, t1, w.l3) << hit << t1; h << w.s.intersects(hit, t1, w.t) << hit << t1; h << w.ci.contains(w.a2) << w.ci.contains(w.cj) << w.ci.intersects(w.cj) << w.ci * w.k << Circle<R>::from(6, w.pts2) << Circle<R>::One; break;
	case 13: h << w.pl.moved(w.k) << w.pl.flipped() << w.pl.contains(w.a3, w.k) << w.pl.distance(w.a3) << w.pl.project(hit, w.a3) << hit; h << w.pl.project(hit, w.a3, w.b3) << hit; h << w.pl.hits(hit, t1, w.r3) << hit << t1; h << w.pl.hits(hit, t1, w.l3) << hit << t1; h << w.pl.hits(hit, t1, w.l3, w.k) << hit << t1; h << w.pl.hits(t1, w.s) << t1; h << w.pl.intersects(hit, t1, w.l3) << hit << t1; h << w.pl.intersects(t1, w.s) << t1; h << Plane<R>::intersectAtSinglePoint(hit, w.pl, w.pm, w.pn) << hit << Plane<R>::XY << Plane<R>::YZ << Plane<R>::ZX; break;
	case 14: h << w.l2.length() << w.l2.lengthSqr() << w.l2.isNull() << w.l2.pointAt(w.k) << w.l2.distance(w.a2) << w.l3.length() << w.l3.lengthSqr() << w.l3.isNull() << w.l3.pointAt(w.k) << w.l3.distance(w.a3) << w.r2.pointAt(w.k) << w.r2.distance(w.a2) << w.r3.pointAt(w.k) << w.r3.distance(w.a3) << w.tri.contains(w.a2); break;
	case 15: h << w.fr.contains(w.a3) << w.fr.contains(w.a4) << w.fr.contains(w.s) << w.fr.intersects(w.s); for (auto& p : w.pts) h << w.fr.contains(p); break;
	case 16: h << w.rgb + w.rgb << w.rgb * w.k << w.rgb.toRGBA(w.k) << w.rgb.toHSV() << w.rgba * w.k << w.rgba.toRGB() << w.rgba.toHSV() << w.hsv.toRGB() << w.hsv.toRGBA(w.k) << ColorHSV<R>::fromInterp(w.hsv, w.rgb.toHSV(), w.k) << ColorRGB<R>::fromInterp(w.rgb, w.rgb, w.k) << ColorRGB<R>::Red << ColorRGBA<R>::Green << ColorHSV<R>::Blue << ColorHSV<R>::White; break;
	case 17: { h << w.he.pointAt(w.k) << w.he.tangentAt(w.k) << w.he.p1() << w.he.r4() << w.be.pointAt(w.k) << w.be.tangentAt(w.k) << w.be.r1() << w.be.length() << w.be.length(7); Mat3<R> f; h << w.be.frenetFrameAt(f, w.k); BezierSegment3<R> s, e; w.be.split(w.k, s, e); h << s.p2() << s.p4() << e.p3() << e.p1(); BezierSegment3FwdDiff<R> d(w.be.p1(), w.be.p2(), w.be.p3(), w.be.p4(), R(0.125)); h << d.currentPoint() << d.currentTangent(); break; }
	case 18: { Vec3<R> p2[6], p3[6]; for (int i = 0; i < 6; i++) p2[i] = p3[i] = Vec3<R>(R(0), R(0), R(0)); h << SplineSolver3<R>::naturalBezierSpline(6, w.pts, p2, p3) << p2[0] << p3[4]; h << SplineSolver3<R>::bezierSpline(6, w.pts, w.a3, w.b3, p2, p3) << p2[1] << p3[3]; h << SplineSolver3<R>::closedBezierSpline(6, w.pts, p2, p3) << p2[5] << p3[5]; R a[3] = {1, 2, 1}, b[4] = {5, 6, 7, 8}, c[3] = {1, 1, w.k}, r[4] = {w.a3.x, 1, 2, 3}, u[4]; h << TriDiagonal<R>::solve(a, b, c, r, u, 4) << u[0] << u[3]; h << TriDiagonal<R>::solveCyclic(a, b, c, R(1), w.k, r, u, 4) << u[1] << u[2]; R g[4] = {w.k + 1, 2, 3, 9}, y[2] = {1, 2}; h << GaussJordan<R>::solve(g, 2, y, 1) << y[0] << y[1] << g[0]; break; }
	default: { h << Constants<R>::PI << Constants<R>::PI_OVER_2 << Constants<R>::PI_TIMES_2 << Constants<R>::MIN_VALUE << Constants<R>::MAX_VALUE << Constants<R>::MAX_NEG_VALUE; for (int m = 0; m <= int(InterpolationMode::CircularInOut); m++) h << interpolationRatio(w.k, InterpolationMode(m)); h << lerp(w.a3, w.b3, w.k) << clerp(w.angle, w.k, w.k) << clerpMaxAngle(w.angle, w.k, w.k) << fmodPositive(w.angle, w.k); break; }
	}
}
enum { WORLDS = 24 };
template <class R> struct Shared { World<R> w[WORLDS]; uint64_t want[WORLDS][PARTS]; std::vector<unsigned char> bytes[WORLDS]; };
template <class R> Shared<R>& shared() { static Shared<R> s; return s; }
template <class R> void prepare() {
	Shared<R>& s = shared<R>(); for (int i = 0; i < WORLDS; i++) { Rng r(mix(Engine::get().seed, 77 + i)); memset((void*)&s.w[i], 0, sizeof(World<R>)); build(s.w[i], r); for (int p = 0; p < PARTS; p++) { H h; part<R>(s.w[i], p, h); s.want[i][p] = h.h; } s.bytes[i].assign((unsigned char*)&s.w[i], (unsigned char*)&s.w[i] + sizeof(World<R>)); }
}
template <class R> void sharing(Case& c) {
	const Shared<R>& s = shared<R>(); int i = c.in("world", c.r.n(WORLDS)), p = c.in("part", c.r.n(PARTS)); static const char* names[PARTS] = {"Vec2", "Vec3", "Vec4", "Mat2", "Mat3", "Mat4", "Mat34", "Quat", "AABB2", "AABB3", "CAABB2", "CAABB3", "balls", "Plane", "lines", "Frustum", "colors", "splines", "solvers", "functions"}; c.cls(names[p]);
	int n = c.in("before", c.r.n(3)); for (int j = 0; j < n; j++) { H h; part<R>(s.w[c.r.n(WORLDS)], p, h); c.hash(h.h); }      // other objects were asked first
	H h; part<R>(s.w[i], p, h); c.chk(h.h == s.want[i][p], "a const call on a shared object answers as it did before", "%s", names[p]); c.chk(h.n > 4, "results were observed");
#if !defined(__clang__)      // (MemorySanitizer rejects comparing the padding bytes)
	c.chk(memcmp(&s.w[i], s.bytes[i].data(), sizeof(World<R>)) == 0, "const calls leave the object unchanged", "%s", names[p]);
#endif
}
void vf::registerAll() {
	static const std::vector<std::string> need = {"Vec2", "Vec3", "Vec4", "Mat2", "Mat3", "Mat4", "Mat34", "Quat", "AABB2", "AABB3", "CAABB2", "CAABB3", "balls", "Plane", "lines", "Frustum", "colors", "splines", "solvers", "functions"};
	prepare<float>(); prepare<double>();
	vf::reg("sharing.f", 20000, sharing<float>, need); vf::reg("sharing.d", 20000, sharing<double>, need);
}
VF_MAIN()
