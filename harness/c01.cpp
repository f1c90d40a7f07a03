// C01: vector algebra (Vec2 / Vec3 / Vec4)
#include "vf.h"
#include "alias.h"
#include "scale.h"
using namespace vf;
using namespace mathlib;

template <class R> void arith2(Case& c) {
	Vec2<R> a = c.in("a", gVec2<R>(c.r)), b = c.in("b", gVec2<R>(c.r));
	R k = c.in("k", gNonZero<R>(c.r));
	if (c.r.p(0.1)) b = a;
	c.trivial = a.x == 0 && a.y == 0;
	E<R> ax(a.x), ay(a.y), bx(b.x), by(b.y), ek(k);
	Vec2<R> t;
	near(c, a + b, V2<R>(ax + bx, ay + by), "Vec2 a+b");
	near(c, a - b, V2<R>(ax - bx, ay - by), "Vec2 a-b");
	same(c, -a, Vec2<R>(-a.x, -a.y), "Vec2 -a");
	near(c, a * k, V2<R>(ax * ek, ay * ek), "Vec2 a*k");
	near(c, a / k, V2<R>(ax / ek, ay / ek), "Vec2 a/k");
	t = a; Vec2<R>& r1 = (t += b); c.chk(&r1 == &t, "Vec2 += returns itself"); near(c, t, V2<R>(ax + bx, ay + by), "Vec2 +=");
	t = a; Vec2<R>& r2 = (t -= b); c.chk(&r2 == &t, "Vec2 -= returns itself"); near(c, t, V2<R>(ax - bx, ay - by), "Vec2 -=");
	t = a; Vec2<R>& r3 = (t *= k); c.chk(&r3 == &t, "Vec2 *= returns itself"); near(c, t, V2<R>(ax * ek, ay * ek), "Vec2 *=");
	t = a; Vec2<R>& r4 = (t /= k); c.chk(&r4 == &t, "Vec2 /= returns itself"); near(c, t, V2<R>(ax / ek, ay / ek), "Vec2 /=");
	t = a; t += t; near(c, t, V2<R>(ax + ax, ay + ay), "Vec2 v+=v");
	t = a; t -= t; same(c, t, Vec2<R>(R(0), R(0)), "Vec2 v-=v");
	c.near(a * b, ax * bx + ay * by, "Vec2 dot");
	c.near(a % b, ax * by - ay * bx, "Vec2 cross");
	c.near(a.length(), esqrt(ax * ax + ay * ay), "Vec2 length");
	c.near(a.lengthSqr(), ax * ax + ay * ay, "Vec2 lengthSqr");
	c.chk((a == b) == (a.x == b.x && a.y == b.y), "Vec2 ==");
	c.chk((a != b) == !(a.x == b.x && a.y == b.y), "Vec2 !=");
	{ Vec2<R> m = a; int q = c.r.n(2); (q ? m.y : m.x) += R(1); if (!(m.x == a.x && m.y == a.y)) { c.chk(!(m == a), "Vec2 == one coord differs"); c.chk(m != a, "Vec2 != one coord differs"); } }
	c.chk(a.isNull() == (a.x == 0 && a.y == 0), "Vec2 isNull");
	{ Vec2<R> z(R(0), R(0)); c.chk(z.isNull(), "Vec2 isNull zero"); z[Coord(c.r.n(2))] = k; c.chk(!z.isNull(), "Vec2 isNull nonzero"); }
	near(c, Vec2<R>::product(a, b), V2<R>(ax * bx, ay * by), "Vec2 product");
	same(c, Vec2<R>::min(a, b), Vec2<R>(std::min(a.x, b.x), std::min(a.y, b.y)), "Vec2 min");
	same(c, Vec2<R>::max(a, b), Vec2<R>(std::max(a.x, b.x), std::max(a.y, b.y)), "Vec2 max");
	Vec2<R> d = gVec2<R>(c.r); c.in("d", d);
	E<R> dx(d.x), dy(d.y);
	c.near(Vec2<R>::crossProduct(a, b, d), (bx - ax) * (dy - ay) - (dx - ax) * (by - ay), "Vec2 crossProduct");
	c.near(mathlib::distance(a, b), esqrt((bx - ax) * (bx - ax) + (by - ay) * (by - ay)), "distance Vec2");
	c.near(mathlib::distanceSqr(a, b), (bx - ax) * (bx - ax) + (by - ay) * (by - ay), "distanceSqr Vec2");
	same(c, a.copy(), a, "Vec2 copy");
	// access
	c.same(a[Coord::X], a.x, "Vec2 [X]"); c.same(a[Coord::Y], a.y, "Vec2 [Y]");
	const Vec2<R>& ca = a;
	c.same(ca[Coord::X], a.x, "Vec2 const [X]"); c.same(ca[Coord::Y], a.y, "Vec2 const [Y]");
	c.chk(a.data()[0] == a.x && a.data()[1] == a.y && ca.data() == &a.x, "Vec2 data");
	t = a; t[Coord::X] = k; same(c, t, Vec2<R>(k, a.y), "Vec2 [X]="); t = a; t[Coord::Y] = k; same(c, t, Vec2<R>(a.x, k), "Vec2 [Y]=");
	t = a; t.set(Coord::X, k); same(c, t, Vec2<R>(k, a.y), "Vec2 set X"); t = a; t.set(Coord::Y, k); same(c, t, Vec2<R>(a.x, k), "Vec2 set Y");
	t.set(b); same(c, t, b, "Vec2 set(v)"); t.set(a.x, k); same(c, t, Vec2<R>(a.x, k), "Vec2 set(x,y)");
	same(c, Vec2<R>(k), Vec2<R>(k, k), "Vec2(k)");
	near(c, a.moved(Coord::X, k), V2<R>(ax + ek, ay), "Vec2 moved X"); near(c, a.moved(Coord::Y, k), V2<R>(ax, ay + ek), "Vec2 moved Y");
	same(c, a.moved(Coord::Undefined, k), a, "Vec2 moved Undefined");
	{ Vec2<double> z = a.template cast<double>(); c.chk(z.x == double(a.x) && z.y == double(a.y), "Vec2 cast double"); }
	{ Vec2<float> z = a.template cast<float>(); c.chk(z.x == float(a.x) && z.y == float(a.y), "Vec2 cast float"); }
	if (std::fabs(double(a.x)) < 2e9 && std::fabs(double(a.y)) < 2e9) { Vec2<int> z = a.template cast<int>(); c.chk(z.x == int(a.x) && z.y == int(a.y), "Vec2 cast int"); }
	// major / minor
	R fx = std::fabs(a.x), fy = std::fabs(a.y);
	c.cls("tie", fx == fy);
	c.chk(std::fabs(a[a.majorCoord()]) == std::max(fx, fy), "Vec2 majorCoord");
	c.chk(std::fabs(a[a.minorCoord()]) == std::min(fx, fy), "Vec2 minorCoord");
	// normalize
	E<R> l = esqrt(ax * ax + ay * ay);
	V2<R> nrm = a.isNull() ? V2<R>(E<R>(0), E<R>(0)) : V2<R>(ax * ek / l, ay * ek / l);
	V2<R> nr1 = a.isNull() ? V2<R>(E<R>(0), E<R>(0)) : V2<R>(ax / l, ay / l);
	near(c, a.normalized(k), nrm, "Vec2 normalized(k)"); near(c, a.normalized(), nr1, "Vec2 normalized()");
	t = a; c.near(t.normalize(k), l, "Vec2 normalize returns length"); near(c, t, nrm, "Vec2 normalize(k)");
	t = a; c.near(t.normalize(), l, "Vec2 normalize() returns length"); near(c, t, nr1, "Vec2 normalize()");
	{ Vec2<R> z(R(0), R(0)); c.same(z.normalize(k), R(0), "Vec2 normalize zero length"); same(c, z, Vec2<R>(R(0), R(0)), "Vec2 normalize zero"); same(c, Vec2<R>(R(0), R(0)).normalized(k), Vec2<R>(R(0), R(0)), "Vec2 normalized zero"); }
}

template <class R> void arith3(Case& c) {
	Vec3<R> a = c.in("a", gVec3<R>(c.r)), b = c.in("b", gVec3<R>(c.r));
	R k = c.in("k", gNonZero<R>(c.r));
	if (c.r.p(0.1)) b = a;
	c.trivial = a.x == 0 && a.y == 0 && a.z == 0;
	V3<R> ea(a), eb(b);
	E<R> ek(k);
	Vec3<R> t;
	near(c, a + b, ea + eb, "Vec3 a+b");
	near(c, a - b, ea - eb, "Vec3 a-b");
	same(c, -a, Vec3<R>(-a.x, -a.y, -a.z), "Vec3 -a");
	near(c, a * k, ea * ek, "Vec3 a*k");
	V3<R> quo(ea.x / ek, ea.y / ek, ea.z / ek);
	near(c, a / k, quo, "Vec3 a/k");
	t = a; c.chk(&(t += b) == &t, "Vec3 += returns itself"); near(c, t, ea + eb, "Vec3 +=");
	t = a; c.chk(&(t -= b) == &t, "Vec3 -= returns itself"); near(c, t, ea - eb, "Vec3 -=");
	t = a; c.chk(&(t *= k) == &t, "Vec3 *= returns itself"); near(c, t, ea * ek, "Vec3 *=");
	t = a; c.chk(&(t /= k) == &t, "Vec3 /= returns itself"); near(c, t, quo, "Vec3 /=");
	t = a; c.chk(&(t %= b) == &t, "Vec3 %= returns itself"); near(c, t, cross(ea, eb), "Vec3 %=");
	t = a; t += t; near(c, t, ea + ea, "Vec3 v+=v");
	t = a; t -= t; same(c, t, Vec3<R>(R(0)), "Vec3 v-=v");
	t = a; t %= t; near(c, t, cross(ea, ea), "Vec3 v%=v");
	c.near(a * b, dot(ea, eb), "Vec3 dot");
	near(c, a % b, cross(ea, eb), "Vec3 cross");
	for (int i = 0; i < 3; i++) {
		Vec3<R> u(i == 0 ? R(1) : R(0), i == 1 ? R(1) : R(0), i == 2 ? R(1) : R(0));
		near(c, a % Coord(i), cross(ea, V3<R>(u)), "Vec3 % Coord");
		t = a; t %= Coord(i); near(c, t, cross(ea, V3<R>(u)), "Vec3 %= Coord");
		near(c, a % Axis(i), cross(ea, V3<R>(u)), "Vec3 % Axis");
		t = a; t %= Axis(i); near(c, t, cross(ea, V3<R>(u)), "Vec3 %= Axis");
		near(c, a % Axis(i + 3), cross(ea, V3<R>(-u)), "Vec3 % negative Axis");
		t = a; t %= Axis(i + 3); near(c, t, cross(ea, V3<R>(-u)), "Vec3 %= negative Axis");
		same(c, i == 0 ? Vec3<R>::OneX : i == 1 ? Vec3<R>::OneY : Vec3<R>::OneZ, u, "Vec3 One constants");
		c.same(a[Coord(i)], i == 0 ? a.x : i == 1 ? a.y : a.z, "Vec3 []");
		const Vec3<R>& ca = a;
		c.same(ca[Coord(i)], i == 0 ? a.x : i == 1 ? a.y : a.z, "Vec3 const []");
		c.same(a.data()[i], i == 0 ? a.x : i == 1 ? a.y : a.z, "Vec3 data"); c.same(ca.data()[i], i == 0 ? a.x : i == 1 ? a.y : a.z, "Vec3 const data");
		Vec3<R> w(i == 0 ? k : a.x, i == 1 ? k : a.y, i == 2 ? k : a.z);
		t = a; t[Coord(i)] = k; same(c, t, w, "Vec3 []=");
		t = a; t.set(Coord(i), k); same(c, t, w, "Vec3 set(coord)");
		V3<R> mv(ea); mv[i] = mv[i] + ek;
		near(c, a.moved(Coord(i), k), mv, "Vec3 moved");
		Vec3<R> m = a; m[Coord(i)] += R(1);
		if (m[Coord(i)] != ca[Coord(i)]) { c.chk(!(m == a), "Vec3 == one coord differs"); c.chk(m != a, "Vec3 != one coord differs"); }
		Vec3<R> z(R(0)); z[Coord(i)] = k; c.chk(!z.isNull(), "Vec3 isNull nonzero");
	}
	same(c, a.moved(Coord::Undefined, k), a, "Vec3 moved Undefined");
	same(c, Vec3<R>::Zero, Vec3<R>(R(0), R(0), R(0)), "Vec3 Zero");
	c.near(a.length(), len(ea), "Vec3 length");
	c.near(a.lengthSqr(), dot(ea, ea), "Vec3 lengthSqr");
	c.chk((a == b) == (a.x == b.x && a.y == b.y && a.z == b.z), "Vec3 ==");
	c.chk((a != b) == !(a.x == b.x && a.y == b.y && a.z == b.z), "Vec3 !=");
	c.chk(a.isNull() == (a.x == 0 && a.y == 0 && a.z == 0), "Vec3 isNull"); c.chk(Vec3<R>(R(0)).isNull(), "Vec3 isNull zero");
	near(c, Vec3<R>::product(a, b), V3<R>(ea.x * eb.x, ea.y * eb.y, ea.z * eb.z), "Vec3 product");
	same(c, Vec3<R>::min(a, b), Vec3<R>(std::min(a.x, b.x), std::min(a.y, b.y), std::min(a.z, b.z)), "Vec3 min");
	same(c, Vec3<R>::max(a, b), Vec3<R>(std::max(a.x, b.x), std::max(a.y, b.y), std::max(a.z, b.z)), "Vec3 max");
	c.near(mathlib::distance(a, b), len(eb - ea), "distance Vec3");
	c.near(mathlib::distanceSqr(a, b), dot(eb - ea, eb - ea), "distanceSqr Vec3");
	same(c, a.copy(), a, "Vec3 copy");
	t.set(b); same(c, t, b, "Vec3 set(v)"); t.set(a.x, k, b.z); same(c, t, Vec3<R>(a.x, k, b.z), "Vec3 set(x,y,z)");
	same(c, Vec3<R>(k), Vec3<R>(k, k, k), "Vec3(k)");
	{ Vec3<double> z = a.template cast<double>(); c.chk(z.x == double(a.x) && z.y == double(a.y) && z.z == double(a.z), "Vec3 cast double"); }
	{ Vec3<float> z = a.template cast<float>(); c.chk(z.x == float(a.x) && z.y == float(a.y) && z.z == float(a.z), "Vec3 cast float"); }
	if (std::fabs(double(a.x)) < 2e9 && std::fabs(double(a.y)) < 2e9 && std::fabs(double(a.z)) < 2e9) { Vec3<int> z = a.template cast<int>(); c.chk(z.x == int(a.x) && z.y == int(a.y) && z.z == int(a.z), "Vec3 cast int"); }
	R f[3] = { std::fabs(a.x), std::fabs(a.y), std::fabs(a.z) };
	c.cls("tie", f[0] == f[1] || f[1] == f[2] || f[0] == f[2]);
	c.chk(std::fabs(a[a.majorCoord()]) == std::max(f[0], std::max(f[1], f[2])), "Vec3 majorCoord");
	c.chk(std::fabs(a[a.minorCoord()]) == std::min(f[0], std::min(f[1], f[2])), "Vec3 minorCoord");
	E<R> l = len(ea);
	V3<R> z0(E<R>(0), E<R>(0), E<R>(0));
	V3<R> nrm = a.isNull() ? z0 : V3<R>(ea.x * ek / l, ea.y * ek / l, ea.z * ek / l);
	V3<R> nr1 = a.isNull() ? z0 : V3<R>(ea.x / l, ea.y / l, ea.z / l);
	near(c, a.normalized(k), nrm, "Vec3 normalized(k)"); near(c, a.normalized(), nr1, "Vec3 normalized()");
	t = a; c.near(t.normalize(k), l, "Vec3 normalize returns length"); near(c, t, nrm, "Vec3 normalize(k)");
	t = a; c.near(t.normalize(), l, "Vec3 normalize() returns length"); near(c, t, nr1, "Vec3 normalize()");
	t = Vec3<R>(R(0)); c.same(t.normalize(k), R(0), "Vec3 normalize zero length"); same(c, t, Vec3<R>(R(0)), "Vec3 normalize zero"); same(c, Vec3<R>(R(0)).normalized(k), Vec3<R>(R(0)), "Vec3 normalized zero");
}

template <class R> void arith4(Case& c) {
	Vec4<R> a = c.in("a", gVec4<R>(c.r)), b = c.in("b", gVec4<R>(c.r));
	Vec3<R> u = c.in("u", gVec3<R>(c.r));
	R k = c.in("k", gNonZero<R>(c.r));
	if (c.r.p(0.1)) b = a;
	const R* A = a.data(); const R* B = b.data();
	const R U[4] = { u.x, u.y, u.z, R(0) };
	R a4[4] = { a.x, a.y, a.z, a.w }, b4[4] = { b.x, b.y, b.z, b.w };
	E<R> ek(k), d(0), s(0);
	auto cmp = [&](const Vec4<R>& g, E<R>(*f)(R, R, R), const R* x, const R* y, const char* site) {
		c.near(g.x, f(x[0], y[0], k), site); c.near(g.y, f(x[1], y[1], k), site);
		c.near(g.z, f(x[2], y[2], k), site); c.near(g.w, f(x[3], y[3], k), site);
	};
	typedef E<R>(*F)(R, R, R);
	F add = [](R x, R y, R) { return E<R>(x) + E<R>(y); }, sub = [](R x, R y, R) { return E<R>(x) - E<R>(y); },
	  mul = [](R x, R, R q) { return E<R>(x) * E<R>(q); }, dv = [](R x, R, R q) { return E<R>(x) / E<R>(q); },
	  prd = [](R x, R y, R) { return E<R>(x) * E<R>(y); }, neg = [](R x, R, R) { return E<R>(-x); };
	for (int i = 0; i < 4; i++) { c.same(A[i], a4[i], "Vec4 data"); d = d + E<R>(a4[i]) * E<R>(b4[i]); s = s + E<R>(a4[i]) * E<R>(a4[i]); }
	(void)B;
	cmp(a + b, add, a4, b4, "Vec4 a+b"); cmp(a - b, sub, a4, b4, "Vec4 a-b"); cmp(-a, neg, a4, a4, "Vec4 -a");
	cmp(a * k, mul, a4, a4, "Vec4 a*k"); cmp(a / k, dv, a4, a4, "Vec4 a/k"); cmp(Vec4<R>::product(a, b), prd, a4, b4, "Vec4 product");
	Vec4<R> t;
	t = a; c.chk(&(t += b) == &t, "Vec4 += returns itself"); cmp(t, add, a4, b4, "Vec4 +=");
	t = a; t -= b; cmp(t, sub, a4, b4, "Vec4 -="); t = a; t *= k; cmp(t, mul, a4, a4, "Vec4 *="); t = a; t /= k; cmp(t, dv, a4, a4, "Vec4 /=");
	t = a; t += u; cmp(t, add, a4, U, "Vec4 += Vec3"); t = a; t -= u; cmp(t, sub, a4, U, "Vec4 -= Vec3");
	t = a; t += t; cmp(t, add, a4, a4, "Vec4 v+=v"); t = a; t -= t; same(c, t, Vec4<R>(R(0)), "Vec4 v-=v");
	c.near(a * b, d, "Vec4 dot"); c.near(a.lengthSqr(), s, "Vec4 lengthSqr"); c.near(a.length(), esqrt(s), "Vec4 length");
	bool eq = a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w;
	c.chk((a == b) == eq, "Vec4 =="); c.chk((a != b) == !eq, "Vec4 !=");
	c.chk(a.isNull() == (a.x == 0 && a.y == 0 && a.z == 0 && a.w == 0), "Vec4 isNull"); c.chk(Vec4<R>(R(0)).isNull(), "Vec4 isNull zero");
	same(c, Vec4<R>::min(a, b), Vec4<R>(std::min(a.x, b.x), std::min(a.y, b.y), std::min(a.z, b.z), std::min(a.w, b.w)), "Vec4 min");
	same(c, Vec4<R>::max(a, b), Vec4<R>(std::max(a.x, b.x), std::max(a.y, b.y), std::max(a.z, b.z), std::max(a.w, b.w)), "Vec4 max");
	same(c, a.copy(), a, "Vec4 copy"); same(c, a.toVec3(), Vec3<R>(a.x, a.y, a.z), "Vec4 toVec3");
	for (int i = 0; i < 4; i++) {
		Vec4<R> w(i == 0 ? k : a.x, i == 1 ? k : a.y, i == 2 ? k : a.z, i == 3 ? k : a.w);
		t = a; t.set(Coord(i), k); same(c, t, w, "Vec4 set(coord)");
		Vec4<R> m = a.moved(Coord(i), k);
		for (int j = 0; j < 4; j++) c.near(m.data()[j], j == i ? E<R>(a4[j]) + ek : E<R>(a4[j]), "Vec4 moved");
		t = a; t.data()[i] += R(1);
		if (t.data()[i] != a4[i]) { c.chk(!(t == a), "Vec4 == one coord differs"); c.chk(t != a, "Vec4 != one coord differs"); }
		t = Vec4<R>(R(0)); t.data()[i] = k; c.chk(!t.isNull(), "Vec4 isNull nonzero");
	}
	same(c, a.moved(Coord::Undefined, k), a, "Vec4 moved Undefined");
	same(c, Vec4<R>(k), Vec4<R>(k, k, k, k), "Vec4(k)");
	{ Vec4<R> q(a.x, a.y, a.z); c.same(q.w, R(1), "Vec4(x,y,z) w"); Vec4<R> q2(u); c.chk(q2.x == u.x && q2.y == u.y && q2.z == u.z && q2.w == R(1), "Vec4(Vec3) w"); Vec4<R> q3(u, k); c.chk(q3.x == u.x && q3.y == u.y && q3.z == u.z && q3.w == k, "Vec4(Vec3,w)"); }
	t.set(u, k); same(c, t, Vec4<R>(u.x, u.y, u.z, k), "Vec4 set(Vec3,w)"); t.set(a); same(c, t, a, "Vec4 set(v)");
	t.set(u.x, u.y, u.z, k); same(c, t, Vec4<R>(u.x, u.y, u.z, k), "Vec4 set(x,y,z,w)"); t.set(u.x, u.y, u.z); same(c, t, Vec4<R>(u.x, u.y, u.z, R(0)), "Vec4 set(x,y,z)"); t.set(u); same(c, t, Vec4<R>(u.x, u.y, u.z, R(0)), "Vec4 set(Vec3)");
	{ Vec4<double> z = a.template cast<double>(); c.chk(z.x == double(a.x) && z.y == double(a.y) && z.z == double(a.z) && z.w == double(a.w), "Vec4 cast double"); }
	{ Vec4<float> z = a.template cast<float>(); c.chk(z.x == float(a.x) && z.y == float(a.y) && z.z == float(a.z) && z.w == float(a.w), "Vec4 cast float"); }
	if (std::fabs(double(a.x)) < 2e9 && std::fabs(double(a.y)) < 2e9 && std::fabs(double(a.z)) < 2e9 && std::fabs(double(a.w)) < 2e9) { Vec4<int> z = a.template cast<int>(); c.chk(z.x == int(a.x) && z.y == int(a.y) && z.z == int(a.z) && z.w == int(a.w), "Vec4 cast int"); }
	same(c, Vec4<R>::OneX, Vec4<R>(R(1), R(0), R(0), R(1)), "Vec4 OneX"); same(c, Vec4<R>::OneY, Vec4<R>(R(0), R(1), R(0), R(1)), "Vec4 OneY"); same(c, Vec4<R>::OneZ, Vec4<R>(R(0), R(0), R(1), R(1)), "Vec4 OneZ"); same(c, Vec4<R>::OneW, Vec4<R>(R(0), R(0), R(0), R(1)), "Vec4 OneW");
	same(c, Vec4<R>::OneXnw, Vec4<R>(R(1), R(0), R(0), R(0)), "Vec4 OneXnw"); same(c, Vec4<R>::OneYnw, Vec4<R>(R(0), R(1), R(0), R(0)), "Vec4 OneYnw"); same(c, Vec4<R>::OneZnw, Vec4<R>(R(0), R(0), R(1), R(0)), "Vec4 OneZnw"); same(c, Vec4<R>::Zero, Vec4<R>(R(0), R(0), R(0), R(0)), "Vec4 Zero");
}

// Algebraic identities on larger products of operations (no reference needed)
template <class R> void identities(Case& c) {
	Vec3<R> a = c.in("a", gVec3<R>(c.r)), b = c.in("b", gVec3<R>(c.r)), d = c.in("d", gVec3<R>(c.r));
	V3<R> ea(a), eb(b), ed(d);
	c.near(a * (b % d), dot(ea, cross(eb, ed)), "triple product");
	near(c, a % (b % d), cross(ea, cross(eb, ed)), "a%(b%d)");
	near(c, (a + b) % d, cross(ea + eb, ed), "(a+b)%d");
	E<R> o = dot(cross(ea, eb), ea);
	c.near((a % b) * a, E<R>(0, o.e), "a%b orthogonal to a");
}

// vectors and the same vectors in another unit of length
template <class R> void scaled(Case& c) {
	Vec3<R> u = c.in("u", gSim3<R>(c.r)), v = c.in("v", c.r.p(0.1) ? u * R(2) : gSim3<R>(c.r)); Vec2<R> p(u.x, u.y), q(v.x, v.y); R k = c.in("k", gSim<R>(c.r)), w = gSim<R>(c.r); c.cls("zero vector", u.isNull());
	similar<R>(c, "3D vectors in another unit of length", 3, [&](Sc<R>& o) {
		Vec3<R> a = o.len(u), b = o.len(v); R kl = o.len(k); bool n = o.b(a.isNull()); o.v(a.length(), 1); o.v(a.lengthSqr(), 2); o.v(distance(a, b), 1); o.v(distanceSqr(a, b), 2); o.v(a * b, 2); o.v(a % b, 2); o.v(Vec3<R>::product(a, b), 2); o.b(a == b); o.b(a != b);
		o.i(int(a.majorCoord())); o.i(int(a.minorCoord())); o.v(a + b, 1); o.v(a - b, 1); o.v(Vec3<R>::min(a, b), 1); o.v(Vec3<R>::max(a, b), 1); o.v(a * kl, 2); if (kl != 0) o.v(a / kl, 0);
		if (!n) { o.v(a.normalized(), 0); o.v(a.normalized(kl), 1); Vec3<R> m = a; o.v(m.normalize(kl), 1); o.v(m, 1); m = a; o.v(m.normalize(), 1); o.v(m, 0); } });
	similar<R>(c, "2D vectors in another unit of length", 3, [&](Sc<R>& o) {
		Vec2<R> a = o.len(p), b = o.len(q); R kl = o.len(k); bool n = o.b(a.isNull()); o.v(a.length(), 1); o.v(a.lengthSqr(), 2); o.v(distance(a, b), 1); o.v(distanceSqr(a, b), 2); o.v(a * b, 2); o.v(a % b, 2); o.v(Vec2<R>::product(a, b), 2); o.v(Vec2<R>::crossProduct(a, b, Vec2<R>(kl, kl)), 2); o.b(a == b); o.b(a != b);
		o.i(int(a.majorCoord())); o.i(int(a.minorCoord())); o.v(a + b, 1); o.v(a - b, 1); o.v(Vec2<R>::min(a, b), 1); o.v(Vec2<R>::max(a, b), 1); o.v(a * kl, 2); if (kl != 0) o.v(a / kl, 0);
		if (!n) { o.v(a.angle(), 0); o.v(a.normalized(), 0); o.v(a.normalized(kl), 1); Vec2<R> m = a; o.v(m.normalize(kl), 1); o.v(m, 1); m = a; o.v(m.normalize(), 1); o.v(m, 0); } });
	similar<R>(c, "4D vectors in another unit of length", 3, [&](Sc<R>& o) {
		Vec4<R> a(o.len(u.x), o.len(u.y), o.len(u.z), o.len(w)), b(o.len(v.x), o.len(v.y), o.len(v.z), o.len(k)); o.b(a.isNull()); o.b(a == b); o.b(a != b); Vec4<R> d = a - b; o.v(d.x, 1); o.v(d.y, 1); o.v(d.z, 1); o.v(d.w, 1); });
}
// what multiplies no two lengths holds at every scale at which the vectors exist
template <class R> void linear(Case& c) {
	Vec3<R> u = c.in("u", c.r.p(0.1) ? Vec3<R>(0, 0, 0) : gSim3<R>(c.r)), v = c.in("v", c.r.p(0.2) ? u : gSim3<R>(c.r)); if (c.r.p(0.2)) { v = u; v[Coord(c.r.n(3))] = gSim<R>(c.r); c.in("all but one", v); } R k = c.in("k", gSim<R>(c.r)), w = c.in("w", c.r.p(0.3) ? R(0) : gSim<R>(c.r)), z = c.r.p(0.5) ? w : gSim<R>(c.r); int e = c.in("axis", c.r.n(3)); c.cls("zero vector", u.isNull()); c.cls("equal", u == v);
	similar<R>(c, "3D vectors at any scale", 1, [&](Sc<R>& o) {
		Vec3<R> a = o.len(u), b = o.len(v), d; o.b(a.isNull()); o.b(a == b); o.b(a != b); o.i(int(a.majorCoord())); o.i(int(a.minorCoord())); o.v(a + b, 1); o.v(a - b, 1); o.v(-a, 1); o.v(Vec3<R>::min(a, b), 1); o.v(Vec3<R>::max(a, b), 1); o.v(a * k, 1); if (k != 0) o.v(a / k, 1); o.v(a.mirrored(Coord(e)), 1);
		d = a; d += b; o.v(d, 1); d = a; d -= b; o.v(d, 1); d = a; d *= k; o.v(d, 1); d = a; if (k != 0) o.v(d /= k, 1); d = a; o.v(d.mirror(Coord(e)), 1); o.b((a - b).isNull()); });
	Vec2<R> p(u.x, u.y), q(v.x, v.y);
	similar<R>(c, "2D vectors at any scale", 1, [&](Sc<R>& o) {
		Vec2<R> a = o.len(p), b = o.len(q), d; o.b(a.isNull()); o.b(a == b); o.b(a != b); o.i(int(a.majorCoord())); o.i(int(a.minorCoord())); o.v(a + b, 1); o.v(a - b, 1); o.v(-a, 1); o.v(Vec2<R>::min(a, b), 1); o.v(Vec2<R>::max(a, b), 1); o.v(a * k, 1); if (k != 0) o.v(a / k, 1); o.v(a.mirrored(Coord(e % 2)), 1); o.v(a.rotated90(), 1); o.v(a.rotated180(), 1); o.v(a.rotated270(), 1);
		d = a; d += b; o.v(d, 1); d = a; d -= b; o.v(d, 1); d = a; d *= k; o.v(d, 1); d = a; if (k != 0) o.v(d /= k, 1); d = a; o.v(d.mirror(Coord(e % 2)), 1); d = a; o.v(d.rotate90(), 1); d = a; o.v(d.rotate270(), 1); o.b((a - b).isNull()); });
	similar<R>(c, "4D vectors at any scale", 1, [&](Sc<R>& o) {
		Vec4<R> a(o.len(u.x), o.len(u.y), o.len(u.z), o.len(w)), b(o.len(v.x), o.len(v.y), o.len(v.z), o.len(z)), d; auto out = [&](const Vec4<R>& x) { o.v(x.x, 1); o.v(x.y, 1); o.v(x.z, 1); o.v(x.w, 1); }; o.b(a.isNull()); o.b(a == b); o.b(a != b); out(a + b); out(a - b); out(-a); out(a * k); if (k != 0) out(a / k); d = a; out(d *= k); o.b((a - b).isNull()); });
}
// operations on a vector with an argument of its own
template <class R> void owns(Case& c) {
	typedef Vec2<R> P; typedef Vec3<R> V; typedef Vec4<R> W; typedef const P CP; typedef const V CV; typedef const W CW;
	V v = c.in("v", gOwn3<R>(c.r)); P p = c.in("p", gOwn2<R>(c.r)); int i = c.in("component", c.r.n(3)), j = i % 2, l = c.r.n(3); Mat3<R> m(gOwn3<R>(c.r), gOwn3<R>(c.r), gOwn3<R>(c.r)); Mat2<R> n(gOwn2<R>(c.r), gOwn2<R>(c.r));
	c.in("m", m.x); c.in("m.y", m.y); c.in("m.z", m.z);
	c.cls("zero component", v[Coord(i)] == 0);
	own<R>(c, "Vec2 *= own component", p, [&](P& a, CP& b) { a *= b.data()[j]; });
	if (p[Coord(j)] != 0) { own<R>(c, "Vec2 /= own component", p, [&](P& a, CP& b) { a /= b.data()[j]; }); own<R>(c, "Vec2 normalize to own component", p, [&](P& a, CP& b) { a.normalize(b.data()[j]); }); }
	own<R>(c, "Vec2 += itself", p, [](P& a, CP& b) { a += b; }); own<R>(c, "Vec2 -= itself", p, [](P& a, CP& b) { a -= b; });
	own<R>(c, "Vec2 set to itself", p, [](P& a, CP& b) { a.set(b); }); own<R>(c, "Vec2 set from its components", p, [](P& a, CP& b) { a.set(b.data()[1], b.data()[0]); });
	own<R>(c, "Vec2 set of a component to another", p, [&](P& a, CP& b) { a.set(Coord(j), b.data()[1 - j]); }); own<R>(c, "Vec2 setAngle from its components", p, [](P& a, CP& b) { a.setAngle(b.data()[0], b.data()[1]); });
	own<R>(c, "Vec2 setAngle from its components, swapped", p, [](P& a, CP& b) { a.setAngle(b.data()[1], b.data()[0]); });
	own<R>(c, "row of a 2x2 matrix times the matrix", n, [&](Mat2<R>& a, const Mat2<R>& b) { (j ? a.y : a.x) *= b; });
	own<R>(c, "Vec3 *= own component", v, [&](V& a, CV& b) { a *= b.data()[i]; });
	if (v[Coord(i)] != 0) { own<R>(c, "Vec3 /= own component", v, [&](V& a, CV& b) { a /= b.data()[i]; }); own<R>(c, "Vec3 normalize to own component", v, [&](V& a, CV& b) { a.normalize(b.data()[i]); }); }
	own<R>(c, "Vec3 += itself", v, [](V& a, CV& b) { a += b; }); own<R>(c, "Vec3 -= itself", v, [](V& a, CV& b) { a -= b; }); own<R>(c, "Vec3 %= itself", v, [](V& a, CV& b) { a %= b; });
	own<R>(c, "Vec3 set to itself", v, [](V& a, CV& b) { a.set(b); }); own<R>(c, "Vec3 set from its components", v, [](V& a, CV& b) { a.set(b.data()[1], b.data()[2], b.data()[0]); });
	own<R>(c, "Vec3 set of a component to another", v, [&](V& a, CV& b) { a.set(Coord(i), b.data()[l]); });
	own<R>(c, "row of a 3x3 matrix times the matrix", m, [&](Mat3<R>& a, const Mat3<R>& b) { (i == 0 ? a.x : i == 1 ? a.y : a.z) *= b; });
	own<R>(c, "row of a 3x3 matrix crossed with another", m, [&](Mat3<R>& a, const Mat3<R>& b) { const V* r = &b.x; (&a.x)[i] %= r[l]; });
	W w(v.x, v.y, v.z, gOwn<R>(c.r)); int h = c.r.n(4);
	own<R>(c, "Vec4 *= own component", w, [&](W& a, CW& b) { a *= (&b.x)[h]; });
	if ((&w.x)[h] != 0) own<R>(c, "Vec4 /= own component", w, [&](W& a, CW& b) { a /= (&b.x)[h]; });
	own<R>(c, "Vec4 += itself", w, [](W& a, CW& b) { a += b; }); own<R>(c, "Vec4 -= itself", w, [](W& a, CW& b) { a -= b; });
}
void vf::registerAll() {
	VF_BOTH(arith2, "vec2", 40000, "tie");
	VF_BOTH(arith3, "vec3", 40000, "tie");
	VF_BOTH(arith4, "vec4", 30000);
	VF_BOTH(identities, "identities", 20000);
	VF_BOTH(scaled, "another unit", 60000, "zero vector"); VF_BOTH(linear, "any scale", 60000, "zero vector", "equal");
	VF_BOTH(owns, "own parts", 8000, "zero component", "Vec3 /= own component", "Vec2 normalize to own component", "Vec4 /= own component");
}
VF_MAIN()
