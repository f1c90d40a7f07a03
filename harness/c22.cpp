// C22: lines, rays, triangles and the intersection of two lines in the plane
#include "geo.h"
#include "scale.h"
using namespace vf;
using namespace mathlib;
template <class D> bool eqv(const typename D::V& a, const typename D::V& b) { for (int i = 0; i < D::N; i++) if (D::at(a, i) != D::at(b, i)) return false; return true; }
template <class D> void vnear(Case& c, const typename D::V& got, std::function<E<typename D::Real>(int)> f, const char* site, L K = 6) { L m = 0; for (int i = 0; i < D::N; i++) m = std::max(m, (L)f(i).e); for (int i = 0; i < D::N; i++) { auto e = f(i); e.e = m; c.near(D::at(got, i), e, site, K); } }
template <class D> void vsame(Case& c, const typename D::V& a, const typename D::V& b, const char* site) { for (int i = 0; i < D::N; i++) c.same(D::at(a, i), D::at(b, i), site); }
template <class D, class F> E<typename D::Real> elen(F f) { E<typename D::Real> s(0); for (int i = 0; i < D::N; i++) { auto x = f(i); s = s + x * x; } return esqrt(s); }
// distance of a point from the line start + t*dir, and a bound on what rounding may do to it
template <class D> void lineDist(const typename D::V& s, const typename D::V& p, std::function<L(int)> dir, L& dist, L& tol) {
	typedef typename D::Real R; L dd = 0, dp = 0, pp = 0, mag = 0; L d[3], v[3]; for (int i = 0; i < D::N; i++) { d[i] = dir(i); v[i] = (L)D::at(p, i) - D::at(s, i); dd += d[i] * d[i]; dp += d[i] * v[i]; pp += v[i] * v[i]; mag = std::max(mag, fabsl((L)D::at(p, i)) + fabsl((L)D::at(s, i))); }
	L r = 0; for (int i = 0; i < D::N; i++) { L x = v[i] - d[i] * (dp / dd); r += x * x; } dist = sqrtl(r); tol = 24 * E<R>::u() * sqrtl(pp) + 1e-40L;
}
template <class D> void lines(Case& c) {
	typedef typename D::Real R; typedef typename D::V V; typedef typename D::Line Ln; typedef E<R> X;
	V s = c.in("start", D::vec(c.r)), e = c.in("end", c.r.p(0.05) ? s : D::vec(c.r)); Ln l = Ln::from(s, e); vsame<D>(c, l.start, s, "Line::from"); vsame<D>(c, l.end, e, "Line::from"); bool null = eqv<D>(s, e); c.cls("null", null); c.chk(l.isNull() == null, "isNull");
	{ V w = s; int wi = c.r.n(D::N); D::at(w, wi) += R(c.r.sgn()) * (R(1e-3) + std::fabs(D::at(s, wi))); c.chk(Ln::from(s, s).isNull(), "isNull"); c.chk(!Ln::from(s, w).isNull(), "isNull needs every coordinate equal"); }
	X len = elen<D>([&](int i) { return X(D::at(e, i)) - X(D::at(s, i)); }); c.near(l.length(), len, "length"); X l2(0); for (int i = 0; i < D::N; i++) { X d = X(D::at(e, i)) - X(D::at(s, i)); l2 = l2 + d * d; } c.near(l.lengthSqr(), l2, "lengthSqr");
	R t = c.in("t", c.r.p(0.3) ? R(c.r.in(-2, 3)) * R(0.5) : R(c.r.uni(-2, 3))); auto at = [&](int i) { X a(D::at(s, i)), b(D::at(e, i)); X v = a * (X(R(1)) - X(t)) + b * X(t); v.e += E<R>::u() * (fabsl(a.v) + fabsl(b.v)) * (1 + fabsl((L)t)); return v; };
	vnear<D>(c, l.pointAt(t), at, "pointAt"); vsame<D>(c, l.pointAt(R(0)), s, "pointAt(0) is the start"); vnear<D>(c, l.pointAt(R(1)), [&](int i) { X v(D::at(e, i)); v.e = E<R>::u() * (fabsl((L)D::at(s, i)) + fabsl((L)D::at(e, i))); return v; }, "pointAt(1) is the end");
	V p = c.r.p(0.3) ? l.pointAt(t) : c.r.p(0.2) ? V(l.pointAt(t) + D::all(R(c.r.logu(1e-6, 1e-1)))) : D::vec(c.r); c.in("p", p); R got = l.distance(p);
	if (null) c.near(got, elen<D>([&](int i) { return X(D::at(p, i)) - X(D::at(s, i)); }), "distance from a null line");
	else if (len.v > 1e-12L && len.e < 1e-3L * len.v) {
		L ref, tol; lineDist<D>(s, p, [&](int i) { return (L)D::at(e, i) - D::at(s, i); }, ref, tol); L pm = 0; for (int i = 0; i < D::N; i++) pm = std::max(pm, fabsl((L)D::at(p, i)) + fabsl((L)D::at(s, i)) + fabsl((L)D::at(e, i)));
		L pl = tol / (24 * E<R>::u()); L tot = tol + 8 * pl * (len.e / len.v) + 4 * E<R>::u() * pm; 
		// rounding of end - start turns the line by at most u*|coordinates|/length
		tot += 4 * E<R>::u() * pm / len.v * pl; c.nearAbs(got, ref, tot, "Line distance"); c.cls("on the line", ref < 1e-5L); c.cls("off the line", ref > 0.1L); c.chk(got >= 0, "a distance is not negative");
		c.nearAbs(l.distance(s), 0, tot + 4 * E<R>::u() * pm, "distance of the start"); c.nearAbs(l.distance(e), 0, tot + 16 * E<R>::u() * (pm + len.v), "distance of the end");
	}
	int ch = c.r.n(2 * D::N + 1); Ln k = l; if (ch < D::N) D::at(k.start, ch) += R(1) + std::fabs(D::at(k.start, ch)); else if (ch < 2 * D::N) D::at(k.end, ch - D::N) += R(1) + std::fabs(D::at(k.end, ch - D::N)); bool eq = ch == 2 * D::N; c.cls("equal", eq); c.chk((k == l) == eq && (l == k) == eq, "Line =="); c.chk((k != l) == !eq && (l != k) == !eq, "Line !=");
	auto cf = l.template cast<float>(); auto cd = l.template cast<double>(); const float* fs = &cf.start.x; const float* fe = &cf.end.x; const double* ds = &cd.start.x; const double* de = &cd.end.x; for (int i = 0; i < D::N; i++) { c.same(fs[i], float(D::at(s, i)), "Line cast"); c.same(fe[i], float(D::at(e, i)), "Line cast"); c.same(ds[i], double(D::at(s, i)), "Line cast"); c.same(de[i], double(D::at(e, i)), "Line cast"); }
}
template <class R> bool onRay3Line(const Ray3<R>& r, const Vec3<R>& p) { V3<R> v(p), s(r.start), d(r.direction); bool z = true; for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; E<R> x = (v[j] - s[j]) * d[k] - (v[k] - s[k]) * d[j]; if (fabsl(x.v) > 2 * x.e) z = false; } return z; } // to within rounding
template <class R> void rayDistance(Case& c, const Ray2<R>& r, const Vec2<R>& p, L ref, L tol) { c.nearAbs(r.distance(p), ref, tol, "Ray2 distance"); }
template <class R> void rayDistance(Case& c, const Ray3<R>& r, const Vec3<R>& p, L ref, L tol) {
	R g = r.distance(p);
	if (!(fabsl(g - ref) <= tol) && onRay3Line(r, p)) { Vec3<R> v = p - r.start; L l = sqrtl((L)v.x * v.x + (L)v.y * v.y + (L)v.z * v.z); if (fabsl(g - l) <= 8 * E<R>::u() * l + tol) { c.cls("on the line exactly"); c.nearAbs(g, ref, tol, "Ray3 distance of a point on its line"); return; } }
	c.nearAbs(g, ref, tol, "Ray3 distance");
}
template <class D> void rays(Case& c) {
	typedef typename D::Real R; typedef typename D::V V; typedef typename D::Ray Ry; typedef E<R> X;
	V s = c.in("start", D::vec(c.r)), d = c.in("dir", D::vec(c.r)); X dl = elen<D>([&](int i) { return X(D::at(d, i)); }); if (!(dl.v > 1e-9L)) { c.trivial = true; return; } Ry r = Ry::from(s, d); vsame<D>(c, r.start, s, "Ray::from");
	vnear<D>(c, r.direction, [&](int i) { return X(D::at(d, i)) / dl; }, "Ray::from normalises"); R t = c.in("t", c.r.p(0.1) ? R(0) : gReal<R>(c.r)); vnear<D>(c, r.pointAt(t), [&](int i) { return X(D::at(r.start, i)) + X(D::at(r.direction, i)) * X(t); }, "Ray pointAt");
	{ Ry q; q.start = s; q.direction = d; vnear<D>(c, q.pointAt(t), [&](int i) { return X(D::at(s, i)) + X(D::at(d, i)) * X(t); }, "Ray pointAt"); }
	V p = c.r.p(0.3) ? r.pointAt(t) : c.r.p(0.2) ? V(r.pointAt(t) + D::all(R(c.r.logu(1e-6, 1e-1)))) : D::vec(c.r); c.in("p", p); L ref, tol; lineDist<D>(s, p, [&](int i) { return (L)D::at(r.direction, i); }, ref, tol); L mag = 0; for (int i = 0; i < D::N; i++) mag = std::max(mag, fabsl((L)D::at(p, i)) + fabsl((L)D::at(s, i)));
	rayDistance<R>(c, r, p, ref, tol + 4 * E<R>::u() * mag); c.cls("on the line", ref < 1e-5L); c.cls("off the line", ref > 0.1L); L along = 0; for (int i = 0; i < D::N; i++) along += ((L)D::at(p, i) - D::at(s, i)) * D::at(r.direction, i); c.cls("behind the start", along < 0);
	if (!eqv<D>(p, s)) { rayDistance<R>(c, r, s, 0, 1e-30L); }
	int ch = c.r.n(2 * D::N + 1); Ry k = r; if (ch < D::N) D::at(k.start, ch) += R(1) + std::fabs(D::at(k.start, ch)); else if (ch < 2 * D::N) D::at(k.direction, ch - D::N) += R(3); bool eq = ch == 2 * D::N; c.cls("equal", eq); c.chk((k == r) == eq && (r == k) == eq, "Ray =="); c.chk((k != r) == !eq && (r != k) == !eq, "Ray !=");
	auto cf = r.template cast<float>(); auto cd = r.template cast<double>(); const float* fs = &cf.start.x; const float* fe = &cf.direction.x; const double* ds = &cd.start.x; const double* de = &cd.direction.x; for (int i = 0; i < D::N; i++) { c.same(fs[i], float(D::at(s, i)), "Ray cast"); c.same(ds[i], double(D::at(s, i)), "Ray cast"); c.nearAbs(fe[i], D::at(r.direction, i), 8 * E<float>::u(), "Ray cast"); c.nearAbs(de[i], D::at(r.direction, i), 8 * E<R>::u(), "Ray cast"); }
}
template <class R> void tri(Case& c) {
	typedef Vec2<R> V; typedef E<R> X; V a = c.in("a", gVec2<R>(c.r)), b = c.in("b", gVec2<R>(c.r)), k = c.in("c", gVec2<R>(c.r)); Tri2<R> t = Tri2<R>::from(a, b, k); same(c, t.a, a, "Tri2::from"); same(c, t.b, b, "Tri2::from"); same(c, t.c, k, "Tri2::from");
	double u = c.r.uni(-0.5, 1.5), v = c.r.uni(-0.5, 1.5); if (c.r.p(0.3)) u = 0; if (c.r.p(0.2)) v = 0; if (c.r.p(0.1)) v = 1 - u; V p = c.r.p(0.1) ? gVec2<R>(c.r) : V(a + (b - a) * R(u) + (k - a) * R(v)); c.in("p", p);
	auto cr = [](const V& o, const V& e, const V& q) { X x1 = X(e.x) - X(o.x), y1 = X(e.y) - X(o.y), x2 = X(q.x) - X(o.x), y2 = X(q.y) - X(o.y); X y3 = X(q.y) - X(e.y), x3 = X(q.x) - X(e.x); X r = x1 * y2 - x2 * y1, r2 = x1 * y3 - x3 * y1, r3 = X(e.x) * X(q.y) - X(q.x) * X(e.y) + X(q.x) * X(o.y) - X(o.x) * X(q.y) + X(o.x) * X(e.y) - X(e.x) * X(o.y); r.e = std::max(r.e, r2.e); (void)r3; return r; };
	X A = cr(a, b, k), c1 = cr(a, b, p), c2 = cr(b, k, p), c3 = cr(k, a, p); auto un = [](X x) { return fabsl(x.v) <= 8 * x.e; };
	if (un(A)) { c.cls("degenerate"); return; } L sg = A.v > 0 ? 1 : -1; c.cls("counter-clockwise", sg > 0); c.cls("clockwise", sg < 0); bool got = t.contains(p);
	bool dn = false, dp = false; for (const X* q : {&c1, &c2, &c3}) if (!un(*q)) { if (sg * q->v < 0) dn = true; else dp = true; }
	bool out = dn && dp, in = !dn && !un(c1) && !un(c2) && !un(c3);   // outside a triangle some edge sees the point on either side
	c.cls("inside", in); c.cls("outside", out); c.cls("outside one edge", out && (sg * c1.v < 0) + (sg * c2.v < 0) + (sg * c3.v < 0) == 1); c.cls("outside two edges", out && (sg * c1.v < 0) + (sg * c2.v < 0) + (sg * c3.v < 0) == 2);
	if (in) c.chk(got, "a point inside the triangle is contained"); if (out) c.chk(!got, "a point outside the triangle is not contained");
	// exact on an integer grid: vertices, edges, winding and rotation of the vertices do not matter
	auto gi = [&]() { return V(R(c.r.in(-8, 8)), R(c.r.in(-8, 8))); }; V q[3] = {gi(), gi(), gi()}; V z = c.r.p(0.3) ? q[c.r.n(3)] : gi(); auto ic = [](const V& o, const V& e, const V& w) { return long(e.x - o.x) * long(w.y - o.y) - long(e.y - o.y) * long(w.x - o.x); };
	if (c.r.p(0.15)) { V d(R(c.r.in(-3, 3)), R(c.r.in(-3, 3))); q[1] = q[0] + d * R(c.r.in(-3, 3)); q[2] = q[0] + d * R(c.r.in(-3, 3)); if (c.r.p(0.8)) z = q[0] + d * R(c.r.in(-4, 4)); }
	c.in("grid a", q[0]); c.in("grid b", q[1]); c.in("grid c", q[2]); c.in("grid p", z);
	long ia = ic(q[0], q[1], q[2]), g = ia > 0 ? 1 : -1; long e0 = g * ic(q[0], q[1], z), e1 = g * ic(q[1], q[2], z), e2 = g * ic(q[2], q[0], z); bool ref = e0 >= 0 && e1 >= 0 && e2 >= 0;
	if (ia == 0) {   // a segment or a point
		auto lo = [](R x, R y, R w) { return std::min(x, std::min(y, w)); }; auto hi = [](R x, R y, R w) { return std::max(x, std::max(y, w)); };
		ref = !e0 && !e1 && !e2 && z.x >= lo(q[0].x, q[1].x, q[2].x) && z.x <= hi(q[0].x, q[1].x, q[2].x) && z.y >= lo(q[0].y, q[1].y, q[2].y) && z.y <= hi(q[0].y, q[1].y, q[2].y);
		c.cls(ref ? "on a flat triangle" : !e0 && !e1 && !e2 ? "beyond a flat triangle" : "beside a flat triangle"); c.cls("a triangle that is one point", q[0] == q[1] && q[0] == q[2]);
	} else { c.cls("on an edge or vertex", ref && (!e0 || !e1 || !e2)); c.cls("on the line of an edge, outside", !ref && (!e0 || !e1 || !e2)); }
	int pr[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}}; for (auto& w : pr) c.chk(Tri2<R>::from(q[w[0]], q[w[1]], q[w[2]]).contains(z) == ref, "containment on a grid, any vertex order", "expected %d", int(ref));
	int ch = c.r.n(7); Tri2<R> o = t; R* f = ch < 2 ? &o.a.x : ch < 4 ? &o.b.x : &o.c.x; if (ch < 6) f[ch & 1] += R(1) + std::fabs(f[ch & 1]); c.cls("equal", ch == 6); c.chk((o == t) == (ch == 6), "Tri2 =="); c.chk((o != t) == (ch != 6), "Tri2 !=");
	auto cf = t.template cast<float>(); auto cd = t.template cast<double>(); c.same(cf.a.x, float(a.x), "Tri2 cast"); c.same(cf.a.y, float(a.y), "Tri2 cast"); c.same(cf.b.x, float(b.x), "Tri2 cast"); c.same(cf.b.y, float(b.y), "Tri2 cast"); c.same(cf.c.x, float(k.x), "Tri2 cast"); c.same(cf.c.y, float(k.y), "Tri2 cast"); c.same(cd.a.x, double(a.x), "Tri2 cast"); c.same(cd.b.y, double(b.y), "Tri2 cast"); c.same(cd.c.x, double(k.x), "Tri2 cast");
}
template <class R> void cross2(Case& c) {
	typedef Vec2<R> V; typedef E<R> X; V f = c.in("from", gVec2<R>(c.r)), t = c.in("to", gVec2<R>(c.r)), a = c.in("a", gVec2<R>(c.r)), b = c.in("b", gVec2<R>(c.r)); R p1 = 7, p2 = 7; int n = intersection(f, t, a, b, p1, p2);
	X fx = X(t.x) - X(f.x), fy = X(t.y) - X(f.y), ax = X(b.x) - X(a.x), ay = X(b.y) - X(a.y), gx = X(a.x) - X(f.x), gy = X(a.y) - X(f.y), det = fx * ay - fy * ax;
	if (det.v != 0 && fabsl(det.v) > 8 * det.e) { c.cls("cross"); if (!c.chk(n == 1, "two lines cross")) return; X l = (gx * ay - gy * ax) / det, m = (gx * fy - gy * fx) / det; c.near(p1, l, "parameter on the first line"); c.near(p2, m, "parameter on the second line");
		L tol = 8 * (l.e * (fabsl(fx.v) + fabsl(fy.v)) + m.e * (fabsl(ax.v) + fabsl(ay.v))); L x1 = f.x + fx.v * p1, y1 = f.y + fy.v * p1, x2 = a.x + ax.v * p2, y2 = a.y + ay.v * p2; c.chk(fabsl(x1 - x2) <= tol && fabsl(y1 - y2) <= tol, "both parameters give the same point", "off by %.17Lg %.17Lg", x1 - x2, y1 - y2); c.cls("between the ends", l.v > 0 && l.v < 1 && m.v > 0 && m.v < 1); c.cls("outside the ends", l.v < 0 || l.v > 1); }
	// exact on a grid: parallel lines
	V g(R(c.r.in(-9, 9)), R(c.r.in(-9, 9))), d(R(c.r.in(-9, 9)), R(c.r.in(-9, 9))), h(R(c.r.in(-9, 9)), R(c.r.in(-9, 9))); R k = R(c.r.in(-4, 4)); p1 = p2 = 7; c.chk(intersection(g, V(g + d), h, V(h + d * k), p1, p2) == 0 && p1 == 0 && p2 == 0, "parallel lines do not cross", "got %.9g %.9g", double(p1), double(p2));
	V e(R(c.r.in(-9, 9)), R(c.r.in(-9, 9))); long dd = long(d.x) * long(e.y) - long(d.y) * long(e.x); c.chk(intersection(g, V(g + d), h, V(h + e), p1, p2) == (dd != 0), "grid lines cross unless parallel");
}
// lines, rays, triangles and crossings in another unit of length
template <class D> void scaled(Case& c) {
	typedef typename D::Real R; typedef typename D::V V; auto pt = [&]() { return map<D>([&](int) { return gSim<R>(c.r); }); }; V s = c.in("start", pt()), e = c.in("end", c.r.p(0.05) ? s : pt()), p = c.in("p", pt()); R t = c.in("t", gSim<R>(c.r));
	similar<R>(c, "lines in another unit of length", 4, [&](Sc<R>& o) { V a = o.len(s), b = o.len(e), q = o.len(p); typename D::Line l = D::Line::from(a, b); o.v(l.length(), 1); o.v(l.lengthSqr(), 2); o.v(l.pointAt(t), 1); o.b(l == D::Line::from(a, q)); if (!o.b(l.isNull())) o.v(l.distance(q), 1); });
	if (s == e) { c.cls("null"); return; }
	similar<R>(c, "rays in another unit of length", 4, [&](Sc<R>& o) { V a = o.len(s), b = o.len(e), q = o.len(p); typename D::Ray r = D::Ray::from(a, b - a); o.v(r.start, 1); o.v(r.direction, 0); o.v(r.pointAt(o.len(t)), 1); o.v(r.distance(q), 1); });
}
template <class R> void scaled2(Case& c) {
	typedef Vec2<R> V; V a = c.in("a", gSim2<R>(c.r)), b = c.in("b", gSim2<R>(c.r)), d = c.in("c", gSim2<R>(c.r)), p = c.in("p", gSim2<R>(c.r)); bool in = false; if (c.r.p(0.4)) { double u = c.r.u01(), v = c.r.u01(); p = a + (b - a) * R(u) + (d - a) * R((1 - u) * v); c.in("in the triangle", p); }
	similar<R>(c, "triangles and crossings in another unit of length", 4, [&](Sc<R>& o) { V A = o.len(a), B = o.len(b), C = o.len(d), P = o.len(p); in = o.b(Tri2<R>::from(A, B, C).contains(P)); R x = 0, y = 0; int n = intersection(A, B, C, P, x, y); o.i(n); if (n == 1) { o.v(x, 0); o.v(y, 0); } });
	c.cls("inside", in);
}
void vf::registerAll() {
	VF_DIMS(lines, "line", 80000, "null", "on the line", "off the line", "equal");
	VF_DIMS(rays, "ray", 80000, "on the line", "off the line", "behind the start", "equal");
	VF_BOTH(tri, "triangle", 150000, "counter-clockwise", "clockwise", "inside", "outside", "outside one edge", "outside two edges", "on an edge or vertex", "on the line of an edge, outside", "equal", "on a flat triangle", "beyond a flat triangle", "beside a flat triangle", "a triangle that is one point");
	VF_BOTH(cross2, "intersection", 150000, "cross", "between the ends", "outside the ends");
	VF_DIMS(scaled, "another unit", 40000, "null"); VF_BOTH(scaled2, "another unit, flat", 60000, "inside");
}
VF_MAIN()
