// C08: rotations and frames built from an angle, an axis, a quaternion or two directions are proper rotations,
// the same one whichever class builds them
#include "matops.h"
#include "alias.h"
#include "scale.h"
using namespace vf;
using namespace mathlib;

template <class R> RM<R> lin3(const Mat3<R>& m) { return ref(m); }
template <class R> RM<R> lin3(const Mat34<R>& m) { return lin(ref(m)); }
template <class R> RM<R> lin3(const Mat4<R>& m) { return lin(ref(m)); }
template <class R> void within(Case& c, const RM<R>& g, const RM<R>& w, L tol, const char* site) {
	for (int i = 0; i < w.n; i++) for (int j = 0; j < w.n; j++) if (!(fabsl(g.a[i][j].v - w.a[i][j].v) <= tol)) { c.chk(false, site, "got %s expected %s", show(g).c_str(), show(w).c_str()); return; }
	c.chk(true, site);
}
// orthonormal columns, determinant +1
template <class R> void rotation(Case& c, const RM<R>& m, const char* site, L K = 64) {
	L t = K * E<R>::u();
	for (int j = 0; j < m.n; j++) for (int k = j; k < m.n; k++) {
		L d = -(j == k); for (int i = 0; i < m.n; i++) d += m.a[i][j].v * m.a[i][k].v;
		if (!(fabsl(d) <= t)) { c.chk(false, site, "columns %d,%d: %Lg in %s", j, k, d, show(m).c_str()); return; }
	}
	L d;
	if (m.n == 2) d = m.a[0][0].v * m.a[1][1].v - m.a[0][1].v * m.a[1][0].v;
	else { d = 0; for (int j = 0; j < 3; j++) d += m.a[0][j].v * (m.a[1][(j + 1) % 3].v * m.a[2][(j + 2) % 3].v - m.a[1][(j + 2) % 3].v * m.a[2][(j + 1) % 3].v); }
	c.chk(fabsl(d - 1) <= t, site, "determinant %Lg of %s", d, show(m).c_str());
}
template <class R> void rest(Case& c, const Mat3<R>&, const Vec3<R>&, const char*) {}
template <class R> void rest(Case& c, const Mat34<R>& m, const Vec3<R>& t, const char* site) { same(c, m.t, t, site); }
template <class R> void rest(Case& c, const Mat4<R>& m, const Vec3<R>& t, const char* site) { same(c, m.t, Vec4<R>(t.x, t.y, t.z, R(1)), site); c.chk(m.x.w == 0 && m.y.w == 0 && m.z.w == 0, site, "bottom row"); }

template <class R> void angle2(Case& c) {
	R a = c.in("a", gAngle<R>(c.r));
	Mat2<R> m; Mat2<R>* p = &m.set(a);
	c.chk(p == &m, "Mat2 set(angle) returns itself");
	chkM(c, ref(m), {rRot2(a)}, "Mat2 set(angle)"); chkM(c, ref(Mat2<R>::from(a)), {rRot2(a)}, "Mat2 from(angle)");
	rotation(c, ref(m), "Mat2 set(angle) is a rotation");
	L d = remainderl((L)m.angle() - a, 2 * PIL);
	c.chk(fabsl(d) <= 16 * E<R>::u() * (1 + fabsl(a)), "Mat2 angle() gives the angle back", "%Lg", d);
	c.chk(m.isOrthonormal(), "Mat2 set(angle) is flagged orthonormal");
	Vec2<R> v = c.in("v", gVec2<R>(c.r));
	Mat2<R> g = gMat2<R>(c, "g"); RM<R> G = ref(g);
	if (hypotl(G.a[0][0].v, G.a[1][0].v) > 1e-3L) {
		L t = atan2l(G.a[1][0].v, G.a[0][0].v);
		Mat2<R> o = g; o.orthonormalise();
		rotation(c, ref(o), "Mat2 orthonormalise is a rotation");
		c.nearAbs(o.x.x, cosl(t), 16 * E<R>::u(), "Mat2 orthonormalise keeps the x direction"); c.nearAbs(o.x.y, sinl(t), 16 * E<R>::u(), "Mat2 orthonormalise keeps the x direction");
	}
}
template <class R, class T> void axisT(Case& c, const T& m, const RM<R>& W, const Vec3<R>& t, const char* site) {
	chkM(c, lin3(m), {W}, site); rest(c, m, t, site);
	rotation(c, lin3(m), site, 200); c.chk(m.isOrthonormal(), site, "not flagged orthonormal");
}
template <class R> bool sameRot(const Quat<R>& q, L x, L y, L z, L w, L tol) {
	L d1 = fabsl(q.x - x) + fabsl(q.y - y) + fabsl(q.z - z) + fabsl(q.w - w), d2 = fabsl(q.x + x) + fabsl(q.y + y) + fabsl(q.z + z) + fabsl(q.w + w);
	return std::min(d1, d2) <= tol;
}
template <class R> void axisAngle(Case& c) {
	Vec3<R> ax = c.in("axis", gAxis<R>(c.r)); R a = c.in("ang", gAngle<R>(c.r));
	Vec3<R> z(R(0), R(0), R(0)), t = c.in("t", gTrans<R>(c));
	RM<R> W = rRotA<R>(ax, a);
	Mat3<R> m3; m3.set(ax, a); axisT(c, m3, W, z, "Mat3 set(axis,angle)"); axisT(c, Mat3<R>::from(ax, a), W, z, "Mat3 from(axis,angle)");
	Mat34<R> m34; m34.set(ax, a, t); axisT(c, m34, W, t, "Mat34 set(axis,angle,t)"); axisT(c, Mat34<R>::from(ax, a, t), W, t, "Mat34 from(axis,angle,t)");
	m34.set(ax, a); axisT(c, m34, W, z, "Mat34 set(axis,angle)"); axisT(c, Mat34<R>::from(ax, a), W, z, "Mat34 from(axis,angle)");
	Mat4<R> m4 = gMat4<R>(c, "old"); m4.set(ax, a); axisT(c, m4, W, z, "Mat4 set(axis,angle)"); axisT(c, Mat4<R>::from(ax, a), W, z, "Mat4 from(axis,angle)");
	Quat<R> q; q.set(ax, a);
	L l = sqrtl((L)ax.x * ax.x + (L)ax.y * ax.y + (L)ax.z * ax.z), s = sinl((L)a / 2) / l, w = cosl((L)a / 2), u = E<R>::u() * (8 + fabsl(a));
	c.chk(sameRot(q, s * ax.x, s * ax.y, s * ax.z, w, 8 * u), "Quat set(axis,angle)"); Quat<R> q2 = Quat<R>::from(ax, a);
	c.chk(alike<R>(q2, q), "Quat from(axis,angle) is set(axis,angle)");
	within(c, ref(Mat3<R>::from(q)), W, 16 * u, "Mat3 from the quaternion of the axis and angle");
	// the axis is kept, a perpendicular vector turns by the angle, right-handed
	Vec3<R> k = m3 * ax; R tol = R(100 * E<R>::u() * l);
	c.chk(fabsl((L)k.x - ax.x) <= tol && fabsl((L)k.y - ax.y) <= tol && fabsl((L)k.z - ax.z) <= tol, "a rotation leaves its axis");
}
template <class R> void coordAngle(Case& c) {
	int ax = c.in("c", c.r.n(3)); R a = c.in("ang", gAngle<R>(c.r));
	Vec3<R> z(R(0), R(0), R(0)), t = c.in("t", gTrans<R>(c)), u(R(ax == 0), R(ax == 1), R(ax == 2));
	RM<R> W = rRotC<R>(ax, a); Coord C = Coord(ax);
	Mat3<R> m3 = gMat3<R>(c, "old3"); m3.set(C, a); axisT(c, m3, W, z, "Mat3 set(coord,angle)"); axisT(c, Mat3<R>::from(C, a), W, z, "Mat3 from(coord,angle)");
	Mat34<R> m34; m34.set(C, a, t); axisT(c, m34, W, t, "Mat34 set(coord,angle,t)"); axisT(c, Mat34<R>::from(C, a, t), W, t, "Mat34 from(coord,angle,t)");
	m34.set(C, a); axisT(c, m34, W, z, "Mat34 set(coord,angle)"); axisT(c, Mat34<R>::from(C, a), W, z, "Mat34 from(coord,angle)");
	Mat4<R> m4 = gMat4<R>(c, "old"); m4.set(C, a); axisT(c, m4, W, z, "Mat4 set(coord,angle)"); axisT(c, Mat4<R>::from(C, a), W, z, "Mat4 from(coord,angle)");
	within(c, ref(Mat3<R>::from(u, a)), W, 16 * E<R>::u(), "axis angle about a coordinate axis is the coordinate rotation");
}
template <class R> void quatMat(Case& c) {
	Quat<R> q = in(c, "q", gQuat<R>(c.r));
	Vec3<R> z(R(0), R(0), R(0)), t = c.in("t", gTrans<R>(c));
	RM<R> W = rRotQ<R>(q);
	Mat3<R> m3; m3.set(q); axisT(c, m3, W, z, "Mat3 set(Quat)"); axisT(c, Mat3<R>::from(q), W, z, "Mat3 from(Quat)");
	Mat34<R> m34; m34.set(q, t); axisT(c, m34, W, t, "Mat34 set(Quat,t)"); axisT(c, Mat34<R>::from(q, t), W, t, "Mat34 from(Quat,t)"); axisT(c, Mat34<R>::from(q), W, z, "Mat34 from(Quat)");
	Mat4<R> m4 = gMat4<R>(c, "old"); m4.set(q, t); axisT(c, m4, W, t, "Mat4 set(Quat,t)"); axisT(c, Mat4<R>::from(q, t), W, t, "Mat4 from(Quat,t)"); axisT(c, Mat4<R>::from(q), W, z, "Mat4 from(Quat)");
	L tr = W.a[0][0].v + W.a[1][1].v + W.a[2][2].v;
	c.cls(tr > 0 ? "trace > 0" : W.a[0][0].v > W.a[1][1].v && W.a[0][0].v > W.a[2][2].v ? "x dominant" : W.a[1][1].v > W.a[2][2].v ? "y dominant" : "z dominant");
	L tol = 64 * E<R>::u();
	Quat<R> a; a.set(m3); c.chk(sameRot(a, q.x, q.y, q.z, q.w, tol), "Quat set(Mat3) inverts Mat3 set(Quat)", "got (%g %g %g %g)", double(a.x), double(a.y), double(a.z), double(a.w));
	c.chk(alike<R>(Quat<R>::from(m3), a), "Quat from(Mat3) is set(Mat3)");
	a.set(m4); c.chk(sameRot(a, q.x, q.y, q.z, q.w, tol), "Quat set(Mat4) inverts Mat4 set(Quat)", "got (%g %g %g %g)", double(a.x), double(a.y), double(a.z), double(a.w));
	c.chk(alike<R>(Quat<R>::from(m4), a), "Quat from(Mat4) is set(Mat4)");
	// orthonormalise: a rotation stays, a perturbed one comes back near
	L e = c.r.p(0.3) ? 0 : c.r.logu(1e-4, 0.1);
	c.in("e", R(e)); c.cls(e == 0 ? "orthonormalise a rotation" : "orthonormalise a perturbed rotation");
	Vec3<R> k[3]; for (int j = 0; j < 3; j++) k[j] = Vec3<R>(R(W.a[0][j].v + e * c.r.uni(-1, 1)), R(W.a[1][j].v + e * c.r.uni(-1, 1)), R(W.a[2][j].v + e * c.r.uni(-1, 1)));
	Mat3<R> p(k[0], k[1], k[2]); Mat4<R> p4(k[0], k[1], k[2], t);
	p.orthonormalise(); p4.orthonormalise();
	auto fin = [&](const RM<R>& G, const char* site, const char* site2) {
		rotation(c, G, site);
		L d = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) d = std::max(d, fabsl(G.a[i][j].v - W.a[i][j].v));
		c.chk(d <= 8 * e + 100 * E<R>::u(), site2, "off by %Lg for a perturbation of %Lg", d, e);
	};
	fin(ref(p), "Mat3 orthonormalise is a rotation", "Mat3 orthonormalise stays near"); fin(lin(ref(p4)), "Mat4 orthonormalise is a rotation", "Mat4 orthonormalise stays near");
	c.chk(p4.isTrs(), "Mat4 orthonormalise is TRS");
	// any matrix at all becomes a rotation
	Mat3<R> g = gMat3<R>(c, "g"); g.orthonormalise(); rotation(c, ref(g), "Mat3 orthonormalise is a rotation");
	Mat4<R> g4 = gMat4<R>(c, "g4"); g4.orthonormalise(); rotation(c, lin(ref(g4)), "Mat4 orthonormalise is a rotation");
}
template <class R, class T> void frame1(Case& c, const T& m, int ec, int ac, const Vec3<R>& ex, const Vec3<R>& ap, const char* site) {
	RM<R> M = lin3(m);
	Vec3<R> z(R(0), R(0), R(0)); rest(c, m, z, site);
	L el = sqrtl((L)ex.x * ex.x + (L)ex.y * ex.y + (L)ex.z * ex.z), al = sqrtl((L)ap.x * ap.x + (L)ap.y * ap.y + (L)ap.z * ap.z);
	L cx = (L)ex.y * ap.z - (L)ex.z * ap.y, cy = (L)ex.z * ap.x - (L)ex.x * ap.z, cz = (L)ex.x * ap.y - (L)ex.y * ap.x, cl = sqrtl(cx * cx + cy * cy + cz * cz);
	if (el == 0 || al == 0) { c.cls("null -> identity"); c.chk(idErr(M) == 0, site, "null direction: %s", show(M).c_str()); return; }
	L sn = cl / (el * al);
	if (sn < 0.01L) { c.cls("nearly parallel (undecided)"); return; }
	L u = E<R>::u() / sn;
	rotation(c, M, site, 64 / sn);
	L e[3] = {ex.x / el, ex.y / el, ex.z / el}, a[3] = {ap.x / al, ap.y / al, ap.z / al}, n[3] = {cx / cl, cy / cl, cz / cl};
	L off = 0, in = 0, pl = 0;
	for (int i = 0; i < 3; i++) { off = std::max(off, fabsl(M.a[i][ec].v - e[i])); in += M.a[i][ac].v * a[i]; pl += M.a[i][ac].v * n[i]; }
	c.chk(off <= 16 * E<R>::u(), site, "exact axis is off by %Lg: %s", off, show(M).c_str());
	c.chk(fabsl(pl) <= 64 * u, site, "approximate axis leaves the plane by %Lg: %s", pl, show(M).c_str());
	c.chk(in >= sn - 64 * u, site, "approximate axis points away (%Lg, sine %Lg): %s", in, sn, show(M).c_str());
}
template <class R> void frame(Case& c) {
	int ec = c.in("ecoord", c.r.n(3)), ac = c.in("acoord", (ec + 1 + c.r.n(2)) % 3);
	Vec3<R> ex = gAxis<R>(c.r), ap = gAxis<R>(c.r);
	if (c.r.p(0.05)) ex = Vec3<R>(R(0), R(0), R(0));
	if (c.r.p(0.05)) ap = Vec3<R>(R(0), R(0), R(0));
	if (c.r.p(0.2)) { R e = R(c.r.logu(0.01, 0.5)); ap = ex * R(c.r.sgn() * c.r.uni(0.2, 4)) + ap * e; }
	c.in("exact", ex); c.in("approx", ap);
	static const char* nm[] = {"XY", "XZ", "YX", "YZ", "ZX", "ZY"}; c.cls(nm[ec * 2 + (ec == 0 ? ac - 1 : ec == 1 ? ac / 2 : ac)]);
	Coord ce = Coord(ec), ca = Coord(ac);
	Mat3<R> a = gMat3<R>(c, "old"); a.set(ce, ex, ca, ap); frame1(c, a, ec, ac, ex, ap, "Mat3 set(exact,approx)"); frame1(c, Mat3<R>::from(ce, ex, ca, ap), ec, ac, ex, ap, "Mat3 from(exact,approx)");
	Mat34<R> b = gMat34<R>(c, "old34"); b.set(ce, ex, ca, ap); frame1(c, b, ec, ac, ex, ap, "Mat34 set(exact,approx)"); frame1(c, Mat34<R>::from(ce, ex, ca, ap), ec, ac, ex, ap, "Mat34 from(exact,approx)");
	Mat4<R> d = gMat4<R>(c, "old4"); d.set(ce, ex, ca, ap); frame1(c, d, ec, ac, ex, ap, "Mat4 set(exact,approx)"); frame1(c, Mat4<R>::from(ce, ex, ca, ap), ec, ac, ex, ap, "Mat4 from(exact,approx)");
}
template <class R, class T> void local1(Case& c, const T& m, const char* site) {
	RM<R> M = ref(m);
	V3<R> t(M.a[0][3], M.a[1][3], M.a[2][3]);
	for (int k = 0; k < 3; k++) {
		V3<R> col(M.a[0][k], M.a[1][k], M.a[2][k]);
		if (!(len(col).v > 1e-3L)) continue;
		E<R> l = len(col); V3<R> n(col.x / l, col.y / l, col.z / l);
		Ray3<R> r = m.localAxis(Coord(k));
		near(c, r.start, t, site, 1); near(c, r.direction, n, site);
		for (int s = 0; s < 3; s++) {
			V3<R> ns = s == 2 ? V3<R>(-n.x, -n.y, -n.z) : n;
			Plane<R> p = s == 0 ? m.localPlane(Coord(k)) : s == 1 ? m.localPlane(k == 0 ? Axis::X : k == 1 ? Axis::Y : Axis::Z) : m.localPlane(k == 0 ? Axis::NX : k == 1 ? Axis::NY : Axis::NZ);
			near(c, p.normal, ns, site); c.near(p.d, dot(ns, t), site);
		}
	}
}
template <class R> void local(Case& c) {
	local1<R>(c, gMat34<R>(c, "m34"), "Mat34 localAxis/localPlane");
	local1<R>(c, gMat4<R>(c, "m4"), "Mat4 localAxis/localPlane");
}

// an axis, a pair of directions or the approximate axis of a frame may have any length
template <class R> void scaled(Case& c) {
	Vec3<R> u = c.in("u", gSim3<R>(c.r)), v = c.in("v", gSim3<R>(c.r)), p = c.in("p", gSim3<R>(c.r)); R a = c.in("angle", gAngle<R>(c.r)); if (u.isNull() || v.isNull()) { c.trivial = true; return; }
	auto m3 = [](Sc<R>& o, const Mat3<R>& m) { o.v(m.x, 0); o.v(m.y, 0); o.v(m.z, 0); };
	bool ip = c.r.p(0.5);
	similar<R>(c, "rotation about an axis of any length", 4, [&](Sc<R>& o) { Vec3<R> x = o.len(u); m3(o, made<Mat3<R>>(ip, x, a)); Mat4<R> m = made<Mat4<R>>(ip, x, a); o.v(m * p, 0); Mat34<R> n = made<Mat34<R>>(ip, x, a); o.v(n * p, 0); o.v(made<Quat<R>>(ip, x, a), 0); m3(o, Mat3<R>::from(Coord::X, R(1)).rotated(x, a)); m3(o, Mat3<R>::from(Coord::Y, R(1)).rotatedPre(x, a)); });
	Coord e = gCoord3<R>(c.r), f = Coord((int(e) + 1 + c.r.n(2)) % 3); c.in("frame", int(e) * 3 + int(f));
	if ((u % v).length() > R(1e-2)) similar<R>(c, "frame from directions of any length", 4, [&](Sc<R>& o) { Vec3<R> x = o.len(u), y = o.len(v); m3(o, made<Mat3<R>>(ip, e, x, f, y)); o.v(made<Mat4<R>>(ip, e, x, f, y) * p, 0); o.v(made<Mat34<R>>(ip, e, x, f, y) * p, 0); });
	similar<R>(c, "rotation between directions of any length", 4, [&](Sc<R>& o) { Vec3<R> x = o.len(u), y = o.len(v); o.v(made<Quat<R>>(ip, x, y), 0); });
}
// rotations built in place of the vectors they are built from
template <class R> void owns(Case& c) {
	typedef Vec3<R> V; typedef Mat3<R> B; typedef Mat34<R> T; typedef Mat4<R> H; V r[4]; for (V& v : r) v = gOwn3<R>(c.r); c.in("x", r[0]); c.in("y", r[1]); c.in("z", r[2]); c.in("t", r[3]); int i = c.in("row", c.r.n(3)), j = (i + 1 + c.r.n(2)) % 3, g = c.in("element", c.r.n(9)); Coord e = Coord(c.r.n(3)), d = Coord((int(e) + 1 + c.r.n(2)) % 3); R w = c.in("angle", R(c.r.uni(-6, 6)));
	if (hypotl(hypotl(r[i].x, r[i].y), r[i].z) < 0.01L) { c.trivial = true; return; }
	B b(r[0], r[1], r[2]); T t(r[0], r[1], r[2], r[3]); H h(Vec4<R>(r[0].x, r[0].y, r[0].z, r[3].x), Vec4<R>(r[1].x, r[1].y, r[1].z, r[3].y), Vec4<R>(r[2].x, r[2].y, r[2].z, r[3].z), Vec4<R>(1, 2, 3, 1));
	own<R>(c, "Mat3 set about own row", b, [&](B& x, const B& y) { x.set((&y.x)[i], w); }); own<R>(c, "Mat3 set about own row by own element", b, [&](B& x, const B& y) { x.set((&y.x)[i], y.data()[g]); });
	own<R>(c, "Mat3 rotate about own row", b, [&](B& x, const B& y) { x.rotate((&y.x)[i], w); }); own<R>(c, "Mat3 rotatePre about own row", b, [&](B& x, const B& y) { x.rotatePre((&y.x)[i], y.data()[g]); });
	own<R>(c, "Mat34 set about own row", t, [&](T& x, const T& y) { x.set((&y.rs.x)[i], w); }); own<R>(c, "Mat34 set about own row, keeping the translation", t, [&](T& x, const T& y) { x.set((&y.rs.x)[i], w, y.t); });
	own<R>(c, "Mat34 rotate about own row", t, [&](T& x, const T& y) { x.rotate((&y.rs.x)[i], w); }); own<R>(c, "Mat34 rotatePre about own row", t, [&](T& x, const T& y) { x.rotatePre((&y.rs.x)[i], w); });
	// two directions, one of them kept exactly
	{ L c0 = hypotl(hypotl(r[j].x, r[j].y), r[j].z), s = 0; L q[3] = { L(r[i].y) * r[j].z - L(r[i].z) * r[j].y, L(r[i].z) * r[j].x - L(r[i].x) * r[j].z, L(r[i].x) * r[j].y - L(r[i].y) * r[j].x }; s = sqrtl(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]) / (c0 * hypotl(hypotl(r[i].x, r[i].y), r[i].z)); if (!(s > 0.02L)) return; }
	own<R>(c, "Mat3 set from two of its rows", b, [&](B& x, const B& y) { x.set(e, (&y.x)[i], d, (&y.x)[j]); });
	own<R>(c, "Mat34 set from two of its rows", t, [&](T& x, const T& y) { x.set(e, (&y.rs.x)[i], d, (&y.rs.x)[j]); });
}
void vf::registerAll() {
	VF_BOTH(angle2, "angle2", 15000);
	VF_BOTH(axisAngle, "axis-angle", 20000);
	VF_BOTH(coordAngle, "coord-angle", 15000);
	VF_BOTH(quatMat, "quat", 20000, "trace > 0", "x dominant", "y dominant", "z dominant", "orthonormalise a rotation", "orthonormalise a perturbed rotation");
	VF_BOTH(frame, "frame", 20000, "XY", "XZ", "YX", "YZ", "ZX", "ZY", "null -> identity");
	VF_BOTH(local, "local", 10000);
	VF_BOTH(scaled, "another unit", 40000);
	VF_BOTH(owns, "own parts", 12000, "Mat3 set about own row", "Mat3 set from two of its rows", "Mat34 set from two of its rows");
}
VF_MAIN()
