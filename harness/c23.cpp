// C23: view frustum queries
#include "mats.h"
#include "geo.h"
#include "scale.h"
using namespace vf;
using namespace mathlib;
struct F3 { L x, y, z; }; static F3 sub(F3 a, F3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; } static F3 crs(F3 a, F3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; } static L dt(F3 a, F3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; } static L ln(F3 a) { return sqrtl(dt(a, a)); }
template <class R> F3 f3(const Vec3<R>& v) { return {(L)v.x, (L)v.y, (L)v.z}; }
// the six faces in reference arithmetic, outward
struct Ref { F3 n[6]; L d[6]; L dist(int i, F3 p) const { return dt(n[i], p) - d[i]; } };
template <class R> bool reference(const Vec3<R>* k, Ref& r, L& size, L& edge) {
	F3 c[8]; F3 m = {0, 0, 0}; size = 0; edge = 1e300L; for (int i = 0; i < 8; i++) { c[i] = f3(k[i]); m = {m.x + c[i].x / 8, m.y + c[i].y / 8, m.z + c[i].z / 8}; size = std::max(size, std::max(fabsl(c[i].x), std::max(fabsl(c[i].y), fabsl(c[i].z)))); }
	int f[6][4] = {{4, 5, 6, 7}, {0, 1, 2, 3}, {2, 3, 7, 6}, {0, 3, 7, 4}, {0, 1, 5, 4}, {1, 2, 6, 5}};
	for (int i = 0; i < 6; i++) {
		F3 a = c[f[i][0]], e1 = sub(c[f[i][2]], a), e2 = sub(c[f[i][3]], c[f[i][1]]); F3 n = crs(e1, e2); L l = ln(n); if (!(l > 1e-12L)) return false; n = {n.x / l, n.y / l, n.z / l}; L d = dt(n, a); if (dt(n, m) > d) { n = {-n.x, -n.y, -n.z}; d = -d; } r.n[i] = n; r.d[i] = d;
		for (int j = 0; j < 4; j++) edge = std::min(edge, ln(sub(c[f[i][j]], c[f[i][(j + 1) & 3]])));
	}
	return true;
}
template <class R> void corners(Rng& r, Vec3<R>* k) {
	L n = r.p(0.3) ? 1 : r.uni(0.2, 3), f = n + r.uni(0.5, 20); L s = r.p(0.2) ? 1 : f / n; if (r.p(0.2)) s = r.uni(0.6, 4);     // 1: box, f/n: perspective
	L rt = r.uni(0.2, 2), lf = -rt, tp = r.uni(0.2, 2), bt = -tp; if (r.p(0.4)) { lf = rt - r.uni(0.3, 3); bt = tp - r.uni(0.3, 3); }
	L x[4] = {rt, rt, lf, lf}, y[4] = {tp, bt, bt, tp}; for (int i = 0; i < 4; i++) { k[i] = Vec3<R>(R(x[i]), R(y[i]), R(-n)); k[i + 4] = Vec3<R>(R(x[i] * s), R(y[i] * s), R(-f)); }
}
template <class R> void queries(Case& c) {
	typedef Vec3<R> V; V k[8], w[8]; corners<R>(c.r, k); Frustum<R> fr; int how = c.r.n(6); const char* site = "";
	V ax = gUnit3<R>(c.r); R an = gAngle<R>(c.r); V t = gVec3<R>(c.r); R sc = c.r.p(0.7) ? R(1) : R(c.r.logu(0.1, 10)); if (c.r.p(0.2)) t = V::Zero; if (c.r.p(0.1)) an = 0;
	Mat34<R> m34 = Mat34<R>::from(ax, an); m34.rs.x = m34.rs.x * sc; m34.rs.y = m34.rs.y * sc; m34.rs.z = m34.rs.z * sc;
	if (c.r.p(0.4)) { R a = R(c.r.uni(0.3, 2)), b = R(c.r.uni(0.3, 2)), h = c.r.p(0.5) ? R(0) : R(c.r.uni(-0.6, 0.6)), g = c.r.p(0.5) ? R(0) : R(c.r.uni(-0.6, 0.6)); V rx = m34.rs.x * a, ry = m34.rs.y * b + m34.rs.x * h, rz = m34.rs.z + m34.rs.y * g; m34.rs.x = rx; m34.rs.y = ry; m34.rs.z = rz; c.cls("stretched or sheared", how > 1); }
	if (c.r.p(0.3)) { int q = c.r.n(4); if (q == 0 || q == 3) m34.rs.x = -m34.rs.x; if (q == 1 || q == 3) m34.rs.y = -m34.rs.y; if (q == 2 || q == 3) m34.rs.z = -m34.rs.z; c.cls("mirrored", how > 1); }
	m34.t = t; m34.optimize();
	Mat4<R> m4; m4.setIdentity(); m4.x = Vec4<R>(m34.rs.x.x, m34.rs.x.y, m34.rs.x.z, R(0)); m4.y = Vec4<R>(m34.rs.y.x, m34.rs.y.y, m34.rs.y.z, R(0)); m4.z = Vec4<R>(m34.rs.z.x, m34.rs.z.y, m34.rs.z.z, R(0)); m4.t = Vec4<R>(t.x, t.y, t.z, R(1)); m4.optimize();
	auto ap = [&](const V& p) { V o; o.x = p.x * m34.rs.x.x + p.y * m34.rs.y.x + p.z * m34.rs.z.x + m34.t.x; o.y = p.x * m34.rs.x.y + p.y * m34.rs.y.y + p.z * m34.rs.z.y + m34.t.y; o.z = p.x * m34.rs.x.z + p.y * m34.rs.y.z + p.z * m34.rs.z.z + m34.t.z; return o; };
	L tol0; { L q = 0; for (auto& p : k) q = std::max(q, (L)std::max(std::fabs(p.x), std::max(std::fabs(p.y), std::fabs(p.z)))); L tm = std::max(std::fabs(t.x), std::max(std::fabs(t.y), std::fabs(t.z))); tol0 = 32 * E<R>::u() * (q * sc * 3 + tm); }
	for (int i = 0; i < 8; i++) w[i] = how == 0 || how == 1 ? k[i] : ap(k[i]);
	if (how == 0) { fr.set(k); site = "set(corners)"; } else if (how == 1) { fr = Frustum<R>(k); site = "Frustum(corners)"; } else if (how == 2) { fr.set(m34, k); site = "set(Mat34, corners)"; } else if (how == 3) { fr.set(m4, k); site = "set(Mat4, corners)"; } else if (how == 4) { fr.set(k); fr.set(m34, fr.corners); site = "set(Mat34, own corners)"; } else { fr.set(k); fr.set(m4, fr.corners); site = "set(Mat4, own corners)"; }
	c.cls("transformed", how > 1); for (int i = 0; i < 8; i++) { c.in("", fr.corners[i]); bool ok = fabsl(fr.corners[i].x - w[i].x) <= tol0 && fabsl(fr.corners[i].y - w[i].y) <= tol0 && fabsl(fr.corners[i].z - w[i].z) <= tol0; c.chk(ok, site, "corner %d is (%g,%g,%g), expected (%g,%g,%g)", i, double(fr.corners[i].x), double(fr.corners[i].y), double(fr.corners[i].z), double(w[i].x), double(w[i].y), double(w[i].z)); }
	Ref rf; L size, edge; if (!reference(w, rf, size, edge)) { c.trivial = true; return; } L eps = 64 * E<R>::u() * size * (1 + size / edge); // corner rounding turns a face by at most u*size/edge
	L bound = eps * 4;
	const char* names[6] = {"far plane", "near plane", "left plane", "top plane", "right plane", "bottom plane"};
	for (int i = 0; i < 6; i++) { auto& p = fr.planes[i]; L a = 64 * E<R>::u() * (1 + size / edge) * 2; c.chk(fabsl(p.normal.x - rf.n[i].x) <= a && fabsl(p.normal.y - rf.n[i].y) <= a && fabsl(p.normal.z - rf.n[i].z) <= a && fabsl(p.d - rf.d[i]) <= bound, names[i], "(%g,%g,%g) d %g, expected (%g,%g,%g) d %g", double(p.normal.x), double(p.normal.y), double(p.normal.z), double(p.d), double(rf.n[i].x), double(rf.n[i].y), double(rf.n[i].z), double(rf.d[i])); }
	// points by their place between the corners
	for (int rep = 0; rep < 3; rep++) {
		L g[3]; for (auto& q : g) q = c.r.p(0.25) ? (c.r.p(0.5) ? 0 : 1) + c.r.sgn() * c.r.logu(1e-6, 0.1) : c.r.uni(-0.4, 1.4); if (c.r.p(0.5)) for (auto& q : g) q = std::min((L)1, std::max((L)0, q)); if (c.r.p(0.3)) g[c.r.n(3)] = c.r.uni(-0.5, 1.5);
		F3 p = {0, 0, 0}; for (int i = 0; i < 8; i++) { int j = i & 3; L wt = (i < 4 ? 1 - g[2] : g[2]) * (j < 2 ? g[0] : 1 - g[0]) * (j == 0 || j == 3 ? g[1] : 1 - g[1]); p.x += wt * w[i].x; p.y += wt * w[i].y; p.z += wt * w[i].z; }
		V q = c.in("p", V(R(p.x), R(p.y), R(p.z))); F3 ql = f3(q); L mx = -1e300L; int worst = 0, nout = 0; L rad = c.in("r", c.r.p(0.5) ? R(c.r.logu(1e-3, 5)) : R(0)); bool und = false, sin = true, sout = false, sund = false, iund = false; L pe = bound + 64 * E<R>::u() * (1 + size / edge) * (fabsl(ql.x) + fabsl(ql.y) + fabsl(ql.z));
		if (rad == 0) { L best = 1e300L; for (int i = 0; i < 6; i++) best = std::min(best, fabsl(rf.dist(i, ql))); int pick = c.r.n(6); rad = R(fabsl(rf.dist(pick, ql)) * (1 + c.r.sgn() * c.r.logu(1e-5, 0.2))); }
		for (int i = 0; i < 6; i++) { L d = rf.dist(i, ql); if (fabsl(d) <= pe) und = true; if (d > 0) nout++; if (d > mx) { mx = d; worst = i; } if (fabsl(d + rad) <= pe) sund = true; if (d > -rad) sin = false; if (fabsl(d - rad) <= pe) iund = true; if (d > rad) sout = true; }
		bool in = mx <= 0; if (!und || mx > pe) { c.cls(in ? "inside" : "outside"); if (!in && nout == 1) c.cls(std::string("beyond the ").append(names[worst]) == "" ? "" : worst == 0 ? "only beyond far" : worst == 1 ? "only before near" : worst == 2 ? "only left" : worst == 3 ? "only above" : worst == 4 ? "only right" : "only below"); c.cls("outside several", nout > 1); c.chk(fr.contains(q) == in, "contains point", "worst face %d at %.17Lg", worst, mx); c.chk(fr.contains(Vec4<R>(q.x, q.y, q.z, R(1))) == in, "contains Vec4 point", "worst face %d at %.17Lg", worst, mx); }
		Sphere<R> s(q, R(rad)); bool gc = fr.contains(s), gi = fr.intersects(s);
		if (!sund || !sin) { bool dec = sin; if (!sin) { for (int i = 0; i < 6; i++) if (rf.dist(i, ql) > -rad + pe) dec = true; else ; } if (sin || dec) { c.cls(sin ? "sphere inside" : "sphere not inside"); c.chk(gc == sin, "contains sphere", "radius %.17Lg worst %.17Lg", rad, mx); } }
		bool mayOut = false, sureOut = false; for (int i = 0; i < 6; i++) { L d = rf.dist(i, ql) - rad; if (d > -pe) mayOut = true; if (d > pe) sureOut = true; }
		if (sureOut) { c.cls("sphere beyond a face"); c.chk(!gi, "a sphere beyond a face does not intersect", "radius %.17Lg worst %.17Lg", rad, mx); }
		if (!mayOut) { c.cls("sphere not beyond any face"); c.chk(gi, "a sphere not beyond any face intersects", "radius %.17Lg worst %.17Lg", rad, mx); }
		c.chk(!gc || gi, "a contained sphere intersects");
		if (in && !und) c.chk(gi, "a sphere centred inside intersects"); if (gc && !sund) c.chk(fr.contains(q), "the centre of a contained sphere is contained");
	}
	auto cf = fr.template cast<float>(); auto cd = fr.template cast<double>(); for (int i = 0; i < 8; i++) { c.same(cf.corners[i].x, float(fr.corners[i].x), "cast corners"); c.same(cf.corners[i].y, float(fr.corners[i].y), "cast corners"); c.same(cd.corners[i].z, double(fr.corners[i].z), "cast corners"); } for (int i = 0; i < 6; i++) { c.same(cf.planes[i].d, float(fr.planes[i].d), "cast planes"); c.same(cf.planes[i].normal.x, float(fr.planes[i].normal.x), "cast planes"); c.same(cd.planes[i].normal.z, double(fr.planes[i].normal.z), "cast planes"); c.same(cd.planes[i].d, double(fr.planes[i].d), "cast planes"); }
}
// exact: a box frustum on an integer grid, boundaries belong to it
template <class R> void grid(Case& c) {
	typedef Vec3<R> V; R x0 = R(c.r.in(-9, 5)), x1 = x0 + (1 << c.r.n(4)), y0 = R(c.r.in(-9, 5)), y1 = y0 + (1 << c.r.n(4)), z0 = R(c.r.in(-9, 5)), z1 = z0 + (1 << c.r.n(4)); c.in("inf", V(x0, y0, z0)); c.in("sup", V(x1, y1, z1));
	V k[8] = {V(x1, y1, z1), V(x1, y0, z1), V(x0, y0, z1), V(x0, y1, z1), V(x1, y1, z0), V(x1, y0, z0), V(x0, y0, z0), V(x0, y1, z0)}; Frustum<R> f(k);
	auto co = [&](R a, R b) { switch (c.r.n(6)) { case 0: return a; case 1: return b; case 2: return R(a - R(0.25)); case 3: return R(b + R(0.25)); default: return R(a + (b - a) * R(0.5)); } };
	V p = c.in("p", V(co(x0, x1), co(y0, y1), co(z0, z1))); bool in = p.x >= x0 && p.x <= x1 && p.y >= y0 && p.y <= y1 && p.z >= z0 && p.z <= z1; c.cls(in ? "inside" : "outside"); c.cls("boundary", in && (p.x == x0 || p.x == x1 || p.y == y0 || p.y == y1 || p.z == z0 || p.z == z1)); c.chk(f.contains(p) == in, "box frustum contains point"); c.chk(f.contains(Vec4<R>(p.x, p.y, p.z, R(3))) == in, "box frustum contains Vec4 point");
	R s = R(c.r.n(8)) * R(0.25); bool all = p.x - s >= x0 && p.x + s <= x1 && p.y - s >= y0 && p.y + s <= y1 && p.z - s >= z0 && p.z + s <= z1, any = p.x + s >= x0 && p.x - s <= x1 && p.y + s >= y0 && p.y - s <= y1 && p.z + s >= z0 && p.z - s <= z1; c.cls("sphere contained", all); c.cls("sphere touches", any && !all); c.cls("sphere apart", !any); c.chk(f.contains(Sphere<R>(p, s)) == all, "box frustum contains sphere"); c.chk(f.intersects(Sphere<R>(p, s)) == any, "box frustum intersects sphere");
}
// frusta and the same frusta in another unit of length
template <class R> void scaled(Case& c) {
	typedef Vec3<R> V; R n = R(c.r.uni(0.1, 1)), f = n + R(c.r.uni(0.5, 3)), w = R(c.r.uni(0.2, 1)), h = R(c.r.uni(0.2, 1)), g = R(c.r.uni(1, 3)); c.in("near", n); c.in("far", f); V m = c.in("offset", gSim3<R>(c.r)); R x[2] = {w, w * g}, y[2] = {h, h * g}, z[2] = {-n, -f}; V k[8], p = c.in("p", gSim3<R>(c.r)); if (c.r.p(0.6)) { p = m + V(R(c.r.uni(-1, 1)) * w * g, R(c.r.uni(-1, 1)) * h * g, -R(c.r.uni(n, f))); c.in("p", p); }
	for (int i = 0; i < 2; i++) { k[4 * i] = V(x[i], y[i], z[i]); k[4 * i + 1] = V(x[i], -y[i], z[i]); k[4 * i + 2] = V(-x[i], -y[i], z[i]); k[4 * i + 3] = V(-x[i], y[i], z[i]); } R r = c.in("radius", R(c.r.uni(0, 0.5))), a = c.in("angle", gAngle<R>(c.r)); V ax = gUnit3<R>(c.r); Mat3<R> rot = Mat3<R>::from(ax, a); bool in = false;
	similar<R>(c, "frusta in another unit of length", 6, [&](Sc<R>& o) {
		V q[8]; for (int i = 0; i < 8; i++) q[i] = o.len(k[i]); V t = o.len(m), P = o.len(p); Sphere<R> s(P, o.len(r)); Mat34<R> mt(rot, t); Frustum<R> A(q), B; Mat34<R> id(Mat3<R>::from(Coord::X, R(0)), t); B.set(id, q); Frustum<R> C; C.set(mt, q);
		for (auto* F : {&A, &B, &C}) { if (o.b(F->contains(P))) in = true; o.b(F->contains(s)); o.b(F->intersects(s)); } });
	c.cls("inside", in);
}
void vf::registerAll() {
	VF_BOTH(queries, "queries", 200000, "transformed", "stretched or sheared", "mirrored", "inside", "outside", "only beyond far", "only before near", "only left", "only above", "only right", "only below", "outside several", "sphere inside", "sphere not inside", "sphere beyond a face", "sphere not beyond any face");
	VF_BOTH(grid, "grid", 80000, "inside", "outside", "boundary", "sphere contained", "sphere touches", "sphere apart");
	VF_BOTH(scaled, "another unit", 60000, "inside");
}
VF_MAIN()
