// C25: Bezier segments and forward differencing
#include "vf.h"
#include "scale.h"
using namespace vf;
using namespace mathlib;
struct P3 { L x, y, z; }; static P3 operator+(P3 a, P3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; } static P3 operator-(P3 a, P3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; } static P3 operator*(P3 a, L k) { return {a.x * k, a.y * k, a.z * k}; } static P3 crs(P3 a, P3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; } static L dt(P3 a, P3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; } static L ln(P3 a) { return sqrtl(dt(a, a)); }
template <class R> P3 l3(const Vec3<R>& v) { return {(L)v.x, (L)v.y, (L)v.z}; }
template <class R> R gT(Rng& r) { switch (r.n(6)) { case 0: return R(0); case 1: return R(1); case 2: return R(r.n(9)) / 8; case 3: return R(r.logu(1e-6, 0.1)); case 4: return R(1 - r.logu(1e-6, 0.1)); default: return R(r.u01()); } }
template <class R> struct Seg { Vec3<R> p[4]; P3 l[4]; L m; };
template <class R> Seg<R> gSeg(Case& c) {
	Seg<R> s; for (auto& p : s.p) p = gVec3<R>(c.r); if (c.r.p(0.05)) s.p[3] = s.p[0]; if (c.r.p(0.08)) s.p[1] = s.p[0]; if (c.r.p(0.08)) s.p[2] = s.p[3]; if (c.r.p(0.06)) { s.p[1] = s.p[0] + (s.p[3] - s.p[0]) * R(c.r.uni(-1, 2)); s.p[2] = s.p[0] + (s.p[3] - s.p[0]) * R(c.r.uni(-1, 2)); } if (c.r.p(0.2)) { R k = R(c.r.logu(1e-2, 1e2)); Vec3<R> o = gVec3<R>(c.r); for (auto& p : s.p) p = p * k + o; }
	s.m = 0; for (int i = 0; i < 4; i++) { c.in("p", s.p[i]); s.l[i] = l3(s.p[i]); s.m = std::max(s.m, fabsl(s.l[i].x) + fabsl(s.l[i].y) + fabsl(s.l[i].z)); } return s;
}
// de Casteljau
static P3 at(const P3* p, L t) { P3 a = p[0] * (1 - t) + p[1] * t, b = p[1] * (1 - t) + p[2] * t, c = p[2] * (1 - t) + p[3] * t; P3 d = a * (1 - t) + b * t, e = b * (1 - t) + c * t; return d * (1 - t) + e * t; }
static P3 tan(const P3* p, L t) { P3 a = (p[1] - p[0]) * 3, b = (p[2] - p[1]) * 3, c = (p[3] - p[2]) * 3; return (a * (1 - t) + b * t) * (1 - t) + (b * (1 - t) + c * t) * t; }
static P3 sec(const P3* p, L t) { return (p[2] - p[1] * 2 + p[0]) * (6 * (1 - t)) + (p[3] - p[2] * 2 + p[1]) * (6 * t); }
template <class R> bool v3(Case& c, const Vec3<R>& g, P3 r, L tol, const char* site) { return c.nearAbs(g.x, r.x, tol, site) & c.nearAbs(g.y, r.y, tol, site) & c.nearAbs(g.z, r.z, tol, site); }
template <class R> void segment(Case& c) {
	typedef BezierSegment3<R> B; Seg<R> s = gSeg<R>(c); B b(s.p[0], s.p[1], s.p[2], s.p[3]), k; k.set(s.p[0], s.p[1], s.p[2], s.p[3]); L u = E<R>::u(), tol = 32 * u * s.m;
	for (B* x : {&b, &k}) { same(c, x->p1(), s.p[0], "p1"); same(c, x->p2(), s.p[1], "p2"); same(c, x->p3(), s.p[2], "p3"); same(c, x->p4(), s.p[3], "p4"); }
	v3(c, b.r1(), (s.l[1] - s.l[0]) * 3, tol, "r1"); v3(c, b.r4(), (s.l[3] - s.l[2]) * 3, tol, "r4");
	R t = c.in("t", gT<R>(c.r)); c.cls("start", t == 0); c.cls("end", t == 1); c.cls("between", t > 0 && t < 1); v3(c, b.pointAt(t), at(s.l, t), tol, "pointAt"); v3(c, b.tangentAt(t), tan(s.l, t), 4 * tol, "tangentAt"); v3(c, k.pointAt(t), at(s.l, t), tol, "pointAt after set"); v3(c, k.tangentAt(t), tan(s.l, t), 4 * tol, "tangentAt after set");
	v3(c, b.pointAt(R(0)), s.l[0], tol, "starts at p1"); v3(c, b.pointAt(R(1)), s.l[3], tol, "ends at p4"); v3(c, b.tangentAt(R(0)), l3(b.r1()), 4 * tol, "starts along r1"); v3(c, b.tangentAt(R(1)), l3(b.r4()), 4 * tol, "ends along r4");
	// the curve stays in the box of its control points
	Vec3<R> p = b.pointAt(t); for (int i = 0; i < 3; i++) { auto g = [i](P3 v) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }; L lo = 1e300L, hi = -1e300L; for (auto& q : s.l) { lo = std::min(lo, g(q)); hi = std::max(hi, g(q)); } c.chk(g(l3(p)) >= lo - tol && g(l3(p)) <= hi + tol, "the curve stays within its control points"); }
	B q = b; q.set(q.p4(), q.p3(), q.p2(), q.p1()); same(c, q.p1(), s.p[3], "reversing with own points"); same(c, q.p2(), s.p[2], "reversing with own points"); same(c, q.p3(), s.p[1], "reversing with own points"); same(c, q.p4(), s.p[0], "reversing with own points"); R tr = R(1) - t; v3(c, q.pointAt(tr), at(s.l, 1 - (L)tr), tol, "the reversed segment");
	// functions
	R f = c.in("f", c.r.p(0.6) ? t : R(c.r.uni(-2, 3))); L a = fabsl((L)f) + 1, ft = 16 * u * a * a * a, F = f, C = 1 - F; c.nearAbs(B::hp1(f), C * C * C, ft, "hp1"); c.nearAbs(B::hp2(f), 3 * F * C * C, ft, "hp2"); c.nearAbs(B::hp3(f), 3 * F * F * C, ft, "hp3"); c.nearAbs(B::hp4(f), F * F * F, ft, "hp4");
	L fd = 40 * u * a * a; c.nearAbs(B::dhp1(f), -3 * C * C, fd, "dhp1"); c.nearAbs(B::dhp2(f), 3 * C * C - 6 * F * C, fd, "dhp2"); c.nearAbs(B::dhp3(f), 6 * F * C - 3 * F * F, fd, "dhp3"); c.nearAbs(B::dhp4(f), 3 * F * F, fd, "dhp4");
}
template <class R> void split(Case& c) {
	typedef BezierSegment3<R> B; Seg<R> s = gSeg<R>(c); B b(s.p[0], s.p[1], s.p[2], s.p[3]), x, y; R a = c.in("a", gT<R>(c.r)); L u = E<R>::u(), tol = 48 * u * s.m; b.split(a, x, y); c.cls("at an end", a == 0 || a == 1);
	L A = a, C = 1 - A; P3 p01 = s.l[0] * C + s.l[1] * A, p12 = s.l[1] * C + s.l[2] * A, p23 = s.l[2] * C + s.l[3] * A, p012 = p01 * C + p12 * A, p123 = p12 * C + p23 * A, m = p012 * C + p123 * A;
	v3(c, x.p1(), s.l[0], tol, "split: first half"); v3(c, x.p2(), p01, tol, "split: first half"); v3(c, x.p3(), p012, tol, "split: first half"); v3(c, x.p4(), m, tol, "split: first half"); v3(c, y.p1(), m, tol, "split: second half"); v3(c, y.p2(), p123, tol, "split: second half"); v3(c, y.p3(), p23, tol, "split: second half"); v3(c, y.p4(), s.l[3], tol, "split: second half");
	R t = c.in("t", gT<R>(c.r)); v3(c, x.pointAt(t), at(s.l, A * t), 2 * tol, "the first half traces the curve up to a"); v3(c, y.pointAt(t), at(s.l, A + C * t), 2 * tol, "the second half traces the curve from a"); same(c, b.p1(), s.p[0], "split leaves the segment alone"); same(c, b.p4(), s.p[3], "split leaves the segment alone"); same(c, b.p2(), s.p[1], "split leaves the segment alone");
	B z = b, w; z.split(a, z, w); v3(c, z.pointAt(t), at(s.l, A * t), 2 * tol, "split into itself: first half"); v3(c, w.pointAt(t), at(s.l, A + C * t), 2 * tol, "split into itself: second half"); z = b; z.split(a, w, z); v3(c, w.pointAt(t), at(s.l, A * t), 2 * tol, "split, second half into itself: first half"); v3(c, z.pointAt(t), at(s.l, A + C * t), 2 * tol, "split, second half into itself: second half");
}
template <class R> void frenet(Case& c) {
	typedef BezierSegment3<R> B; Seg<R> s = gSeg<R>(c); R t = c.in("t", gT<R>(c.r)); B b(s.p[0], s.p[1], s.p[2], s.p[3]); Mat3<R> f; f.setIdentity(); f.x = Vec3<R>(R(7), R(8), R(9)); bool ok = b.frenetFrameAt(f, t);
	P3 T = tan(s.l, t), S = sec(s.l, t), Bn = crs(T, S); L e = 64 * E<R>::u() * s.m, lt = ln(T), lb = ln(Bn), eb = 40 * e * (lt + ln(S)) ;
	if (lt > 30 * e && lb > 30 * eb && lb > 1e-25L && lt > 1e-12L) { c.cls("frame"); if (!c.chk(ok, "a curved segment has a frame")) return; P3 tt = T * (1 / lt), bb = Bn * (1 / lb), nn = crs(bb, tt); L te = 4 * e / lt + 16 * E<R>::u(), be = 2 * eb / lb + 16 * E<R>::u(); v3(c, f.y, tt, te, "frame tangent"); v3(c, f.x, bb, be, "frame binormal"); v3(c, f.z, nn, te + be, "frame normal");
		L o = te + 16 * E<R>::u(); c.nearAbs(f.x.length(), 1, 16 * E<R>::u(), "frame axes have unit length"); c.nearAbs(f.y.length(), 1, 16 * E<R>::u(), "frame axes have unit length"); c.nearAbs(f.z.length(), 1, be + te + 16 * E<R>::u(), "frame axes have unit length"); c.nearAbs(R(f.x * f.y), 0, te + be, "frame axes are perpendicular"); c.nearAbs(R(f.x * f.z), 0, o, "frame axes are perpendicular"); c.nearAbs(R(f.y * f.z), 0, o, "frame axes are perpendicular"); c.nearAbs(R((f.x % f.y) * f.z), 1, 2 * (te + be), "binormal, tangent and normal are right-handed"); }
	else c.cls("undecided");
	// exact: no frame on a straight or collapsed segment along an axis
	int ax = c.r.n(3); Vec3<R> q[4], o(R(0), R(0), R(0)); for (auto& v : q) { v = o; R k = R(c.r.in(-9, 9)); (ax == 0 ? v.x : ax == 1 ? v.y : v.z) = k; } if (c.r.p(0.2)) for (int i = 1; i < 4; i++) q[i] = q[0]; B st(q[0], q[1], q[2], q[3]); Mat3<R> g = f; c.chk(!st.frenetFrameAt(g, t), "a straight segment has no frame"); same(c, g.x, f.x, "a failed frame writes nothing"); same(c, g.y, f.y, "a failed frame writes nothing"); same(c, g.z, f.z, "a failed frame writes nothing");
	// a planar arc keeps its binormal along the plane normal
	Vec3<R> pl[4]; for (int i = 0; i < 4; i++) pl[i] = Vec3<R>(R(i), R(i * i), R(2)); B pa(pl[0], pl[1], pl[2], pl[3]); Mat3<R> h; if (c.chk(pa.frenetFrameAt(h, t), "a planar arc has a frame")) v3(c, h.x, {0, 0, 1}, 1e-6L, "binormal of a planar arc");
}
template <class R> void length(Case& c) {
	typedef BezierSegment3<R> B; Seg<R> s = gSeg<R>(c); B b(s.p[0], s.p[1], s.p[2], s.p[3]); int n = c.in("steps", c.r.p(0.2) ? 10 : c.r.p(0.2) ? 1 : sizeof(R) == 8 && c.r.p(0.02) ? c.r.in(100, 5000) : c.r.in(1, 60)); L u = E<R>::u(), tol = 60 * u * s.m * n * n; R got = n == 10 && c.r.p(0.5) ? b.length() : b.length(n); c.cls("one step", n == 1); c.cls("default steps", n == 10); c.cls("many steps", n > 20);
	L ref = 0; for (int i = 0; i < n; i++) ref += ln(at(s.l, L(i + 1) / n) - at(s.l, L(i) / n)); c.nearAbs(got, ref, tol, "length is the length of the polyline"); L poly = ln(s.l[1] - s.l[0]) + ln(s.l[2] - s.l[1]) + ln(s.l[3] - s.l[2]), chord = ln(s.l[3] - s.l[0]); c.chk(got >= chord - tol && got <= poly + tol, "length lies between the chord and the control polygon", "length %.17g chord %.17Lg polygon %.17Lg", double(got), chord, poly);
	B r(s.p[3], s.p[2], s.p[1], s.p[0]); c.nearAbs(r.length(n), got, 2 * tol, "reversing keeps the length");
}
template <class R> void fwd(Case& c) {
	Seg<R> s = gSeg<R>(c); int n = c.in("n", sizeof(R) == 8 && c.r.p(0.01) ? c.r.in(100, 5000) : c.r.in(1, 50)); R d = c.in("d", c.r.p(0.7) ? R(1) / R(n) : R(c.r.sgn() * c.r.uni(0.001, 0.2))); BezierSegment3FwdDiff<R> w(s.p[0], s.p[1], s.p[2], s.p[3], d); int k = c.r.in(1, n); c.cls("backwards", d < 0); c.cls("many steps", n > 25); L reach = 1 + fabsl((L)d) * n; L tol = 60 * E<R>::u() * s.m * reach * reach * reach * (n + 1);
	same(c, w.currentPoint(), s.p[0], "forward differences start at p1"); v3(c, w.currentTangent(), (s.l[1] - s.l[0]) * 3, tol, "forward differences start along r1");
	for (int i = 1; i <= n; i++) { w.stepForward(); if (i == k || i == n) { v3(c, w.currentPoint(), at(s.l, (L)d * i), tol, "forward differences visit the curve"); v3(c, w.currentTangent(), tan(s.l, (L)d * i), 6 * tol, "forward differences visit the tangents"); } }
}
// curves in another unit of length
template <class R> void scaled(Case& c) {
	Vec3<R> p[4]; for (auto& v : p) v = c.in("p", gSim3<R>(c.r)); R t = c.in("t", R(c.r.uni(0, 1))); if (c.r.p(0.1)) p[1] = p[0]; bool fr = false;
	similar<R>(c, "Bezier segments in another unit of length", 6, [&](Sc<R>& o) {
		typedef BezierSegment3<R> B; B b(o.len(p[0]), o.len(p[1]), o.len(p[2]), o.len(p[3])), x, y; o.v(b.pointAt(t), 1); o.v(b.tangentAt(t), 1); o.v(b.length(), 1); o.v(b.length(3), 1); b.split(t, x, y); for (auto* s : {&x, &y}) { o.v(s->p1(), 1); o.v(s->p2(), 1); o.v(s->p3(), 1); o.v(s->p4(), 1); }
		Mat3<R> f; if (o.b(b.frenetFrameAt(f, t))) { o.v(f.x, 0); o.v(f.y, 0); o.v(f.z, 0); fr = true; } BezierSegment3FwdDiff<R> w(b.p1(), b.p2(), b.p3(), b.p4(), R(0.25)); for (int i = 0; i < 4; i++) { o.v(w.currentPoint(), 1); o.v(w.currentTangent(), 1); w.stepForward(); } });
	c.cls("frame", fr);
	similar<R>(c, "Bezier segments at any scale", 1, [&](Sc<R>& o) {
		typedef BezierSegment3<R> B; B b(o.len(p[0]), o.len(p[1]), o.len(p[2]), o.len(p[3])), x, y; o.v(b.pointAt(t), 1); o.v(b.tangentAt(t), 1); b.split(t, x, y); for (auto* s : {&x, &y}) { o.v(s->p1(), 1); o.v(s->p2(), 1); o.v(s->p3(), 1); o.v(s->p4(), 1); }
		BezierSegment3FwdDiff<R> w(b.p1(), b.p2(), b.p3(), b.p4(), R(0.25)); for (int i = 0; i < 4; i++) { o.v(w.currentPoint(), 1); o.v(w.currentTangent(), 1); w.stepForward(); } });
}
void vf::registerAll() {
	VF_BOTH(segment, "segment", 150000, "start", "end", "between");
	VF_BOTH(split, "split", 120000, "at an end");
	VF_BOTH(frenet, "frenet frame", 120000, "frame");
	VF_BOTH(length, "length", 60000, "one step", "default steps", "many steps");
	VF_BOTH(fwd, "forward differences", 80000, "backwards", "many steps");
	VF_BOTH(scaled, "another unit", 60000, "frame");
}
VF_MAIN()
