// C10: interpolating orientations (Quat lerp/slerp/slerpNoInvert/slerpMaxAngle/squad, Mat2/Mat3/Mat34 slerp)
#include "quats.h"
#include "alias.h"
#include "matops.h"
using namespace vf;
using namespace mathlib;

inline LQ refSlerp(const LQ& a, const LQ& b, L w) { L d = dot(a, b), t = atan2l(len(a + b * -1), len(a + b)) * 2; if (t < 1e-9L) return unit(a * (1 - w) + b * w); return (a * sinl(t * (1 - w)) + b * sinl(t * w)) * (1 / sinl(t)); }
inline LQ refLerp(const LQ& a, const LQ& b, L w) { return unit(a * (1 - w) + b * w); }
// the library's slerp: normalised lerp for close quaternions (documented threshold 0.95), great arc otherwise
template <class R> bool slerpLike(Case& c, const LQ& got, const LQ& a, const LQ& b, L w, const char* site) {
	L d = dot(a, b), u = E<R>::u();
	LQ s = refSlerp(a, b, w);
	if (d >= 0.93L) { c.cls("close keys"); return qnear(c, got, s, 1.5e-3L, site); }
	c.cls("great arc");
	L sn = sqrtl(std::max<L>(0, 1 - d * d));
	return qnear(c, got, s, 64 * u / sn * (d < 0 ? 1 / sn : 1), site);
}
template <class R> R gW(Case& c) { return c.in("w", c.r.p(0.1) ? R(0) : c.r.p(0.1) ? R(1) : c.r.p(0.1) ? R(0.5) : R(c.r.u01())); }
template <class R> Quat<R> toQ(const LQ& q) { return Quat<R>(R(q.x), R(q.y), R(q.z), R(q.w), false); }
template <class R> void gPair(Case& c, Quat<R>& a, Quat<R>& b) {
	a = gQuat<R>(c.r);
	switch (c.r.n(5)) {
	case 0: { Vec3<R> x = gUnit3<R>(c.r); L h = c.r.uni(0, 0.6) * c.r.sgn(); b = toQ<R>(lq(a) * LQ{x.x * sinl(h), x.y * sinl(h), x.z * sinl(h), cosl(h)}); c.cls("near keys"); break; }
	case 1: { Vec3<R> x = gUnit3<R>(c.r); L h = c.r.uni(1.3, 1.8); b = toQ<R>(lq(a) * LQ{x.x * sinl(h), x.y * sinl(h), x.z * sinl(h), cosl(h)}); c.cls("about half a turn apart"); break; }
	case 2: b = c.r.p(0.5) ? a : -a; if (c.r.p(0.7)) { b.x += R(c.r.uni(-1e-4, 1e-4)); b.normalize(); } c.cls("same orientation"); break;
	default: b = gQuat<R>(c.r);
	}
	if (c.r.p(0.2)) b = -b;
	in(c, "from", a); in(c, "to", b);
}
template <class R> void quat(Case& c) {
	Quat<R> a, b; gPair(c, a, b);
	R w = gW<R>(c); L u = E<R>::u();
	LQ A = lq(a), B = lq(b);
	L d = dot(A, B);
	c.cls(d < 0 ? "negative dot" : "positive dot");
	L d2 = len(A * (1 - (L)w) + B * w);
	Quat<R> q; c.chk(&q.lerp(a, b, w) == &q, "Quat lerp returns itself");
	if (d2 > 1e-3L) qnear(c, lq(q), refLerp(A, B, w), 32 * u / d2, "Quat lerp");
	c.chk(Quat<R>::fromLerp(a, b, w) == q, "Quat fromLerp is lerp");
	Quat<R> al = a; al.lerp(al, b, w); c.chk(al == q, "Quat lerp onto from"); al = b; al.lerp(a, al, w); c.chk(al == q, "Quat lerp onto to");

	LQ Bs = d < 0 ? B * -1 : B;
	Quat<R> s; c.chk(&s.slerp(a, b, w) == &s, "Quat slerp returns itself");
	if (fabsl(d) > 1e-5L) slerpLike<R>(c, lq(s), A, Bs, w, "Quat slerp");
	c.chk(fabsl(len(lq(s)) - 1) <= 64 * u, "Quat slerp is unit");
	c.chk(Quat<R>::fromSlerp(a, b, w) == s, "Quat fromSlerp is slerp");
	al = a; al.slerp(al, b, w); c.chk(al == s, "Quat slerp onto from"); al = b; al.slerp(a, al, w); c.chk(al == s, "Quat slerp onto to");
	L th = between(A, B), t1 = between(A, lq(s)), t2 = between(lq(s), B), slack = fabsl(d) >= 0.93L ? 2.5e-3L : 256 * u;
	c.chk(fabsl(t1 - w * th) <= slack && fabsl(t2 - (1 - (L)w) * th) <= slack, "Quat slerp turns in proportion to the weight along the short way", "turned %Lg and %Lg of %Lg at weight %g", t1, t2, th, double(w));
	if (w == 0) { c.cls("w = 0"); c.chk(between(A, lq(s)) <= 32 * u, "Quat slerp at 0 is from"); }
	if (w == 1) { c.cls("w = 1"); c.chk(between(B, lq(s)) <= 32 * u, "Quat slerp at 1 is to"); }
	Quat<R> s2; s2.slerp(a, -b, w); if (fabsl(d) > 1e-5L) c.chk(between(lq(s), lq(s2)) <= 128 * u, "Quat slerp to -q is the same rotation");
	R w2 = R(c.r.u01()); if (w2 < w) { Quat<R> e; e.slerp(a, b, w2); c.chk(between(A, lq(e)) <= t1 + 256 * u, "Quat slerp is monotonic in the weight"); }

	if (d > -0.999L) {
		Quat<R> n; c.chk(&n.slerpNoInvert(a, b, w) == &n, "Quat slerpNoInvert returns itself");
		slerpLike<R>(c, lq(n), A, B, w, "Quat slerpNoInvert");
		c.chk(Quat<R>::fromSlerpNoInvert(a, b, w) == n, "Quat fromSlerpNoInvert is slerpNoInvert");
	} else c.cls("antipodal (undecided)");
}
template <class R> void maxAngle(Case& c) {
	Quat<R> a, b; gPair(c, a, b);
	R m = c.in("max", c.r.p(0.1) ? R(0) : c.r.p(0.2) ? R(c.r.uni(3, 7)) : R(c.r.uni(0, 3.2))); L u = E<R>::u();
	LQ A = lq(a), B = lq(b);
	Quat<R> q; c.chk(&q.slerpMaxAngle(a, b, m) == &q, "Quat slerpMaxAngle returns itself");
	c.chk(Quat<R>::fromSlerpMaxAngle(a, b, m) == q, "Quat fromSlerpMaxAngle is slerpMaxAngle");
	L th = between(A, B), t1 = between(A, lq(q)), t2 = between(lq(q), B), want = std::min<L>(th, m);
	c.cls(th <= m ? "within the limit" : "limited"); c.cls("negative dot", dot(A, B) < 0);
	c.chk(fabsl(len(lq(q)) - 1) <= 128 * u, "Quat slerpMaxAngle is unit");
	L tol = th < 2.2e-3L ? 2.3e-3L : 128 * u / std::min<L>(1, sinl(th / 2));
	c.chk(fabsl(t1 - want) <= tol, "Quat slerpMaxAngle turns by the limit at most", "turned %Lg of %Lg, limit %g", t1, th, double(m));
	c.chk(fabsl(t2 - (th - want)) <= tol, "Quat slerpMaxAngle turns towards to", "%Lg left of %Lg, limit %g", t2, th, double(m));
	Quat<R> al = a; al.slerpMaxAngle(al, b, m); c.chk(al == q, "Quat slerpMaxAngle onto from"); al = b; al.slerpMaxAngle(a, al, m); c.chk(al == q, "Quat slerpMaxAngle onto to");
}
template <class R> void squad(Case& c) {
	Quat<R> a, b, e, f; gPair(c, a, b);
	auto nb = [&](const Quat<R>& q) { Vec3<R> x = gUnit3<R>(c.r); L h = c.r.uni(0, 0.8); return toQ<R>(lq(q) * LQ{x.x * sinl(h), x.y * sinl(h), x.z * sinl(h), cosl(h)}); };
	if (c.r.p(0.2)) { e = a; f = b; } else { e = nb(a); f = nb(b); }
	in(c, "a", e); in(c, "b", f);
	R w = gW<R>(c); L u = E<R>::u();
	LQ p = refSlerp(lq(a), lq(b), w), q = refSlerp(lq(e), lq(f), w); L k = 2 * (L)w * (1 - (L)w);
	L d1 = dot(lq(a), lq(b)), d2 = dot(lq(e), lq(f)), d3 = dot(p, q);
	Quat<R> s; c.chk(&s.set(a, b, e, f, w) == &s, "Quat set(squad) returns itself"); c.chk(alike<R>(Quat<R>::from(a, b, e, f, w), s) || s.x != s.x, "Quat from(squad) is set(squad)");
	if (d1 < -0.95L || d2 < -0.95L || d3 < -0.95L) { c.cls("antipodal (undecided)"); return; }
	L ap = 1; for (L d : {d1, d2, d3}) ap = std::min(ap, 1 - std::min<L>(0, d) * std::min<L>(0, d));
	bool close = d1 > 0.93L || d2 > 0.93L || d3 > 0.93L;
	c.cls(close ? "close keys" : "great arcs");
	qnear(c, lq(s), refSlerp(p, q, k), (close ? 6e-3L : 256 * u) / ap, "Quat squad interpolation");
	if (w == 0) { c.cls("w = 0"); c.chk(maxd(lq(s), lq(a)) <= 64 * u, "squad starts at from"); }
	if (w == 1) { c.cls("w = 1"); c.chk(maxd(lq(s), lq(b)) <= 64 * u, "squad ends at to"); }
}
template <class R, class T> void matOk(Case& c, const T& m, const LQ& want, L tol, const char* site) {
	LQ w = unit(want);
	RM<R> G = lin(ref(m)), W = rRotQ<R>(Quat<R>(R(w.x), R(w.y), R(w.z), R(w.w), false));
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (!(fabsl(G.a[i][j].v - W.a[i][j].v) <= tol)) { c.chk(false, site, "got %s expected %s", show(G).c_str(), show(W).c_str()); return; }
	c.chk(true, site);
}
template <class R> void mats(Case& c) {
	Quat<R> a, b; gPair(c, a, b);
	R w = gW<R>(c), m = c.in("max", c.r.p(0.1) ? R(0) : R(c.r.uni(0, 3.5))); L u = E<R>::u();
	LQ A = lq(a), B = lq(b); if (dot(A, B) < 0) B = B * -1;
	L d = dot(A, B), th = between(A, B);
	if (d < 1e-3L) { c.cls("half a turn (undecided)"); return; }
	Mat3<R> ma = Mat3<R>::from(a), mb = Mat3<R>::from(b), r = gMat3<R>(c, "old");
	Vec3<R> t1 = gTrans<R>(c), t2 = gTrans<R>(c);
	Mat34<R> na(ma, t1), nb(mb, t2), n = gMat34<R>(c, "old34");
	L tol = (d > 0.93L ? 3e-3L : 512 * u) ;
	LQ S = refSlerp(A, B, w), M = refSlerp(A, B, th > m ? (L)m / th : 1);
	L tm = th < 2.3e-3L ? 5e-3L : 512 * u / std::min<L>(1, sinl(th / 2));
	c.cls(th > m ? "limited" : "within the limit");
	c.chk(&r.slerp(ma, mb, w) == &r, "Mat3 slerp returns itself"); matOk<R>(c, r, S, tol, "Mat3 slerp"); matOk<R>(c, Mat3<R>::fromSlerp(ma, mb, w), S, tol, "Mat3 fromSlerp");
	r.slerpMaxAngle(ma, mb, m); matOk<R>(c, r, M, tm, "Mat3 slerpMaxAngle"); matOk<R>(c, Mat3<R>::fromSlerpMaxAngle(ma, mb, m), M, tm, "Mat3 fromSlerpMaxAngle");
	n.slerp(na, nb, w); matOk<R>(c, n, S, tol, "Mat34 slerp"); matOk<R>(c, Mat34<R>::fromSlerp(na, nb, w), S, tol, "Mat34 fromSlerp");
	n.slerpMaxAngle(na, nb, m); matOk<R>(c, n, M, tm, "Mat34 slerpMaxAngle"); matOk<R>(c, Mat34<R>::fromSlerpMaxAngle(na, nb, m), M, tm, "Mat34 fromSlerpMaxAngle");
	r = ma; r.slerp(r, mb, w); matOk<R>(c, r, S, tol, "Mat3 slerp onto from"); r = mb; r.slerp(ma, r, w); matOk<R>(c, r, S, tol, "Mat3 slerp onto to");
}
template <class R> void mat2(Case& c) {
	R a = c.in("a", gAngle<R>(c.r)), b = c.in("b", c.r.p(0.2) ? R(a + R(c.r.uni(-0.1, 0.1))) : gAngle<R>(c.r)), w = gW<R>(c), m = c.in("max", R(c.r.uni(0, 3.5)));
	Mat2<R> A = Mat2<R>::from(a), B = Mat2<R>::from(b), r = gMat2<R>(c, "old");
	L d = remainderl((L)b - a, 2 * PIL), u = E<R>::u(), tol = 64 * u * (1 + fabsl(a) + fabsl(b));
	L raw = atan2l(sinl(b), cosl(b)) - atan2l(sinl(a), cosl(a));
	c.cls("crosses the cut", fabsl(raw) > PIL);
	if (PIL - fabsl(d) < 4 * tol) { c.cls("half a turn (undecided)"); return; }
	auto ok = [&](const Mat2<R>& g, L t, const char* site) { c.chk(fabsl(g.x.x - cosl(t)) <= tol && fabsl(g.x.y - sinl(t)) <= tol && fabsl(g.y.x + sinl(t)) <= tol && fabsl(g.y.y - cosl(t)) <= tol, site, "got %s expected angle %Lg", show(ref(g)).c_str(), t); };
	L lim = d > m ? (L)m : d < -m ? -(L)m : d;
	c.cls(fabsl(d) > m ? "limited" : "within the limit");
	r.slerp(A, B, w); ok(r, a + d * w, "Mat2 slerp"); ok(Mat2<R>::fromSlerp(A, B, w), a + d * w, "Mat2 fromSlerp");
	r.slerpMaxAngle(A, B, m); ok(r, a + lim, "Mat2 slerpMaxAngle"); ok(Mat2<R>::fromSlerpMaxAngle(A, B, m), a + lim, "Mat2 fromSlerpMaxAngle");
	r = A; r.slerp(r, B, w); ok(r, a + d * w, "Mat2 slerp onto from");
}

// interpolation into one of the ends
template <class R> void owns(Case& c) {
	typedef Quat<R> Q; typedef Mat3<R> B; Q a, b, d, e; auto g = [&](const char* n) { Vec3<R> ax = c.in(n, Vec3<R>(R(c.r.uni(-1, 1)), R(c.r.uni(-1, 1)), R(c.r.uni(0.1, 1)))); return Q::from(ax.normalized(), R(c.r.uni(-1.4, 1.4))); };
	a = g("a"); b = g("b"); d = g("d"); e = g("e"); R w = c.in("w", R(c.r.uni(0, 1))), m = c.in("max angle", R(c.r.logu(0.01, 3)));
	for (int s = 0; s < 2; s++) {
		auto ends = [&](const char* n0, const char* n1, auto op) { if (s) own<R>(c, n1, a, [&](Q& x, const Q& y) { op(x, b, y); }); else own<R>(c, n0, a, [&](Q& x, const Q& y) { op(x, y, b); }); };
		ends("lerp from itself", "lerp to itself", [&](Q& x, const Q& f, const Q& t) { x.lerp(f, t, w); }); ends("slerp from itself", "slerp to itself", [&](Q& x, const Q& f, const Q& t) { x.slerp(f, t, w); });
		ends("slerpNoInvert from itself", "slerpNoInvert to itself", [&](Q& x, const Q& f, const Q& t) { x.slerpNoInvert(f, t, w); }); ends("slerpMaxAngle from itself", "slerpMaxAngle to itself", [&](Q& x, const Q& f, const Q& t) { x.slerpMaxAngle(f, t, m); });
		ends("squad from itself", "squad to itself", [&](Q& x, const Q& f, const Q& t) { x.set(f, t, d, e, w); }); ends("via from itself", "via to itself", [&](Q& x, const Q& f, const Q& t) { x.set(f, d, t); });
		ends("squad with itself inside", "squad with itself inside, second", [&](Q& x, const Q& f, const Q& t) { x.set(d, e, f, t, w); }); }
	own<R>(c, "via itself", a, [&](Q& x, const Q& y) { x.set(b, y, d); }); own<R>(c, "lerp with a weight of its own", a, [&](Q& x, const Q& y) { x.lerp(b, d, y.data()[3]); }); own<R>(c, "slerp with a weight of its own", a, [&](Q& x, const Q& y) { x.slerp(y, b, y.data()[3]); });
	own<R>(c, "Quat set to itself", a, [&](Q& x, const Q& y) { x.set(y); }); own<R>(c, "Quat assigned itself", a, [&](Q& x, const Q& y) { x = y; });
	B ma = B::from(a), mb = B::from(b);
	own<R>(c, "Mat3 slerp from itself", ma, [&](B& x, const B& y) { x.slerp(y, mb, w); }); own<R>(c, "Mat3 slerp to itself", ma, [&](B& x, const B& y) { x.slerp(mb, y, w); }); own<R>(c, "Mat3 slerpMaxAngle from itself", ma, [&](B& x, const B& y) { x.slerpMaxAngle(y, mb, m); }); own<R>(c, "Mat3 slerpMaxAngle to itself", ma, [&](B& x, const B& y) { x.slerpMaxAngle(mb, y, m); });
	Vec3<R> p = gOwn3<R>(c.r), q = gOwn3<R>(c.r); typedef Mat34<R> T; T ta(ma, p), tb(mb, q); c.in("p", p); c.in("q", q);
	own<R>(c, "Mat34 slerp from itself", ta, [&](T& x, const T& y) { x.slerp(y, tb, w); }); own<R>(c, "Mat34 slerp to itself", ta, [&](T& x, const T& y) { x.slerp(tb, y, w); }); own<R>(c, "Mat34 slerpMaxAngle from itself", ta, [&](T& x, const T& y) { x.slerpMaxAngle(y, tb, m); }); own<R>(c, "Mat34 slerpMaxAngle to itself", ta, [&](T& x, const T& y) { x.slerpMaxAngle(tb, y, m); });
	own<R>(c, "Mat34 set from a rotation and own translation", ta, [&](T& x, const T& y) { x.set(b, y.t); });
	typedef Mat2<R> A; A ra, rb; ra.set(c.in("first angle", R(c.r.uni(-1.4, 1.4)))); rb.set(c.in("second angle", R(c.r.uni(-1.4, 1.4))));
	own<R>(c, "Mat2 slerp from itself", ra, [&](A& x, const A& y) { x.slerp(y, rb, w); }); own<R>(c, "Mat2 slerp to itself", ra, [&](A& x, const A& y) { x.slerp(rb, y, w); }); own<R>(c, "Mat2 slerpMaxAngle from itself", ra, [&](A& x, const A& y) { x.slerpMaxAngle(y, rb, m); }); own<R>(c, "Mat2 slerpMaxAngle to itself", ra, [&](A& x, const A& y) { x.slerpMaxAngle(rb, y, m); });
}
void vf::registerAll() {
	VF_BOTH(quat, "quat", 50000, "positive dot", "negative dot", "close keys", "great arc", "w = 0", "w = 1", "same orientation", "about half a turn apart");
	VF_BOTH(maxAngle, "max-angle", 40000, "limited", "within the limit", "negative dot");
	VF_BOTH(squad, "squad", 30000, "w = 0", "w = 1", "close keys", "great arcs");
	VF_BOTH(mats, "mat3", 25000, "limited", "within the limit");
	VF_BOTH(mat2, "mat2", 25000, "crosses the cut", "limited", "within the limit");
	VF_BOTH(owns, "own parts", 8000);
}
VF_MAIN()
