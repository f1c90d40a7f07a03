// C20: circles and spheres
#include "geo.h"
#include "alias.h"
#include "scale.h"
using namespace vf;
template <class D> typename D::B gBall(Case& c, const char* n) {
	typedef typename D::Real R; typename D::V p = D::vec(c.r); R r = c.r.p(0.08) ? R(0) : c.r.p(0.3) ? R(c.r.in(1, 6)) : R(c.r.logu(1e-2, 20));
	c.in(n, p); c.in("r", r); return c.r.p(0.5) ? typename D::B(p, r) : D::B::from(p, r);
}
template <class D> E<typename D::Real> edist(const typename D::V& a, const typename D::V& b) { typedef E<typename D::Real> X; X s(0); for (int i = 0; i < D::N; i++) { X d = X(D::at(b, i)) - X(D::at(a, i)); s = s + d * d; } return esqrt(s); }
template <class D> E<typename D::Real> edot(const typename D::V& a, const typename D::V& b) { typedef E<typename D::Real> X; X s(0); for (int i = 0; i < D::N; i++) s = s + X(D::at(a, i)) * X(D::at(b, i)); return s; }
// equal up to rounding: two forms of one construction may round differently
template <class D> bool sameBall(const typename D::B& a, const typename D::B& b) {
	typedef typename D::Real R; L s = fabsl((L)a.radius) + fabsl((L)b.radius); for (int i = 0; i < D::N; i++) s += fabsl((L)D::at(a.center, i)) + fabsl((L)D::at(b.center, i));
	L tol = 32 * E<R>::u() * s; for (int i = 0; i < D::N; i++) if (!(fabsl((L)D::at(a.center, i) - (L)D::at(b.center, i)) <= tol)) return false;
	return fabsl((L)a.radius - (L)b.radius) <= tol;
}

template <class D> void points(Case& c) {
	typedef typename D::Real R; typedef typename D::V V; typedef typename D::B B; typedef E<R> X;
	int n = c.r.count(1, 12); auto p = gPoints<D>(c, n); c.cls("one point", n == 1); c.cls("many points", n > 4);
	B b; B& rf = b.set(n, p.data()); c.chk(&rf == &b, "set returns the object"); B f = B::from(n, p.data()); c.chk(sameBall<D>(b, f), "from(points) equals set(points)");
	int pad = c.r.p(0.3) ? 0 : c.r.in(1, 5); Strided<D> s(c.r, p, pad); B g; g.set(n, s.data(), s.stride); B g2 = B::from(n, s.data(), s.stride); c.cls("padded stride", pad > 0);
	c.chk(sameBall<D>(g, g2), "strided from equals strided set");
	V lo = p[0], hi = p[0]; for (auto& q : p) for (int i = 0; i < D::N; i++) { D::at(lo, i) = std::min(D::at(lo, i), D::at(q, i)); D::at(hi, i) = std::max(D::at(hi, i), D::at(q, i)); }
	for (B* k : {&b, &g}) {
		const char* st = k == &b ? "ball of points" : "ball of strided points";
		for (int i = 0; i < D::N; i++) c.near(D::at(k->center, i), (X(D::at(lo, i)) + X(D::at(hi, i))) * X(R(0.5)), st);
		X m(0); L me = 0; for (auto& q : p) { X s(0); for (int i = 0; i < D::N; i++) { X ce = (X(D::at(lo, i)) + X(D::at(hi, i))) * X(R(0.5)); X d = X(D::at(q, i)) - ce; s = s + d * d; } X d = esqrt(s); me = std::max(me, std::min(d.e, sqrtl(fabsl(s.e)) )); if (d.v > m.v) m = d; }
		m.e = std::max(m.e < 1e300L ? m.e : 0, me); c.near(k->radius, m, st);
		// it holds every one of its points
		for (auto& q : p) { X d = edist<D>(q, k->center); c.chk(d.v <= k->radius + 6 * (std::min(d.e, (L)1e-3 * (d.v + 1e-9L)) + E<R>::u() * k->radius), "ball holds its points", "distance %.17Lg radius %.17g", d.v, double(k->radius)); }
	}
}
template <class D> void algebra(Case& c) {
	typedef typename D::Real R; typedef typename D::V V; typedef typename D::B B; typedef E<R> X;
	B b = gBall<D>(c, "c"); V t = D::vec(c.r); c.in("t", t); R k = c.in("k", gPos<R>(c.r)), r2 = c.in("r2", gPos<R>(c.r));
	B a = b + t, s = b - t, m = b * k, q = b / k, x;
	x = b; B& r1 = (x += t); c.chk(&r1 == &x && sameBall<D>(x, a), "+= agrees with +"); x = b; B& r3 = (x -= t); c.chk(&r3 == &x && sameBall<D>(x, s), "-= agrees with -");
	x = b; B& r4 = (x *= k); c.chk(&r4 == &x && sameBall<D>(x, m), "*= agrees with *"); x = b; B& r5 = (x /= k); c.chk(&r5 == &x && sameBall<D>(x, q), "/= agrees with /");
	for (int i = 0; i < D::N; i++) { c.near(D::at(a.center, i), X(D::at(b.center, i)) + X(D::at(t, i)), "translate +"); c.near(D::at(s.center, i), X(D::at(b.center, i)) - X(D::at(t, i)), "translate -"); c.same(D::at(m.center, i), D::at(b.center, i), "scaling keeps the centre"); c.same(D::at(q.center, i), D::at(b.center, i), "scaling keeps the centre"); }
	c.same(a.radius, b.radius, "translation keeps the radius"); c.same(s.radius, b.radius, "translation keeps the radius"); c.near(m.radius, X(b.radius) * X(k), "scale *"); c.near(q.radius, X(b.radius) / X(k), "scale /");
	x = b; x += x.center; for (int i = 0; i < D::N; i++) c.near(D::at(x.center, i), X(D::at(b.center, i)) + X(D::at(b.center, i)), "translate by the own centre");
	x = b; x -= x.center; for (int i = 0; i < D::N; i++) c.same(D::at(x.center, i), R(0), "translate by minus the own centre");
	x = b; x *= x.radius; c.near(x.radius, X(b.radius) * X(b.radius), "scale by the own radius"); if (b.radius > 0) { x = b; x /= x.radius; c.near(x.radius, X(R(1)), "divide by the own radius"); }
	B y; B& r6 = y.set(t, r2); c.chk(&r6 == &y, "set returns the object"); B z = B::from(t, r2), w(t, r2);
	for (B* v : {&y, &z, &w}) { for (int i = 0; i < D::N; i++) c.same(D::at(v->center, i), D::at(t, i), "set/from centre"); c.same(v->radius, r2, "set/from radius"); }
	// comparison
	int ch = c.r.n(D::N + 2); B d = b; if (ch < D::N) D::at(d.center, ch) = std::nextafter(D::at(d.center, ch), R(1e30)); else if (ch == D::N) d.radius = std::nextafter(d.radius, R(1e30)); bool eq = ch == D::N + 1;
	c.cls("equal", eq); c.chk((d == b) == eq && (b == d) == eq, "=="); c.chk((d != b) == !eq && (b != d) == !eq, "!=");
	const B& cb = b; for (int i = 0; i < D::N; i++) { c.same(cb.data()[i], D::at(b.center, i), "data"); c.same(b.data()[i], D::at(b.center, i), "data"); } c.same(cb.data()[D::N], b.radius, "data"); c.chk(b.data() == cb.data(), "data aliases the object");
	b.data()[D::N] = k; c.same(b.radius, k, "data writes through");
	auto f = d.template cast<float>(); auto g = d.template cast<double>(); c.same(R(f.radius), R(float(d.radius)), "cast"); c.same(double(g.radius), double(d.radius), "cast");
	typename D2<R>::V dummy; (void)dummy; const float* pf = f.data(); const double* pg = g.data(); for (int i = 0; i < D::N; i++) { c.same(pf[i], float(D::at(d.center, i)), "cast"); c.same(pg[i], double(D::at(d.center, i)), "cast"); }
	c.same(B::One.radius, R(1), "One"); for (int i = 0; i < D::N; i++) c.same(D::at(B::One.center, i), R(0), "One");
}
// a direction of length about 1
template <class D> typename D::V gDir(Rng& r) { typedef typename D::Real R; if (r.p(0.3)) { typename D::V v = D::all(0); D::at(v, r.n(D::N)) = R(r.sgn()); return v; } double l; double g[3]; do { l = 0; for (int i = 0; i < D::N; i++) { g[i] = r.gauss(); l += g[i] * g[i]; } } while (l < 1e-4); l = std::sqrt(l); return map<D>([&](int i) { return R(g[i] / l); }); }
template <class D> void contain(Case& c) {
	typedef typename D::Real R; typedef typename D::V V; typedef typename D::B B; typedef E<R> X;
	B b = gBall<D>(c, "c"); V dir = gDir<D>(c.r); R f = c.r.p(0.2) ? R(1) : c.r.p(0.4) ? R(1 + c.r.sgn() * c.r.logu(1e-7, 0.1)) : R(c.r.uni(0, 2)); V p = b.center + dir * (b.radius * f); c.in("p", p);
	X d = edist<D>(p, b.center); L m = 6 * (d.e + E<R>::u() * b.radius); bool got = b.contains(p);
	if (d.v < b.radius - m) { c.cls("inside"); c.chk(got, "a point inside is contained", "distance %.17Lg radius %.17g", d.v, double(b.radius)); }
	else if (d.v > b.radius + m) { c.cls("outside"); c.chk(!got, "a point outside is not contained", "distance %.17Lg radius %.17g", d.v, double(b.radius)); } else c.cls("on the surface");
	c.chk(b.contains(b.center), "the centre is contained");
	// exact surface points: integer centre and radius along an axis
	B e(map<D>([&](int) { return R(c.r.in(-50, 50)); }), R(c.r.in(0, 20))); int ax = c.r.n(D::N); R sg = R(c.r.sgn()); V q = e.center; D::at(q, ax) += sg * e.radius; c.chk(e.contains(q), "the surface belongs to the ball"); D::at(q, ax) += sg * R(0.125); c.chk(!e.contains(q), "just off the surface is outside");
	// ball in ball
	B o; o.radius = c.r.p(0.2) ? b.radius : R(b.radius * c.r.uni(0, 1.3)); R gap = b.radius - o.radius; R g = c.r.p(0.4) ? R(gap * (1 + c.r.sgn() * c.r.logu(1e-6, 0.3))) : R(gap * c.r.uni(-1.5, 1.5)); o.center = b.center + gDir<D>(c.r) * g; c.in("o", o.center); c.in("or", o.radius);
	X dd = edist<D>(o.center, b.center); L mm = 6 * (dd.e + E<R>::u() * (b.radius + o.radius)); L slack = (L)b.radius - o.radius - dd.v; bool in = b.contains(o);
	if (slack > mm) { c.cls("ball inside"); c.chk(in, "a ball inside is contained", "slack %.17Lg", slack); } else if (slack < -mm) { c.cls("ball not inside"); c.cls("other ball larger", o.radius > b.radius); c.chk(!in, "a ball sticking out is not contained", "slack %.17Lg", slack); } else c.cls("touching from inside");
	B ei = e; ei.center = e.center; R ri = R(c.r.in(0, int(e.radius))); ei.radius = ri; D::at(ei.center, ax) += sg * (e.radius - ri); c.chk(e.contains(ei), "a ball touching from inside is contained"); c.chk(e.contains(e), "a ball contains itself");
	if (in && slack > mm) { V x = o.center + gDir<D>(c.r) * (o.radius * R(c.r.u01())); X dx = edist<D>(x, b.center); if (fabsl(dx.v - b.radius) > 6 * (dx.e + E<R>::u() * b.radius)) c.chk(b.contains(x), "points of a contained ball are contained"); }
}
template <class D> void balls(Case& c) {
	typedef typename D::Real R; typedef typename D::V V; typedef typename D::B B; typedef E<R> X;
	B a = gBall<D>(c, "a"), b = gBall<D>(c, "b"); if (c.r.p(0.02)) { a.radius = b.radius = R(0); b.center = a.center; D::at(b.center, c.r.n(D::N)) += R(c.r.n(2) * c.r.logu(1e-4, 1)); } R sum = a.radius + b.radius;
	if (c.r.p(0.7)) { R f = c.r.p(0.3) ? R(1 + c.r.sgn() * c.r.logu(1e-6, 0.1)) : R(c.r.uni(0.05, 2)); b.center = a.center + gDir<D>(c.r) * (sum * f); c.in("b", b.center); }
	bool conc = c.r.p(0.03); if (conc) b.center = a.center;
	X d = edist<D>(a.center, b.center); L m = 8 * (d.e + E<R>::u() * ((L)sum + d.v)); if (!(m < 1e30L)) m = 1e-6L * sum;
	V hit = D::all(R(77)), hit0 = hit; R t = R(-77); bool g1 = a.intersects(b), g2 = a.intersects(hit, t, b), g3 = b.intersects(a);
	L gap = (L)a.radius + b.radius - d.v; c.cls("concentric", conc);
	if (gap > m) { c.cls("overlap"); c.chk(g1, "overlapping balls intersect"); c.chk(g2, "overlapping balls intersect (hit)"); c.chk(g3, "ball intersection is symmetric"); }
	else if (gap < -m) { c.cls("apart"); c.chk(!g1, "separate balls do not intersect", "gap %.17Lg", gap); c.chk(!g2, "separate balls do not intersect (hit)", "gap %.17Lg", gap); c.chk(!g3, "ball intersection is symmetric"); for (int i = 0; i < D::N; i++) c.same(D::at(hit, i), R(77), "no hit, no output"); c.same(t, R(-77), "no hit, no output"); return; }
	else { c.cls("touching"); return; }
	if (!g2) return;
	c.nearAbs(t, gap, 2 * m, "penetration depth");
	if (!conc && d.v > 0 && d.e < 0.01L * d.v) for (int i = 0; i < D::N; i++) { X dl = X(D::at(a.center, i)) - X(D::at(b.center, i)); X h = X(D::at(b.center, i)) + dl / d * X(b.radius); L me = h.e; for (int j = 0; j < D::N; j++) me = std::max(me, (L)((X(D::at(a.center, j)) - X(D::at(b.center, j))) / d * X(b.radius)).e); h.e = me; c.near(D::at(hit, i), h, "the hit point is on the other ball towards this one", 8); }
	B e(map<D>([&](int) { return R(c.r.in(-50, 50)); }), R(c.r.in(0, 20))), f = e; f.radius = R(c.r.in(0, 20)); D::at(f.center, c.r.n(D::N)) += R(c.r.sgn()) * (e.radius + f.radius); c.chk(e.intersects(f) && f.intersects(e), "touching balls intersect"); V hh; R tt = 9; if (c.chk(e.intersects(hh, tt, f), "touching balls intersect (hit)")) c.nearAbs(tt, 0, 8 * E<R>::u() * (e.radius + f.radius), "penetration of touching balls");
}
template <class D> void segments(Case& c) {
	typedef typename D::Real R; typedef typename D::V V; typedef typename D::B B; typedef E<R> X;
	B b = gBall<D>(c, "c"); if (b.radius == 0) b.radius = 1;
	auto pt = [&]() { R f = c.r.p(0.1) ? R(1) : R(c.r.uni(0, 3)); V p = b.center + gDir<D>(c.r) * (b.radius * f); return c.r.p(0.15) ? D::vec(c.r) : p; };
	V s = pt(), e = c.r.p(0.3) ? V(b.center + (b.center - s) * R(c.r.uni(-0.9, 2)) + gDir<D>(c.r) * (b.radius * R(c.r.uni(0, 1)))) : pt();
	if (c.r.p(0.15)) { s = b.center + gDir<D>(c.r) * (b.radius * R(c.r.uni(0, 0.99))); }
	bool null = c.r.p(0.03); if (null) e = s;
	R zs = gReal<R>(c.r), ze = gReal<R>(c.r); Vec3<R> s3, e3; 
	if (D::N == 2) { s3 = Vec3<R>(D::at(s, 0), D::at(s, 1), zs); e3 = Vec3<R>(D::at(e, 0), D::at(e, 1), ze); } else { s3 = Vec3<R>(D::at(s, 0), D::at(s, 1), D::at(s, 2)); e3 = Vec3<R>(D::at(e, 0), D::at(e, 1), D::at(e, 2)); }
	c.in("start", s3); c.in("end", e3); Line3<R> l; l.start = s3; l.end = e3;
	V hit = D::all(R(77)), hit2 = hit; R t = R(-77), t2 = t; bool g0 = b.intersects(l), g1 = b.intersects(hit, t, l), g2 = b.hits(hit2, t2, l);
	// small integers, on which every step is exact: tangents, ends on the surface, starts inside
	{ B q(map<D>([&](int) { return R(c.r.in(-9, 9)); }), R(c.r.in(1, 12))); int A = c.r.n(D::N), O = (A + 1 + c.r.n(D::N - 1)) % D::N, len = 1 << c.r.in(1, 4), j = c.r.in(1, len), kind = c.r.n(6); R sa = R(c.r.sgn()), so = R(c.r.sgn()); V u = q.center, v; D::at(u, A) += sa * q.radius; v = u; bool want = true; R at = R(j) / R(len);
		if (kind == 0) { D::at(u, O) -= so * R(j); v = u; D::at(v, O) += so * R(len); c.cls("exact tangent"); } else if (kind == 1) { D::at(u, A) += sa * R(len); at = R(1); c.cls("exact end on the surface"); } else if (kind == 2) { D::at(u, A) += sa * R(len); D::at(v, A) += sa * R(0.125); D::at(u, A) += sa * R(0.125); want = false; c.cls("exact end before the surface"); } else if (kind == 3) { D::at(u, A) += sa * R(j); v = u; D::at(v, A) -= sa * R(len); c.cls("exact entry"); } else if (kind == 4) { D::at(u, A) -= sa * R(0.125); v = u; D::at(v, A) += sa * R(c.r.sgn() * len); want = false; c.cls("exact start inside"); } else { D::at(u, A) += sa * R(0.125); D::at(u, O) -= so * R(j); v = u; D::at(v, O) += so * R(len); want = false; c.cls("exact pass"); }
		Line3<R> g; if (D::N == 2) { g.start = Vec3<R>(D::at(u, 0), D::at(u, 1), zs); g.end = Vec3<R>(D::at(v, 0), D::at(v, 1), ze); } else { g.start = Vec3<R>(D::at(u, 0), D::at(u, 1), D::at(u, D::N - 1)); g.end = Vec3<R>(D::at(v, 0), D::at(v, 1), D::at(v, D::N - 1)); }
		V h1, h2; R t3 = R(-7), t4 = R(-7); bool i0 = q.intersects(g), i1 = q.intersects(h1, t3, g), i2 = q.hits(h2, t4, g); c.chk(i0 == want && i1 == want && i2 == want, "ball and segment on a grid", "kind %d: reported %d %d %d, expected %d; radius %g entry %g", kind, int(i0), int(i1), int(i2), int(want), double(q.radius), double(at));
		if (want && i1 && i2) { V h = u; for (int i = 0; i < D::N; i++) D::at(h, i) += (D::at(v, i) - D::at(u, i)) * at; c.nearAbs(t3, at, 4 * E<R>::u(), "entry parameter on a grid"); c.nearAbs(t4, at, 4 * E<R>::u(), "entry parameter on a grid (hits)"); for (int i = 0; i < D::N; i++) { c.nearAbs(D::at(h1, i), D::at(h, i), 400 * E<R>::u(), "entry point on a grid"); c.nearAbs(D::at(h2, i), D::at(h, i), 400 * E<R>::u(), "entry point on a grid (hits)"); } } }
	X ft2(0), ftcf(0), cf2(0); for (int i = 0; i < D::N; i++) { X d = X(D::at(e, i)) - X(D::at(s, i)), f = X(D::at(s, i)) - X(D::at(b.center, i)); ft2 = ft2 + d * d; ftcf = ftcf + d * f; cf2 = cf2 + f * f; }
	c.cls("null segment", null);
	if (null) { c.chk(!g0 && !g1 && !g2, "a null segment meets nothing"); c.same(t, R(-77), "no hit, no output"); return; }
	if (!(ft2.v > 0) || ft2.e > 1e-3L * ft2.v) { c.trivial = true; return; }
	X del = ftcf * ftcf - ft2 * (cf2 - X(b.radius) * X(b.radius)); bool miss = false; X x(0);
	if (del.v < -8 * del.e) { miss = true; c.cls("line misses"); }
	else if (del.v < 16 * del.e) { c.cls("grazing"); return; }
	else { x = (-ftcf - esqrt(del)) / ft2; x.e *= 8; if (fabsl(x.v) < x.e || fabsl(x.v - 1) < x.e) { c.cls("entry at an end"); return; } if (x.v < 0 || x.v > 1) { miss = true; L out = (-ftcf.v + sqrtl(del.v)) / ft2.v; c.cls("starts inside", x.v < 0 && out > 0); c.cls("behind", x.v < 0 && out < 0); c.cls("beyond the end", x.v > 1); } }
	c.cls("enters", !miss);
	c.chk(g0 == !miss, "ball intersects segment", "reported %d, entry at %.17Lg", int(g0), x.v); c.chk(g1 == !miss, "ball intersects segment (hit)", "reported %d, entry at %.17Lg", int(g1), x.v); c.chk(g2 == !miss, "ball hits segment", "reported %d, entry at %.17Lg", int(g2), x.v);
	if (miss) { for (int i = 0; i < D::N; i++) if (!g1) c.same(D::at(hit, i), R(77), "no hit, no output"); return; }
	L sc = 0; for (int i = 0; i < D::N; i++) sc = std::max(sc, fabsl((L)D::at(s, i)) + fabsl((L)D::at(e, i)));
	if (g1) { c.nearAbs(t, x.v, x.e, "entry parameter"); for (int i = 0; i < D::N; i++) { L p = D::at(s, i) + ((L)D::at(e, i) - D::at(s, i)) * x.v; c.nearAbs(D::at(hit, i), p, 2 * x.e * sc + 8 * E<R>::u() * sc, "entry point"); } }
	if (g2) { c.nearAbs(t2, x.v, x.e, "entry parameter (hits)"); for (int i = 0; i < D::N; i++) { L p = D::at(s, i) + ((L)D::at(e, i) - D::at(s, i)) * x.v; c.nearAbs(D::at(hit2, i), p, 2 * x.e * sc + 8 * E<R>::u() * sc, "entry point (hits)"); } }
}
// balls and the same balls in another unit of length
template <class D> void scaled(Case& c) {
	typedef typename D::Real R; typedef typename D::V V; typedef typename D::B B; auto pt = [&]() { return map<D>([&](int) { return gSim<R>(c.r); }); };
	V a = c.in("a", pt()), b = c.in("b", pt()), s = c.in("start", pt()), e = c.in("end", pt()), p = c.in("p", pt()); R ra = c.in("ra", std::fabs(gSim<R>(c.r))), rb = c.in("rb", std::fabs(gSim<R>(c.r))), k = c.in("k", std::fabs(gSim<R>(c.r))); if (c.r.p(0.5)) { e = a; c.in("aimed at", e); }
	V q4[5] = {a, b, s, e, p}; bool met = false, meet = false;
	bool ip = c.r.p(0.5);
	similar<R>(c, "balls in another unit of length", 4, [&](Sc<R>& o) {
		B x(o.len(a), o.len(ra)), y(o.len(b), o.len(rb)); V q[5]; for (int i = 0; i < 5; i++) q[i] = o.len(q4[i]); V u = o.len(s), w = o.len(e), z = o.len(p), h = w; R t = 0; auto ball = [&](const B& m) { o.v(m.center, 1); o.v(m.radius, 1); };
		o.b(x.contains(z)); o.b(x.contains(y)); o.b(x.intersects(y)); o.b(x == y); if (o.b(x.intersects(h, t, y))) { o.v(t, 1); meet = true; if (a != b && rb != 0) o.v(h, 1); } ball(x + z); ball(x - z); ball(x * k); if (k != 0) ball(x / k); ball(made<B>(ip, 1, q)); ball(made<B>(ip, 2, q)); ball(made<B>(ip, 5, q)); B g = x; g += z; ball(g); g = x; g -= z; ball(g); g = x; g *= k; ball(g); if (k != 0) { g = x; g /= k; ball(g); }
		Line3<R> l; l.start = Vec3<R>(D::at(u, 0), D::at(u, 1), D::N == 3 ? D::at(u, D::N - 1) : R(1)); l.end = Vec3<R>(D::at(w, 0), D::at(w, 1), D::N == 3 ? D::at(w, D::N - 1) : R(2));
		o.b(x.intersects(l)); if (o.b(x.intersects(h, t, l))) { o.v(h, 1); o.v(t, 0); met = true; } if (o.b(x.hits(h, t, l))) { o.v(h, 1); o.v(t, 0); } });
	c.cls("balls meet", meet); c.cls("segment enters", met);
}
// balls changed by their own centre and radius
template <class R, template <class> class T, class V> void ownBall(Case& c, V p) {
	typedef T<R> A; const int n = sizeof(V) / sizeof(R); A b; b.set(p, c.in("radius", R(c.r.logu(0.05, 5)))); int k = c.in("component", c.r.n(n + 1)); auto num = [=](const A& y) -> const R& { return y.data()[k]; };
	own<R>(c, "ball += own centre", b, [&](A& x, const A& y) { x += y.center; }); own<R>(c, "ball -= own centre", b, [&](A& x, const A& y) { x -= y.center; }); own<R>(c, "ball set from its parts", b, [&](A& x, const A& y) { x.set(y.center, y.radius); }); own<R>(c, "ball set with own number as radius", b, [&](A& x, const A& y) { x.set(y.center, mathlib::abs(num(y))); });
	own<R>(c, "ball *= own number", b, [&](A& x, const A& y) { x *= num(y); }); if (num(b) != 0) own<R>(c, "ball /= own number", b, [&](A& x, const A& y) { x /= num(y); });
}
template <class R> void owns(Case& c) { if (c.r.p(0.5)) ownBall<R, Circle>(c, c.in("p", gOwn2<R>(c.r))); else ownBall<R, Sphere>(c, c.in("p", gOwn3<R>(c.r))); }
void vf::registerAll() {
	VF_DIMS(points, "of points", 40000, "one point", "many points", "very many points", "padded stride");
	VF_DIMS(algebra, "algebra", 40000, "equal");
	VF_DIMS(contain, "contains", 120000, "inside", "outside", "on the surface", "ball inside", "ball not inside", "touching from inside", "other ball larger");
	VF_DIMS(balls, "ball-ball", 120000, "overlap", "apart", "touching", "concentric");
	VF_DIMS(segments, "segment", 150000, "enters", "line misses", "starts inside", "behind", "beyond the end", "null segment", "exact tangent", "exact end on the surface", "exact end before the surface", "exact entry", "exact start inside", "exact pass");
	VF_DIMS(scaled, "another unit", 60000, "balls meet", "segment enters");
	VF_BOTH(owns, "own parts", 12000, "ball /= own number");
}
VF_MAIN()
