// C17: axis-aligned boxes as sets of points
#include "geo.h"
#include "alias.h"
#include "scale.h"
using namespace vf;
template <class D> void build(Case& c) {
	typedef typename D::V V; typedef typename D::A A; typedef typename D::Real R;
	int n = c.in("n", c.r.p(0.2) ? 1 : c.r.count(2, 12)), pad = c.in("pad", c.r.n(4)); std::vector<V> p = gPoints<D>(c, n); c.cls("one point", n == 1); c.cls("many points", n > 1); c.cls("padded stride", pad > 0);
	A e; e.inf = map<D>([&](int i) { R m = D::at(p[0], i); for (auto& q : p) m = std::min(m, D::at(q, i)); return m; }); e.sup = map<D>([&](int i) { R m = D::at(p[0], i); for (auto& q : p) m = std::max(m, D::at(q, i)); return m; });
	Strided<D> s(c.r, p, pad); A a; std::vector<V> tight(p); tight.shrink_to_fit();
	c.chk(sameBox<D>(a.set(n, tight.data()), e), "set(points) is the tightest box"); A b; c.chk(sameBox<D>(b.set(n, s.data(), s.stride), e), "set(points, stride) is the tightest box"); c.chk(sameBox<D>(A::from(n, tight.data()), e), "from(points) is the tightest box"); c.chk(sameBox<D>(A::from(n, s.data(), s.stride), e), "from(points, stride) is the tightest box");
	A g; g.set(p[0]); c.chk(sameBox<D>(g, A(p[0], p[0])), "set(point)"); c.chk(sameBox<D>(A::from(p[0]), g), "from(point)"); c.chk(g.isNull(), "box of one point is null");
	for (int i = 1; i < n; i++) { A before = g; g.add(p[i]); c.chk(g.contains(p[i]) && g.contains(before), "add keeps what was there and the new point"); if (before.contains(p[i])) { c.cls("added point already inside"); c.chk(sameBox<D>(g, before), "add of an inner point changes nothing"); } else c.cls("added point outside"); }
	c.chk(sameBox<D>(g, e), "adding points one by one gives the tightest box"); for (auto& q : p) c.chk(a.contains(q), "box of points contains them");
	A sa = e; sa.add(sa.inf); sa.add(sa.sup); c.chk(sameBox<D>(sa, e), "add of the box's own corners");
}
template <class D> void sets(Case& c) {
	typedef typename D::V V; typedef typename D::A A; typedef typename D::Real R;
	A a = gBox<D>(c, "a"), b = gBox<D>(c, "b");
	if (c.r.p(0.2)) { int k = c.r.n(D::N); R w = D::at(b.sup, k) - D::at(b.inf, k); D::at(b.inf, k) = D::at(a.sup, k); D::at(b.sup, k) = D::at(b.inf, k) + w; c.in("b.inf'", b.inf); c.in("b.sup'", b.sup); }   // touching faces
	if (c.r.p(0.15)) { b.inf = gNearBox<D>(c.r, a); b.sup = gNearBox<D>(c.r, a); for (int i = 0; i < D::N; i++) if (D::at(b.inf, i) > D::at(b.sup, i)) std::swap(D::at(b.inf, i), D::at(b.sup, i)); c.in("b.inf'", b.inf); c.in("b.sup'", b.sup); }
	bool meet = true, touch = false, sub = true; for (int i = 0; i < D::N; i++) { R al = D::at(a.inf, i), ah = D::at(a.sup, i), bl = D::at(b.inf, i), bh = D::at(b.sup, i); if (al > bh || bl > ah) meet = false; if (al == bh || bl == ah) touch = true; if (bl < al || bh > ah) sub = false; }
	c.cls("boxes meet", meet); c.cls("boxes only touch", meet && touch); c.cls("boxes apart", !meet); c.cls("one inside the other", sub);
	c.chk(a.intersects(b) == meet, "box intersects box"); c.chk(b.intersects(a) == meet, "box intersects is symmetric"); c.chk(a.contains(b) == sub, "box contains box"); c.chk(a.contains(a) && a.intersects(a), "box contains and intersects itself");
	A u = A::fromUnion(a, b), x = A::fromIntersection(a, b); A eu, ex; eu.inf = map<D>([&](int i) { return std::min(D::at(a.inf, i), D::at(b.inf, i)); }); eu.sup = map<D>([&](int i) { return std::max(D::at(a.sup, i), D::at(b.sup, i)); }); ex.inf = map<D>([&](int i) { return std::max(D::at(a.inf, i), D::at(b.inf, i)); }); ex.sup = map<D>([&](int i) { return std::min(D::at(a.sup, i), D::at(b.sup, i)); });
	c.chk(sameBox<D>(u, eu), "fromUnion is the smallest box holding both"); c.chk(sameBox<D>(A::fromUnion(b, a), u), "fromUnion is symmetric"); c.chk(sameBox<D>(x, meet ? ex : A::Zero), "fromIntersection is the common box, or Zero"); c.chk(sameBox<D>(A::fromIntersection(b, a), x), "fromIntersection is symmetric"); c.chk(sameBox<D>(A::fromUnion(a, a), a) && sameBox<D>(A::fromIntersection(a, a), a), "union and intersection with itself");
	for (int k = 0; k < 4; k++) {
		V p = c.in("q", gNearBox<D>(c.r, c.r.p(0.5) ? a : b)); bool ia = inBox<D>(a, p), ib = inBox<D>(b, p); c.cls(ia ? "point inside" : "point outside"); c.chk(a.contains(p) == ia, "box contains point"); c.chk(b.contains(p) == ib, "box contains point");
		if (meet) c.chk(x.contains(p) == (ia && ib), "intersection holds exactly the common points"); if (ia || ib) c.chk(u.contains(p), "union holds the points of both");
	}
	for (int i = 0; i < (1 << D::N); i++) { V corner = map<D>([&](int k) { return (i >> k & 1) ? D::at(a.sup, k) : D::at(a.inf, k); }); c.chk(a.contains(corner), "box contains its corners"); V t = map<D>([&](int k) { return R(i >> k & 1); }); V q = a.pointAt(t); for (int k = 0; k < D::N; k++) c.near(D::at(q, k), E<R>(D::at(a.inf, k)) + (E<R>(D::at(a.sup, k)) - E<R>(D::at(a.inf, k))) * E<R>(D::at(t, k)), "pointAt the corners"); }
}
template <class D> void ops(Case& c) {
	typedef typename D::V V; typedef typename D::A A; typedef typename D::Real R; typedef E<R> X;
	A a = gBox<D>(c, "a"); V t = c.in("t", D::vec(c.r)); R k = c.in("k", c.r.p(0.2) ? R(1) : gPos<R>(c.r)); c.cls("box"); c.cls("flat box", D::measure(a) == 0);
	auto nb = [&](const A& g, std::function<X(int)> lo, std::function<X(int)> hi, const char* s) { for (int i = 0; i < D::N; i++) { c.near(D::at(g.inf, i), lo(i), s, 4); c.near(D::at(g.sup, i), hi(i), s, 4); } };
	auto lo = [&](int i) { return X(D::at(a.inf, i)); }; auto hi = [&](int i) { return X(D::at(a.sup, i)); }; auto T = [&](int i) { return X(D::at(t, i)); }; X h = X::lit(0.5L);
	nb(a + t, [&](int i) { return lo(i) + T(i); }, [&](int i) { return hi(i) + T(i); }, "box + vector"); nb(a - t, [&](int i) { return lo(i) - T(i); }, [&](int i) { return hi(i) - T(i); }, "box - vector");
	A x = a; x += t; c.chk(alike<R>(x, a + t), "box += vector"); x = a; x -= t; c.chk(alike<R>(x, a - t), "box -= vector"); x = a; x += x.inf; nb(x, [&](int i) { return lo(i) + lo(i); }, [&](int i) { return hi(i) + lo(i); }, "box += its own corner"); x = a; x -= x.inf; nb(x, [&](int i) { return lo(i) - lo(i); }, [&](int i) { return hi(i) - lo(i); }, "box -= its own corner");
	auto scl = [&](X s, bool top) { return [=, &a](int i) { X cc = (X(D::at(a.inf, i)) + X(D::at(a.sup, i))) * h, e = (X(D::at(a.sup, i)) - X(D::at(a.inf, i))) * h * s; return top ? cc + e : cc - e; }; };
	X K(k), IK = X(R(1)) / K; nb(a * k, scl(K, false), scl(K, true), "box * k scales about the center"); nb(a / k, scl(IK, false), scl(IK, true), "box / k scales about the center"); x = a; x *= k; c.chk(alike<R>(x, a * k), "box *= k"); x = a; x /= k; nb(x, scl(IK, false), scl(IK, true), "box /= k"); x = a; c.chk(&x.scaleCentered(k) == &x, "scaleCentered returns the box"); nb(x, scl(K, false), scl(K, true), "scaleCentered");
	V ce = a.center(), ex = a.extents(), sz = a.size(), at = a.pointAt(t); X vol(R(1)), out; X mn; for (int i = 0; i < D::N; i++) { X d = hi(i) - lo(i); c.near(D::at(ce, i), (lo(i) + hi(i)) * h, "center", 4); c.near(D::at(ex, i), d * h, "extents", 4); c.near(D::at(sz, i), d, "size", 4); c.near(D::at(at, i), lo(i) + d * T(i), "pointAt"); vol = vol * d; out = out + d * h * d * h; if (i == 0 || d.v * 0.5L < mn.v) mn = d * h; }
	c.near(D::measure(a), vol, "area / volume"); typename D::B bi = D::inner(a), bo = D::outer(a); c.near(bi.radius, mn, "inner ball radius"); c.near(bo.radius, esqrt(out), "outer ball radius"); for (int i = 0; i < D::N; i++) { c.near(D::at(bi.center, i), (lo(i) + hi(i)) * h, "inner ball center", 4); c.near(D::at(bo.center, i), (lo(i) + hi(i)) * h, "outer ball center", 4); }
	bool pt = true; for (int i = 0; i < D::N; i++) if (D::at(a.inf, i) != D::at(a.sup, i)) pt = false; c.chk(a.isNull() == pt, "isNull");
	A y = a; int q = c.in("corner", c.r.n(2 * D::N)); R& w = q < D::N ? D::at(y.inf, q) : D::at(y.sup, q - D::N); c.chk(y == a && !(y != a), "equality"); w = std::nextafter(w, R(1e30)); c.chk(y != a && !(y == a), "inequality in one coordinate");
	A z; z.set(a.inf, a.sup); c.chk(sameBox<D>(z, a), "set(inf, sup)"); c.chk(sameBox<D>(A::from(a.inf, a.sup), a), "from(inf, sup)"); c.chk(sameBox<D>(A(a.inf, a.sup), a), "constructor");
	typename D::C cb; cb.center = t; cb.extents = map<D>([&](int i) { return std::fabs(D::at(ex, i)); }); A fc = A::from(cb), fs; fs.set(cb); nb(fc, [&](int i) { return T(i) - X(D::at(cb.extents, i)); }, [&](int i) { return T(i) + X(D::at(cb.extents, i)); }, "from(centered box)"); c.chk(sameBox<D>(fs, fc), "set(centered box)");
	auto cd = a.template cast<double>(); auto cf = a.template cast<float>(); for (int i = 0; i < D::N; i++) { typedef typename D::template To<double>::type DD; typedef typename D::template To<float>::type DF; c.same(DD::at(cd.inf, i), double(D::at(a.inf, i)), "cast"); c.same(DD::at(cd.sup, i), double(D::at(a.sup, i)), "cast"); c.same(DF::at(cf.inf, i), float(D::at(a.inf, i)), "cast"); c.same(DF::at(cf.sup, i), float(D::at(a.sup, i)), "cast"); }
	c.chk(sameBox<D>(A::Zero, A(D::all(0), D::all(0))) && sameBox<D>(A::One, A(D::all(R(-0.5)), D::all(R(0.5)))), "named boxes");
}
template <class R> void ball3(Case& c) {     // AABB3 contains sphere
	typedef D3<R> D; AABB3<R> a = gBox<D>(c, "a"); Sphere<R> s(c.in("center", gNearBox<D>(c.r, a)), c.in("radius", c.r.p(0.2) ? R(0) : c.r.p(0.3) ? R(0) : gPos<R>(c.r) * R(0.2)));
	if (c.r.p(0.4)) s.center = a.center(); if (c.r.p(0.3)) { R m = a.extents().x; for (int i = 1; i < 3; i++) m = std::min(m, D::at(a.extents(), i)); s.radius = m * R(c.r.uni(0.9, 1.1)); } c.in("center'", s.center); c.in("radius'", s.radius);
	bool in = true, out = false; for (int i = 0; i < 3; i++) { L m = 4 * E<R>::u() * (fabsl((L)D::at(s.center, i)) + s.radius), l = (L)D::at(s.center, i) - s.radius - D::at(a.inf, i), h = (L)D::at(a.sup, i) - D::at(s.center, i) - s.radius; if (l < m || h < m) in = false; if (l < -m || h < -m) out = true; if (s.radius == 0) { if (l < 0 || h < 0) out = true; } }
	if (s.radius == 0 && !out) in = true;
	c.cls(in ? "sphere inside" : out ? "sphere not inside" : "too close to call"); if (in) c.chk(a.contains(s), "box contains sphere"); if (out) c.chk(!a.contains(s), "box does not contain sphere");
	c.chk(CAABB3<R>::from(a).intersects(CAABB3<R>::from(a)), "centered box intersects itself");
}
// boxes and the same boxes in another unit of length
template <class D> void scaled(Case& c) {
	typedef typename D::Real R; typedef typename D::V V; typedef typename D::A A; auto pt = [&]() { return map<D>([&](int) { return gSim<R>(c.r); }); };
	V a = c.in("a", pt()), b = c.in("b", pt()), d = c.in("c", pt()), e = c.in("d", pt()), p = c.in("p", c.r.p(0.3) ? a : pt()); R k = c.in("k", gSim<R>(c.r));
	bool ip = c.r.p(0.5); c.in("in place", ip);
	similar<R>(c, "boxes in another unit of length", D::N, [&](Sc<R>& o) {
		V pts[4] = {o.len(a), o.len(b), o.len(d), o.len(e)}; V q = o.len(p); A x = made<A>(ip, 2, pts), y = made<A>(ip, 2, pts + 2); auto box = [&](const A& z) { o.v(z.inf, 1); o.v(z.sup, 1); };
		box(x); box(y); box(made<A>(ip, 4, pts)); box(A::fromUnion(x, y)); A n = A::fromIntersection(x, y); o.b(x.isNull()); if (!o.b(n.isNull())) box(n); o.b(x.intersects(y)); o.b(x.contains(y)); o.b(x.contains(q)); o.b(x == y); o.v(x.center(), 1); o.v(x.extents(), 1); o.v(x.size(), 1); o.v(D::measure(x), D::N); box(x + q); box(x - q); box(x * k); if (k != 0) box(x / k); A g = x; g.add(q); box(g);
		auto ball = [&](const typename D::B& s) { o.v(s.center, 1); o.v(s.radius, 1); }; ball(D::inner(x)); ball(D::outer(x)); });
}
// boxes at every scale at which their corners exist
template <class D> void linear(Case& c) {
	typedef typename D::Real R; typedef typename D::V V; typedef typename D::A A; auto pt = [&]() { return map<D>([&](int) { return gSim<R>(c.r); }); };
	V a = c.in("a", pt()), b = c.in("b", c.r.p(0.1) ? a : pt()), d = c.in("c", c.r.p(0.1) ? a : pt()), e = c.in("d", c.r.p(0.1) ? b : pt()), p = c.in("p", c.r.p(0.3) ? a : pt()); R k = c.in("k", gSim<R>(c.r)); bool ip = c.r.p(0.5), in = false, meet = false;
	similar<R>(c, "boxes at any scale", 1, [&](Sc<R>& o) {
		V pts[4] = {o.len(a), o.len(b), o.len(d), o.len(e)}; V q = o.len(p); A x = made<A>(ip, 2, pts), y = made<A>(ip, 2, pts + 2), g; auto box = [&](const A& z) { o.v(z.inf, 1); o.v(z.sup, 1); };
		box(x); box(y); box(made<A>(ip, 4, pts)); box(A::fromUnion(x, y)); A n = A::fromIntersection(x, y); o.b(x.isNull()); if (!o.b(n.isNull())) box(n); if (o.b(x.intersects(y))) meet = true; o.b(x.contains(y)); if (o.b(x.contains(q))) in = true; o.b(x == y); o.b(x != y); o.v(x.center(), 1); o.v(x.extents(), 1); o.v(x.size(), 1);
		box(x + q); box(x - q); box(x * k); if (k != 0) box(x / k); g = x; g += q; box(g); g = x; g -= q; box(g); g = x; g *= k; box(g); g = x; g.add(q); box(g); g = x; g.scaleCentered(k); box(g); box(made<A>(ip, q)); box(made<A>(ip, x.inf, x.sup)); });
	c.cls("inside", in); c.cls("boxes meet", meet);
}
// boxes changed by their own corners
template <class R, template <class> class T, class V> void ownBox(Case& c, V p, V q) {
	typedef T<R> A; const int n = sizeof(V) / sizeof(R); A b; b.set(p); b.add(q); int i = c.in("corner", c.r.n(2)), k = c.in("component", c.r.n(2 * n)); auto at = [=](const A& y) -> const V& { return (i ? y.sup : y.inf); }; auto num = [=](const A& y) -> const R& { return k < n ? y.inf.data()[k] : y.sup.data()[k - n]; };
	own<R>(c, "box set to own corner", b, [&](A& x, const A& y) { x.set(at(y)); }); own<R>(c, "box set from its parts", b, [&](A& x, const A& y) { x.set(y.inf, y.sup); });
	own<R>(c, "box += own corner", b, [&](A& x, const A& y) { x += at(y); }); own<R>(c, "box -= own corner", b, [&](A& x, const A& y) { x -= at(y); }); own<R>(c, "box add own corner", b, [&](A& x, const A& y) { x.add(at(y)); });
	own<R>(c, "box *= own number", b, [&](A& x, const A& y) { x *= num(y); }); if (num(b) != 0) own<R>(c, "box /= own number", b, [&](A& x, const A& y) { x /= num(y); });
	own<R>(c, "box scaled about its middle by own number", b, [&](A& x, const A& y) { x.scaleCentered(num(y)); });
}
template <class R> void owns(Case& c) { if (c.r.p(0.5)) { Vec2<R> p = c.in("p", gOwn2<R>(c.r)), q = c.in("q", gOwn2<R>(c.r)); ownBox<R, AABB2>(c, p, q); } else { Vec3<R> p = c.in("p", gOwn3<R>(c.r)), q = c.in("q", gOwn3<R>(c.r)); ownBox<R, AABB3>(c, p, q); } }
void vf::registerAll() {
	VF_DIMS(build, "build", 40000, "one point", "many points", "very many points", "padded stride", "added point already inside", "added point outside");
	VF_DIMS(sets, "sets", 40000, "boxes meet", "boxes only touch", "boxes apart", "one inside the other", "point inside", "point outside");
	VF_DIMS(ops, "ops", 40000, "box", "flat box");
	VF_BOTH(ball3, "sphere in box", 40000, "sphere inside", "sphere not inside");
	VF_DIMS(scaled, "another unit", 40000); VF_DIMS(linear, "any scale", 40000, "inside", "boxes meet");
	VF_BOTH(owns, "own parts", 12000, "box /= own number");
}
VF_MAIN()
