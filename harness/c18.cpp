// C18: centered boxes describe the same sets as axis-aligned boxes
#include "geo.h"
#include "alias.h"
#include "scale.h"
using namespace vf;
template <class D> struct Ref { E<typename D::Real> lo[3], hi[3], ce[3], ex[3]; };
template <class D> Ref<D> ref(const typename D::A& a) { typedef E<typename D::Real> X; Ref<D> r; X h = X::lit(0.5L); for (int i = 0; i < D::N; i++) { X l(D::at(a.inf, i)), u(D::at(a.sup, i)); r.lo[i] = l; r.hi[i] = u; r.ce[i] = (l + u) * h; r.ex[i] = (u - l) * h; } return r; }
template <class D> void chkBox(Case& c, const typename D::C& g, const Ref<D>& e, const char* s) {
	L m = 0; for (int i = 0; i < D::N; i++) m = std::max<L>(m, 8 * E<typename D::Real>::u() * (fabsl(e.lo[i].v) + fabsl(e.hi[i].v)));
	for (int i = 0; i < D::N; i++) { c.nearAbs(D::at(g.center, i), e.ce[i].v, m, s); c.nearAbs(D::at(g.extents, i), e.ex[i].v, m, s); }
}
template <class D> typename D::C gCBox(Case& c, const char* n, typename D::A* src = nullptr) { typename D::A a = gBox<D>(c, n); if (src) *src = a; typename D::C x; x.set(a); return x; }
template <class D> void build(Case& c) {
	typedef typename D::V V; typedef typename D::A A; typedef typename D::C C; typedef typename D::Real R; L u = E<R>::u();
	int n = c.in("n", c.r.p(0.2) ? 1 : c.r.count(2, 12)), pad = c.in("pad", c.r.n(4)); std::vector<V> p = gPoints<D>(c, n); c.cls("one point", n == 1); c.cls("many points", n > 1); c.cls("padded stride", pad > 0);
	A e; e.inf = map<D>([&](int i) { R m = D::at(p[0], i); for (auto& q : p) m = std::min(m, D::at(q, i)); return m; }); e.sup = map<D>([&](int i) { R m = D::at(p[0], i); for (auto& q : p) m = std::max(m, D::at(q, i)); return m; });
	Ref<D> r = ref<D>(e); Strided<D> s(c.r, p, pad); C a, b; chkBox<D>(c, a.set(n, p.data()), r, "centered set(points) is the tightest box"); chkBox<D>(c, b.set(n, s.data(), s.stride), r, "centered set(points, stride) is the tightest box"); chkBox<D>(c, C::from(n, p.data()), r, "centered from(points) is the tightest box"); chkBox<D>(c, C::from(n, s.data(), s.stride), r, "centered from(points, stride) is the tightest box");
	C g; g.set(p[0]); c.chk(C::from(p[0]) == g, "centered from(point)"); c.chk(g.center == p[0] && g.extents == D::all(0), "centered set(point)"); c.chk(g.isNull(), "centered box of one point is null");
	L sc = 0; for (auto& q : p) for (int i = 0; i < D::N; i++) sc = std::max(sc, fabsl((L)D::at(q, i)));
	for (int i = 1; i < n; i++) {
		C before = g; V bl = before.inf(), bh = before.sup(); bool in = true; for (int k = 0; k < D::N; k++) if (!(D::at(p[i], k) >= D::at(bl, k) && D::at(p[i], k) <= D::at(bh, k))) in = false;
		g.add(p[i]); c.cls(in ? "added point already inside" : "added point outside"); 
		for (int k = 0; k < D::N; k++) { L l = std::min(D::at(bl, k), D::at(p[i], k)), h = std::max(D::at(bh, k), D::at(p[i], k)); c.nearAbs(R(D::at(g.center, k) - D::at(g.extents, k)), l, 8 * u * sc, "centered add grows just enough"); c.nearAbs(R(D::at(g.center, k) + D::at(g.extents, k)), h, 8 * u * sc, "centered add grows just enough"); }
	}
	for (int k = 0; k < D::N; k++) { c.nearAbs(D::at(g.inf(), k), r.lo[k].v, 8 * n * u * sc, "centered box grown point by point"); c.nearAbs(D::at(g.sup(), k), r.hi[k].v, 8 * n * u * sc, "centered box grown point by point"); }
}
template <class D> void queries(Case& c) {
	typedef typename D::V V; typedef typename D::A A; typedef typename D::C C; typedef typename D::Real R; L u = E<R>::u();
	A a0, b0; C a = gCBox<D>(c, "a", &a0), b = gCBox<D>(c, "b", &b0); if (c.r.p(0.15)) { b = a; b.extents = a.extents * R(c.r.uni(0.5, 1.5)); c.in("b.extents'", b.extents); }
	// exact dyadic boxes, whose faces are representable, so that touching is exact
	bool dy = c.r.p(0.3); if (dy) { for (C* x : {&a, &b}) { x->center = map<D>([&](int) { return R(c.r.in(-8, 8)) * R(0.5); }); x->extents = map<D>([&](int) { return R(c.r.n(6)) * R(0.5); }); c.in("center'", x->center); c.in("extents'", x->extents); } c.cls("dyadic boxes"); }
	L e = 0; if (!dy) for (int i = 0; i < D::N; i++) e = std::max<L>(e, 4 * u * (fabsl((L)D::at(a.center, i)) + D::at(a.extents, i) + fabsl((L)D::at(b.center, i)) + D::at(b.extents, i)));
	auto lo = [](const C& x, int i) { return (L)D::at(x.center, i) - D::at(x.extents, i); }; auto hi = [](const C& x, int i) { return (L)D::at(x.center, i) + D::at(x.extents, i); };
	L gap = -1e300L, sub = 1e300L; for (int i = 0; i < D::N; i++) { gap = std::max(gap, std::max(lo(a, i) - hi(b, i), lo(b, i) - hi(a, i))); sub = std::min(sub, std::min(lo(b, i) - lo(a, i), hi(a, i) - hi(b, i))); }
	if (dy) e = 64 * u; auto decide = [&](L margin, bool got, const char* yes, const char* no, const char* site) { if (margin > e || (dy && margin == 0)) { c.cls(yes); c.chk(got, site); } else if (margin < -e) { c.cls(no); c.chk(!got, site); } };
	decide(-gap, a.intersects(b), "boxes meet", "boxes apart", "centered box intersects box"); decide(-gap, b.intersects(a), "boxes meet", "boxes apart", "centered box intersects box"); decide(sub, a.contains(b), "one inside the other", "not inside", "centered box contains box"); c.cls("boxes only touch", dy && gap == 0);
	c.chk(a.contains(a), "centered box contains itself");
	A ab = A::from(a), bb = A::from(b); decide(-gap, ab.intersects(bb), "boxes meet", "boxes apart", "plain box made from a centered one intersects"); decide(sub, ab.contains(bb), "one inside the other", "not inside", "plain box made from a centered one contains");
	for (int k = 0; k < 4; k++) { V p = c.in("q", gNearBox<D>(c.r, c.r.p(0.7) ? ab : bb)); L m = 1e300L; for (int i = 0; i < D::N; i++) m = std::min(m, std::min(D::at(p, i) - lo(a, i), hi(a, i) - D::at(p, i))); decide(m, a.contains(p), "point inside", "point outside", "centered box contains point"); decide(m, ab.contains(p), "point inside", "point outside", "plain box made from a centered one contains point"); }
}
template <class D> void ops(Case& c) {
	typedef typename D::V V; typedef typename D::A A; typedef typename D::C C; typedef typename D::Real R; typedef E<R> X;
	C a; a.center = c.in("center", D::vec(c.r)); a.extents = map<D>([&](int) { return c.r.p(0.1) ? R(0) : gPos<R>(c.r); }); c.in("extents", a.extents); V t = c.in("t", D::vec(c.r)), sz = a.extents * R(2); R k = c.in("k", gPos<R>(c.r)); c.cls("box");
	C b(a.center, sz), s; s.set(a.center, sz); c.chk(b == a && s == a && C::from(a.center, sz) == a, "centered box from center and size");
	auto Ce = [&](int i) { return X(D::at(a.center, i)); }; auto Ex = [&](int i) { return X(D::at(a.extents, i)); }; auto T = [&](int i) { return X(D::at(t, i)); }; X K(k);
	auto nb = [&](const C& g, std::function<X(int)> ce, std::function<X(int)> ex, const char* st) { for (int i = 0; i < D::N; i++) { c.near(D::at(g.center, i), ce(i), st, 3); c.near(D::at(g.extents, i), ex(i), st, 3); } };
	nb(a + t, [&](int i) { return Ce(i) + T(i); }, Ex, "centered box + vector"); nb(a - t, [&](int i) { return Ce(i) - T(i); }, Ex, "centered box - vector"); nb(a * k, Ce, [&](int i) { return Ex(i) * K; }, "centered box * k"); nb(a / k, Ce, [&](int i) { return Ex(i) / K; }, "centered box / k");
	C x = a; x += t; c.chk(alike<R>(x, a + t), "centered box += vector"); x = a; x -= t; c.chk(alike<R>(x, a - t), "centered box -= vector"); x = a; x *= k; c.chk(alike<R>(x, a * k), "centered box *= k"); x = a; x /= k; nb(x, Ce, [&](int i) { return Ex(i) / K; }, "centered box /= k"); x = a; x -= x.center; c.chk(x.center == D::all(0) && x.extents == a.extents, "centered box -= its center");
	V lo = a.inf(), hi = a.sup(), z = a.size(), at = a.pointAt(t); X vol(R(1)), out, mn; for (int i = 0; i < D::N; i++) { c.near(D::at(lo, i), Ce(i) - Ex(i), "inf", 3); c.near(D::at(hi, i), Ce(i) + Ex(i), "sup", 3); c.near(D::at(z, i), Ex(i) + Ex(i), "centered size", 3); c.near(D::at(at, i), Ce(i) + Ex(i) * T(i), "centered pointAt"); vol = vol * (Ex(i) + Ex(i)); out = out + Ex(i) * Ex(i); if (!i || Ex(i).v < mn.v) mn = Ex(i); }
	c.near(D::measure(a), vol, "centered area / volume"); auto bi = D::inner(a), bo = D::outer(a); c.same(bi.radius, R(mn.v), "centered inner ball radius"); c.near(bo.radius, esqrt(out), "centered outer ball radius"); c.chk(bi.center == a.center && bo.center == a.center, "centered ball center");
	bool pt = true; for (int i = 0; i < D::N; i++) if (D::at(a.extents, i) != 0) pt = false; c.chk(a.isNull() == pt, "centered isNull");
	C y = a; int q = c.in("coord", c.r.n(2 * D::N)); R& w = q < D::N ? D::at(y.center, q) : D::at(y.extents, q - D::N); c.chk(y == a && !(y != a), "centered equality"); w = std::nextafter(w, R(1e30)); c.chk(y != a && !(y == a), "centered inequality in one coordinate");
	auto cd = a.template cast<double>(); auto cf = a.template cast<float>(); typedef typename D::template To<double>::type DD; typedef typename D::template To<float>::type DF; for (int i = 0; i < D::N; i++) { c.same(DD::at(cd.center, i), double(D::at(a.center, i)), "centered cast"); c.same(DD::at(cd.extents, i), double(D::at(a.extents, i)), "centered cast"); c.same(DF::at(cf.center, i), float(D::at(a.center, i)), "centered cast"); c.same(DF::at(cf.extents, i), float(D::at(a.extents, i)), "centered cast"); }
	c.chk(C::One.center == D::all(0) && C::One.extents == D::all(R(0.5)), "CAABB One");
	A p = gBox<D>(c, "p"); C fp; chkBox<D>(c, fp.set(p), ref<D>(p), "centered box from plain box"); A back = A::from(fp); for (int i = 0; i < D::N; i++) { L tol = 8 * E<R>::u() * (fabsl((L)D::at(p.inf, i)) + fabsl((L)D::at(p.sup, i))); c.nearAbs(D::at(back.inf, i), D::at(p.inf, i), tol, "plain to centered and back"); c.nearAbs(D::at(back.sup, i), D::at(p.sup, i), tol, "plain to centered and back"); }
}
template <class R> void froms(Case& c) {
	typedef D3<R> D; AABB3<R> p = gBox<D>(c, "p"); CAABB3<R> g = CAABB3<R>::from(p), h; h.set(p); chkBox<D>(c, g, ref<D>(p), "CAABB3 from(box)"); chkBox<D>(c, h, ref<D>(p), "CAABB3 set(box)"); c.cls("from");
	typedef D2<R> F; AABB2<R> q = gBox<F>(c, "q"); CAABB2<R> f = CAABB2<R>::fromInfSup(q.inf, q.sup), k; k.set(q); chkBox<F>(c, f, ref<F>(q), "CAABB2 fromInfSup"); chkBox<F>(c, k, ref<F>(q), "CAABB2 set(box)");
	Sphere<R> s(c.in("center", gNearBox<D>(c.r, p)), c.in("radius", c.r.p(0.4) ? R(0) : gPos<R>(c.r) * R(0.2))); if (c.r.p(0.4)) { s.center = g.center; R m = std::min(g.extents.x, std::min(g.extents.y, g.extents.z)); s.radius = m * R(c.r.uni(0.9, 1.1)); c.in("center'", s.center); c.in("radius'", s.radius); }
	bool in = true, out = false; for (int i = 0; i < 3; i++) { L ce = D::at(g.center, i), ex = D::at(g.extents, i), m = 4 * E<R>::u() * (fabsl((L)D::at(s.center, i)) + s.radius + fabsl(ce) + ex), l = (L)D::at(s.center, i) - s.radius - (ce - ex), h2 = ce + ex - D::at(s.center, i) - s.radius; if (l < m || h2 < m) in = false; if (l < -m || h2 < -m) out = true; }
	if (in) { c.cls("sphere inside"); c.chk(g.contains(s), "centered box contains sphere"); } if (out) { c.cls("sphere not inside"); c.chk(!g.contains(s), "centered box does not contain sphere"); }
}
// centered boxes and the same boxes in another unit of length
template <class D> void scaled(Case& c) {
	typedef typename D::Real R; typedef typename D::V V; typedef typename D::C C; auto pt = [&]() { return map<D>([&](int) { return gSim<R>(c.r); }); };
	V a = c.in("a", pt()), b = c.in("b", pt()), d = c.in("c", pt()), e = c.in("d", pt()), p = c.in("p", c.r.p(0.3) ? a : pt()); R k = c.in("k", gSim<R>(c.r));
	bool ip = c.r.p(0.5); c.in("in place", ip);
	similar<R>(c, "centered boxes in another unit of length", D::N, [&](Sc<R>& o) {
		V pts[4] = {o.len(a), o.len(b), o.len(d), o.len(e)}; V q = o.len(p); C x = made<C>(ip, 2, pts), y = made<C>(ip, 2, pts + 2); auto box = [&](const C& z) { o.v(z.center, 1); o.v(z.extents, 1); };
		box(x); box(y); box(made<C>(ip, 4, pts)); o.b(x.isNull()); o.b(x.intersects(y)); o.b(x.contains(y)); o.b(x.contains(q)); o.b(x == y); o.v(x.inf(), 1); o.v(x.sup(), 1); o.v(x.size(), 1); o.v(D::measure(x), D::N); box(x + q); box(x - q); box(x * k); if (k != 0) box(x / k); C g = x; g.add(q); box(g);
		auto ball = [&](const typename D::B& s) { o.v(s.center, 1); o.v(s.radius, 1); }; ball(D::inner(x)); ball(D::outer(x)); });
}
// boxes at every scale at which their corners exist
template <class D> void linear(Case& c) {
	typedef typename D::Real R; typedef typename D::V V; typedef typename D::C A; auto pt = [&]() { return map<D>([&](int) { return gSim<R>(c.r); }); };
	V a = c.in("a", pt()), b = c.in("b", c.r.p(0.1) ? a : pt()), d = c.in("c", c.r.p(0.1) ? a : pt()), e = c.in("d", c.r.p(0.1) ? b : pt()), p = c.in("p", c.r.p(0.3) ? a : pt()); R k = c.in("k", gSim<R>(c.r)); bool ip = c.r.p(0.5), in = false, meet = false;
	similar<R>(c, "centered boxes at any scale", 1, [&](Sc<R>& o) {
		V pts[4] = {o.len(a), o.len(b), o.len(d), o.len(e)}; V q = o.len(p); A x = made<A>(ip, 2, pts), y = made<A>(ip, 2, pts + 2), g; auto box = [&](const A& z) { o.v(z.center, 1); o.v(z.extents, 1); };
		box(x); box(y); box(made<A>(ip, 4, pts)); o.b(x.isNull()); if (o.b(x.intersects(y))) meet = true; o.b(x.contains(y)); if (o.b(x.contains(q))) in = true; o.b(x == y); o.b(x != y); o.v(x.inf(), 1); o.v(x.sup(), 1); o.v(x.size(), 1);
		box(x + q); box(x - q); box(x * k); if (k != 0) box(x / k); g = x; g += q; box(g); g = x; g -= q; box(g); g = x; g *= k; box(g); g = x; g.add(q); box(g); box(made<A>(ip, q)); });
	c.cls("inside", in); c.cls("boxes meet", meet);
}
// boxes changed by their own centres
template <class R, template <class> class T, class V> void ownBox(Case& c, V p, V q) {
	typedef T<R> A; const int n = sizeof(V) / sizeof(R); A b; b.set(p); b.add(q); int i = c.in("corner", c.r.n(2)), k = c.in("component", c.r.n(2 * n)); auto at = [=](const A& y) -> const V& { return y.center; }; auto num = [=](const A& y) -> const R& { return k < n ? y.center.data()[k] : y.extents.data()[k - n]; };
	own<R>(c, "box set to own centre", b, [&](A& x, const A& y) { x.set(at(y)); }); own<R>(c, "box set from its parts", b, [&](A& x, const A& y) { x.set(y.center, y.extents); });
	own<R>(c, "box += own centre", b, [&](A& x, const A& y) { x += at(y); }); own<R>(c, "box -= own centre", b, [&](A& x, const A& y) { x -= at(y); }); own<R>(c, "box add own centre", b, [&](A& x, const A& y) { x.add(at(y)); });
	own<R>(c, "box *= own number", b, [&](A& x, const A& y) { x *= num(y); }); if (num(b) != 0) own<R>(c, "box /= own number", b, [&](A& x, const A& y) { x /= num(y); });
}
template <class R> void owns(Case& c) { if (c.r.p(0.5)) { Vec2<R> p = c.in("p", gOwn2<R>(c.r)), q = c.in("q", gOwn2<R>(c.r)); ownBox<R, CAABB2>(c, p, q); } else { Vec3<R> p = c.in("p", gOwn3<R>(c.r)), q = c.in("q", gOwn3<R>(c.r)); ownBox<R, CAABB3>(c, p, q); } }
void vf::registerAll() {
	VF_DIMS(build, "build", 40000, "one point", "many points", "very many points", "padded stride", "added point already inside", "added point outside");
	VF_DIMS(queries, "queries", 40000, "boxes meet", "boxes apart", "boxes only touch", "one inside the other", "not inside", "point inside", "point outside");
	VF_DIMS(ops, "ops", 40000, "box"); VF_BOTH(froms, "froms", 40000, "from", "sphere inside", "sphere not inside");
	VF_DIMS(scaled, "another unit", 40000); VF_DIMS(linear, "any scale", 40000, "inside", "boxes meet");
	VF_BOTH(owns, "own parts", 12000, "box /= own number");
}
VF_MAIN()
