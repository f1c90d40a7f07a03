// C09: quaternion algebra and conversions
#include "quats.h"
#include "scale.h"
#include "alias.h"
using namespace vf;
using namespace mathlib;

template <class R> Quat<R> gAny(Rng& r) { Quat<R> q(gReal<R>(r), gReal<R>(r), gReal<R>(r), gReal<R>(r), false); return q; }

template <class R> void algebra(Case& c) {
	bool un = c.r.p(0.6);
	Quat<R> a = in(c, "a", un ? gQuat<R>(c.r) : gAny<R>(c.r)), b = in(c, "b", un ? gQuat<R>(c.r) : gAny<R>(c.r));
	c.cls(un ? "unit" : "not unit");
	L u = E<R>::u(), la = len(lq(a)), lb = len(lq(b)), t = 16 * u * la * lb + 1e-40L;
	qnear(c, lq(a * b), lq(a) * lq(b), t, "Quat * Quat");
	qnear(c, lq(-a), lq(a) * -1, 0, "Quat unary minus");
	qnear(c, lq(a.inverse()), conj(lq(a)), 0, "Quat inverse conjugates");
	if (lb > 1e-3L) {
		LQ bi = conj(lq(b)) * (1 / (lb * lb));
		qnear(c, lq(a / b), lq(a) * bi, 32 * u * la / lb + 1e-40L, "Quat / Quat");
		qnear(c, lq((a / b) * b), lq(a), 64 * u * la + 1e-40L, "(a / b) * b = a");
	}
	c.chk(a == a && !(a != a), "Quat == itself"); Quat<R> d = a; int k = c.r.n(4); (k == 0 ? d.x : k == 1 ? d.y : k == 2 ? d.z : d.w) += R(1);
	c.chk(a != d && !(a == d), "Quat != when a component differs");
	Quat<R> e; e = a; c.chk(e == a, "Quat assignment"); Quat<R> f; c.chk(&f.set(a) == &f && f == a, "Quat set(Quat)"); c.chk(Quat<R>::from(a) == a, "Quat from(Quat)");
	c.chk(a.data()[0] == a.x && a.data()[1] == a.y && a.data()[2] == a.z && a.data()[3] == a.w, "Quat data order"); 
	Vec3<R> v = c.in("v", gVec3<R>(c.r));
	Vec3<R> p = a * v; LQ w = lq(a) * LQ{v.x, v.y, v.z, 0}; L lv = sqrtl((L)v.x * v.x + (L)v.y * v.y + (L)v.z * v.z), tv = 16 * u * la * lv + 1e-40L;
	c.chk(fabsl(p.x - w.x) <= tv && fabsl(p.y - w.y) <= tv && fabsl(p.z - w.z) <= tv, "Quat * Vec3 is the vector part of the product");
	Quat<double> cd = a.template cast<double>(); Quat<float> cf = a.template cast<float>();
	c.chk(cd.x == double(a.x) && cd.y == double(a.y) && cd.z == double(a.z) && cd.w == double(a.w) && cf.x == float(a.x) && cf.y == float(a.y) && cf.z == float(a.z) && cf.w == float(a.w), "Quat cast");
	Quat<R> n = a; c.chk(&n.normalize() == &n, "Quat normalize returns itself");
	if (la > 0) qnear(c, lq(n), unit(lq(a)), 16 * u, "Quat normalize"); else { c.cls("null"); qnear(c, lq(n), LQ{0, 0, 0, 1}, 0, "Quat normalize of null is the identity"); }
	Quat<R> ctor(a.x, a.y, a.z, a.w); qnear(c, lq(ctor), lq(n), 0, "Quat constructor normalizes");
	Quat<R> raw(a.x, a.y, a.z, a.w, false); qnear(c, lq(raw), lq(a), 0, "Quat constructor without normalizing");
	n.setIdentity(); qnear(c, lq(n), LQ{0, 0, 0, 1}, 0, "Quat setIdentity"); qnear(c, lq(Quat<R>::One), LQ{0, 0, 0, 1}, 0, "Quat One");
}
template <class R> void rotate(Case& c) {
	Quat<R> a = in(c, "a", gQuat<R>(c.r)), b = in(c, "b", gQuat<R>(c.r)); Vec3<R> v = c.in("v", gVec3<R>(c.r));
	L u = E<R>::u(), lv = sqrtl((L)v.x * v.x + (L)v.y * v.y + (L)v.z * v.z), t = 64 * u * lv + 1e-36L;
	auto nr = [&](const Vec3<R>& g, const LV& w, L tol, const char* site) { c.chk(fabsl(g.x - w.x) <= tol && fabsl(g.y - w.y) <= tol && fabsl(g.z - w.z) <= tol, site, "got (%g %g %g) expected (%Lg %Lg %Lg)", double(g.x), double(g.y), double(g.z), w.x, w.y, w.z); };
	LQ A = lq(a), B = lq(b);
	nr(a.rotated(v), rot(A, v.x, v.y, v.z), t, "Quat rotated(Vec3)");
	nr((-a).rotated(v), rot(A, v.x, v.y, v.z), t, "q and -q rotate alike");
	nr((a * b).rotated(v), rot(A * B, v.x, v.y, v.z), 2 * t, "(a*b) rotates by b, then a");
	nr(a.rotated(b.rotated(v)), rot(A * B, v.x, v.y, v.z), 2 * t, "rotating by b, then a is a*b");
	nr(a.inverse().rotated(a.rotated(v)), LV{v.x, v.y, v.z}, 2 * t, "the inverse rotates back");
	for (int k = 0; k < 3; k++) nr(a.rotated(Coord(k)), rot(A, k == 0, k == 1, k == 2), 32 * u, "Quat rotated(Coord)");
	c.chk(fabsl(len(lq(a * b)) - 1) <= 32 * u, "the product of unit quaternions is unit");
}
template <class R> void axisAngle(Case& c) {
	Quat<R> q;
	bool tiny = c.r.p(0.2);
	if (tiny) { Vec3<R> x = gUnit3<R>(c.r); L h = c.r.logu(1e-7, 1e-1); if (c.r.p(0.3)) h = PIL - h; q = Quat<R>(R(x.x * sinl(h)), R(x.y * sinl(h)), R(x.z * sinl(h)), R(cosl(h)), false); c.cls("near zero or full turn"); }
	else q = gQuat<R>(c.r);
	if (c.r.p(0.02)) q = Quat<R>(R(0), R(0), R(0), R(c.r.sgn()), false);
	if (c.r.p(0.1)) q = -q;
	in(c, "q", q);
	Vec3<R> ax; R an; q.toAxisAngle(ax, an);
	L u = E<R>::u(), s = vlen(lq(q));
	L al = sqrtl((L)ax.x * ax.x + (L)ax.y * ax.y + (L)ax.z * ax.z);
	c.chk(fabsl(al - 1) <= 8 * u, "toAxisAngle gives a unit axis", "length %Lg", al);
	c.chk(an >= 0 && an <= R(2 * PIL) * (1 + 8 * u), "toAxisAngle gives an angle in 0..2pi", "%g", double(an));
	LQ back = LQ{ax.x * sinl(an / 2), ax.y * sinl(an / 2), ax.z * sinl(an / 2), cosl(an / 2)};
	if (s <= 1.001e-3L) {
		c.cls("no turn");
		c.chk(an == 0 || between(back, lq(q)) < 1e-3L, "toAxisAngle of (almost) no turn", "angle %g", double(an));
		if (s < 0.999e-3L) c.chk(an == 0, "toAxisAngle of (almost) no turn is angle 0", "angle %g", double(an));
	} else qnear(c, back, lq(q), 16 * u / s, "toAxisAngle describes the same rotation");
	Quat<R> r; r.set(ax, an); if (s > 1.001e-3L) qnear(c, lq(r), lq(q), 24 * u / s, "set(toAxisAngle) is the same quaternion");
	Vec3<R> z(R(0), R(0), R(0)); r.set(z, c.in("ang", gAngle<R>(c.r))); qnear(c, lq(r), LQ{0, 0, 0, 1}, 0, "Quat set(null axis) is the identity");
}
template <class R> void fromTo(Case& c) {
	Vec3<R> f = gAxis<R>(c.r), t = gAxis<R>(c.r);
	int k = c.r.n(6);
	if (k == 0) { R s = R(c.r.sgn() * c.r.uni(0.3, 3)); t = f * s; }
	if (k == 1) { R s = R(c.r.sgn()), e = R(c.r.logu(1e-6, 0.3)); Vec3<R> g = gUnit3<R>(c.r); L fl = sqrtl((L)f.x * f.x + (L)f.y * f.y + (L)f.z * f.z); t = f * s + g * R(e * fl); }
	c.in("from", f); c.in("to", t);
	Quat<R> q; c.chk(&q.set(f, t) == &q, "Quat set(from,to) returns itself"); c.chk(alike<R>(Quat<R>::from(f, t), q), "Quat from(from,to) is set(from,to)");
	L u = E<R>::u(), lf = sqrtl((L)f.x * f.x + (L)f.y * f.y + (L)f.z * f.z), lt = sqrtl((L)t.x * t.x + (L)t.y * t.y + (L)t.z * t.z);
	c.chk(fabsl(len(lq(q)) - 1) <= 64 * u, "Quat set(from,to) is unit", "%Lg", len(lq(q)));
	L F[3] = {f.x / lf, f.y / lf, f.z / lf}, T[3] = {t.x / lt, t.y / lt, t.z / lt};
	L cx = F[1] * T[2] - F[2] * T[1], cy = F[2] * T[0] - F[0] * T[2], cz = F[0] * T[1] - F[1] * T[0], sn = sqrtl(cx * cx + cy * cy + cz * cz), cs = F[0] * T[0] + F[1] * T[1] + F[2] * T[2];
	LV r = rot(unit(lq(q)), F[0], F[1], F[2]);
	L d = sqrtl((r.x - T[0]) * (r.x - T[0]) + (r.y - T[1]) * (r.y - T[1]) + (r.z - T[2]) * (r.z - T[2]));
	bool edge = fabsl(cs) > 0.99998L;
	c.cls(edge ? (cs > 0 ? "parallel" : "opposite") : cs > 0 ? "acute" : "obtuse");
	c.chk(d <= (edge ? 6.4e-3L : 64 * u / sn), "Quat set(from,to) turns from onto to", "misses by %Lg", d);
	L an = 2 * atan2l(vlen(lq(q)), fabsl(q.w)), want = atan2l(sn, cs);
	c.chk(fabsl(an - want) <= (edge ? 6.4e-3L : 128 * u / sn), "Quat set(from,to) takes the shortest turn", "turn %Lg, shortest %Lg", an, want);
	c.chk(q.w >= 0, "Quat set(from,to) w is not negative");
}
template <class R> void logExp(Case& c) {
	Quat<R> q = in(c, "q", gQuat<R>(c.r)); L u = E<R>::u(), s = vlen(lq(q));
	Quat<R> l = Quat<R>::log(q);
	c.chk(l.w == 0, "Quat log has no real part");
	L sp = sqrtl(2 * u) * 2;       // acos of a rounded w near 1
	L lt = q.w > 0 ? (s > sp ? 32 * u / s : sp) : 32 * u / (s * s);      // near -1 the turn is read off a rounded acos
	if (lt < 0.1L) qnear(c, lq(l), qlog(lq(q)), lt, "Quat log");
	Quat<R> e = Quat<R>::exp(l);
	if (lt < 0.1L) qnear(c, lq(e), lq(q), 2 * lt, "exp(log(q)) = q"); else c.cls("near -1 (undecided)");
	Vec3<R> x = gUnit3<R>(c.r); L h = c.r.p(0.2) ? c.r.logu(1e-6, 1) : c.r.uni(0, 3.1); if (c.r.p(0.03)) h = 0;
	Quat<R> v(R(x.x * h), R(x.y * h), R(x.z * h), c.r.p(0.8) ? R(0) : gReal<R>(c.r), false); in(c, "v", v);
	c.cls(h == 0 ? "exp of zero" : h < 1e-3L ? "exp of small" : "exp");
	LQ V = lq(v); V.w = 0;
	Quat<R> ex = Quat<R>::exp(v);
	qnear(c, lq(ex), qexp(V), 16 * u, "Quat exp");
	c.chk(fabsl(len(lq(ex)) - 1) <= 16 * u, "Quat exp is unit");
	L sh = sinl(h); if (sh > sp) qnear(c, lq(Quat<R>::log(ex)), V, 64 * u * (1 + h) / sh, "log(exp(v)) = v");
}
template <class R> void squadControl(Case& c) {
	Quat<R> a = in(c, "from", gQuat<R>(c.r)), b, d;
	b = gQuat<R>(c.r); d = gQuat<R>(c.r);
	if (c.r.p(0.5)) { auto nb = [&](const Quat<R>& q) { Vec3<R> x = gUnit3<R>(c.r); L h = c.r.uni(0, 0.7); LQ r = lq(q) * LQ{x.x * sinl(h), x.y * sinl(h), x.z * sinl(h), cosl(h)}; return Quat<R>(R(r.x), R(r.y), R(r.z), R(r.w), false); }; b = nb(a); d = nb(b); c.cls("neighbouring keys"); }
	if (c.r.p(0.1)) { b = a; d = a; c.cls("same keys"); }
	in(c, "via", b); in(c, "to", d);
	L u = E<R>::u();
	LQ A = conj(lq(b)) * lq(a), D = conj(lq(b)) * lq(d);
	L sp = sqrtl(2 * u) * 2;
	auto ill = [&](const LQ& q) { return vlen(q) <= 0.02L && q.w < 0; };
	if (ill(A) || ill(D)) { c.cls("antipodal (undecided)"); return; }
	auto te = [&](const LQ& q) { return q.w > 0 ? (vlen(q) > sp ? 64 * u / vlen(q) : 2 * sp) : 64 * u / (vlen(q) * vlen(q)); };
	LQ w = lq(b) * qexp((qlog(A) + qlog(D)) * -0.25L);
	Quat<R> q; c.chk(&q.set(a, b, d) == &q, "Quat set(from,via,to) returns itself"); c.chk(alike<R>(Quat<R>::from(a, b, d), q), "Quat from(from,via,to) is set");
	qnear(c, lq(q), w, te(A) + te(D) + 64 * u, "Quat set(from,via,to) is the squad control point");
}

// a quaternion's direction does not depend on its scale
template <class R> void scaled(Case& c) {
	R s = gSim<R>(c.r), x = gSim<R>(c.r), y = gSim<R>(c.r), z = gSim<R>(c.r); c.in("s", s); c.in("x", x); c.in("y", y); c.in("z", z); if (s == 0 && x == 0 && y == 0 && z == 0) { c.trivial = true; return; }
	similar<R>(c, "normalising a quaternion of any length", 3, [&](Sc<R>& o) { R e[4] = {o.len(x), o.len(y), o.len(z), o.len(s)}; Quat<R> q(e[0], e[1], e[2], e[3]), p(e[0], e[1], e[2], e[3], false); o.v(q, 0); o.v(p, 1); p.normalize(); o.v(p, 0); });
}
void vf::registerAll() {
	VF_BOTH(algebra, "algebra", 40000, "unit", "not unit");
	VF_BOTH(rotate, "rotate", 40000);
	VF_BOTH(axisAngle, "axis-angle", 40000, "near zero or full turn", "no turn");
	VF_BOTH(fromTo, "from-to", 40000, "parallel", "opposite", "acute", "obtuse");
	VF_BOTH(logExp, "log-exp", 40000, "exp of zero", "exp of small", "exp");
	VF_BOTH(squadControl, "squad control", 20000, "neighbouring keys", "same keys");
	VF_BOTH(scaled, "another unit", 40000);
}
VF_MAIN()
