// C27: tridiagonal and cyclic tridiagonal systems
#include "vf.h"
#include "scale.h"
using namespace vf;
using namespace mathlib;
template <class R> struct Sys { int n; std::vector<R> a, b, c, r; bool dominant; };
template <class R> Sys<R> gSys(Case& cs, int lo, R al, R be) {
	Sys<R> s; s.n = cs.in("n", cs.r.p(0.15) ? lo : cs.r.p(0.1) ? cs.r.in(30, 100) : cs.r.p(0.01) ? cs.r.in(200, 3000) : cs.r.p(0.0015) ? cs.r.in(32000, 70000) : cs.r.in(lo, 12)); int n = s.n; s.dominant = cs.r.p(0.7); bool ints = cs.r.p(0.25);
	auto v = [&]() { return ints ? R(cs.r.in(-4, 4)) : gReal<R>(cs.r); }; for (int i = 0; i + 1 < n; i++) { s.a.push_back(cs.r.p(0.1) ? R(0) : v()); s.c.push_back(cs.r.p(0.1) ? R(0) : v()); } for (int i = 0; i < n; i++) { R o = (i ? std::fabs(s.a[i - 1]) : std::fabs(be)) + (i + 1 < n ? std::fabs(s.c[i]) : R(0)) + (i + 1 == n ? std::fabs(al) : R(0)); R x = v(); if (s.dominant) { x = R(cs.r.sgn()) * (o * R(1 + cs.r.logu(0.05, 3)) + R(0.1)); } s.b.push_back(x); s.r.push_back(v()); }
	if (cs.log && n < 10) { for (R x : s.a) cs.in("a", x); for (R x : s.b) cs.in("b", x); for (R x : s.c) cs.in("c", x); for (R x : s.r) cs.in("r", x); } else for (auto* q : {&s.a, &s.b, &s.c, &s.r}) for (R x : *q) cs.hash(x);
	return s;
}
// residual of the full system, corners included; true if it is small against the sizes involved
template <class R> void residual(Case& cs, const Sys<R>& s, R al, R be, const std::vector<R>& u, L grow, const char* site) {
	for (int j = 0; j < s.n; j++) { L v = (L)s.b[j] * u[j] - s.r[j], m = fabsl((L)s.b[j] * u[j]) + fabsl((L)s.r[j]); auto add = [&](L k, L x) { v += k * x; m += fabsl(k * x); }; if (j) add(s.a[j - 1], u[j - 1]); if (j + 1 < s.n) add(s.c[j], u[j + 1]); if (j == 0 && be != 0) add(be, u[s.n - 1]); if (j == s.n - 1 && al != 0) add(al, u[0]); cs.chk(fabsl(v) <= 32 * E<R>::u() * grow * m + 64 * E<R>::dm(), site, "row %d of %d: residual %.6Lg of %.6Lg", j, s.n, v, m); }
}
// reference solution and the size of intermediate values, in long double with pivoting (dense)
template <class R> bool dense(const Sys<R>& s, L al, L be, std::vector<L>& x, L& cond) {
	int n = s.n; std::vector<std::vector<L>> m(n, std::vector<L>(2 * n, 0)); L nm = 0; for (int i = 0; i < n; i++) { m[i][i] += s.b[i]; if (i) m[i][i - 1] += s.a[i - 1]; if (i + 1 < n) m[i][i + 1] += s.c[i]; if (i == 0) m[0][n - 1] += be; if (i == n - 1) m[n - 1][0] += al; L q = 0; for (int k = 0; k < n; k++) q += fabsl(m[i][k]); nm = std::max(nm, q); m[i][n + i] = 1; }
	for (int i = 0; i < n; i++) { int p = i; for (int k = i; k < n; k++) if (fabsl(m[k][i]) > fabsl(m[p][i])) p = k; if (fabsl(m[p][i]) < 1e-15L * nm) return false; std::swap(m[i], m[p]); for (int k = 0; k < n; k++) if (k != i) { L f = m[k][i] / m[i][i]; for (int l = i; l < 2 * n; l++) m[k][l] -= f * m[i][l]; } }
	L in = 0; x.assign(n, 0); for (int i = 0; i < n; i++) { L q = 0; for (int k = 0; k < n; k++) { L y = m[i][n + k] / m[i][i]; q += fabsl(y); x[i] += y * s.r[k]; } in = std::max(in, q); } cond = nm * in; return true;
}
// the same for dominant systems of any size: no exchanges are needed, and dominance bounds the inverse
template <class R> bool banded(const Sys<R>& s, L al, L be, std::vector<L>& x, L& cond) {
	int n = s.n; std::vector<L> d(n), f(n, 0), r(n); L nm = 0, gap = 1e300L; for (int i = 0; i < n; i++) { d[i] = s.b[i]; r[i] = s.r[i]; L o = (i ? fabsl((L)s.a[i - 1]) : fabsl(be)) + (i + 1 < n ? fabsl((L)s.c[i]) : fabsl(al)); nm = std::max(nm, o + fabsl(d[i])); gap = std::min(gap, fabsl(d[i]) - o); } if (gap <= 0) return false;
	f[0] = be; f[n - 2] += s.c[n - 2]; L last = al, dl = s.b[n - 1], rl = s.r[n - 1]; // f: column n-1 of the upper rows; last: the running entry of the last row
	for (int i = 0; i + 2 < n; i++) { L k = (L)s.a[i] / d[i]; d[i + 1] -= k * s.c[i]; f[i + 1] -= k * f[i]; r[i + 1] -= k * r[i]; L q = last / d[i]; last = -q * s.c[i]; if (i + 3 == n) last += s.a[n - 2]; dl -= q * f[i]; rl -= q * r[i]; }
	{ L q = last / d[n - 2]; dl -= q * f[n - 2]; rl -= q * r[n - 2]; } x.assign(n, 0); x[n - 1] = rl / dl; for (int i = n - 2; i >= 0; i--) x[i] = (r[i] - f[i] * x[n - 1] - (i + 2 < n ? (L)s.c[i] * x[i + 1] : 0)) / d[i]; cond = nm / gap; return true;
}
// elimination without exchanges in reference arithmetic: smallest pivot and growth
template <class R> int pivots(const Sys<R>& s, L& grow) {
	E<R> bet(s.b[0]); grow = 1; if (s.b[0] == 0) return 0; for (int j = 1; j < s.n; j++) { E<R> g = E<R>(s.c[j - 1]) / bet; E<R> t = E<R>(s.a[j - 1]) * g; L big = fabsl((L)s.b[j]) + fabsl(t.v); bet = E<R>(s.b[j]) - t; if (fabsl(bet.v) <= 8 * bet.e) return bet.v == 0 && bet.e == 0 ? 0 : -1; grow = std::max(grow, std::max(fabsl(g.v), std::max(big / fabsl(bet.v), fabsl((L)s.a[j - 1] / bet.v)))); } return 1;
}
template <class R> void forward(Case& cs, const Sys<R>& s, const std::vector<R>& u, L grow, const char* site) {
	std::vector<L> x; L cond; if (grow > 1e4L || s.n > 40 || !dense(s, 0, 0, x, cond) || E<R>::u() * cond * grow > 1e-2L) return; L xm = 0; for (L y : x) xm = std::max(xm, fabsl(y)); cs.cls("solved, not dominant", !s.dominant); for (int i = 0; i < s.n; i++) cs.nearAbs(u[i], x[i], 32 * E<R>::u() * cond * (s.dominant ? 2 : grow * grow) * xm + 64 * E<R>::dm(), site);
}
template <class R> void solve(Case& cs) {
	Sys<R> s = gSys<R>(cs, 1, R(0), R(0)), keep = s; int n = s.n; std::vector<R> u(n, R(1e30)); bool ok = TriDiagonal<R>::solve(s.a.data(), s.b.data(), s.c.data(), s.r.data(), u.data(), n); cs.cls("one unknown", n == 1); cs.cls("many unknowns", n > 20); cs.cls("very many unknowns", n > 10000);
	cs.chk(s.a == keep.a && s.b == keep.b && s.c == keep.c && s.r == keep.r, "the inputs are not modified"); L grow; int p = pivots(s, grow); cs.cls("zero pivot", p == 0 || s.b[0] == 0); cs.cls("dominant", s.dominant);
	if (s.b[0] == 0) { cs.chk(!ok, "a zero first pivot is refused"); } else if (s.dominant || p == 1) { cs.chk(ok, "a system with pivots is solved"); if (ok) { if (s.dominant) residual(cs, s, R(0), R(0), u, 2, "solution of a dominant system"); forward(cs, s, u, grow, "solution"); } }
	// three right-hand sides at once
	std::vector<Vec3<R>> r3(n), u3(n); for (int i = 0; i < n; i++) r3[i] = Vec3<R>(s.r[i], gReal<R>(cs.r), R(0) - s.r[n - 1 - i]); auto k3 = r3; bool o3 = TriDiagonal<R>::solve(s.a.data(), s.b.data(), s.c.data(), r3.data(), u3.data(), n); if (p >= 0 || s.dominant) cs.chk(o3 == ok, "vector and scalar solve agree on solvability"); for (int i = 0; i < n; i++) same(cs, r3[i], k3[i], "the inputs are not modified");
	if (o3 && (s.dominant || p == 1)) for (int k = 0; k < 3; k++) { Sys<R> t = s; std::vector<R> w(n); for (int i = 0; i < n; i++) { t.r[i] = k == 0 ? r3[i].x : k == 1 ? r3[i].y : r3[i].z; w[i] = k == 0 ? u3[i].x : k == 1 ? u3[i].y : u3[i].z; } if (s.dominant) residual(cs, t, R(0), R(0), w, 2, "vector solution of a dominant system"); forward(cs, t, w, grow, "vector solution"); }
	// exact zero pivots: b1 = a0*c0/b0 on powers of two
	{ int m = cs.r.in(2, 6), at = cs.r.n(m); std::vector<R> a(m - 1), b(m), c(m - 1), r(m, R(1)), x(m); L bet = 0; for (int i = 0; i < m; i++) { R want = R(cs.r.sgn() * (1 << cs.r.n(3))); if (i == at) want = 0; if (i) { a[i - 1] = R(cs.r.sgn() * (1 << cs.r.n(3))); c[i - 1] = R(cs.r.sgn() * (1 << cs.r.n(3))); b[i] = R(want + a[i - 1] * (c[i - 1] / bet)); } else b[i] = want; bet = want; if (i == at) { for (int q = i + 1; q < m; q++) { a[q - 1] = R(cs.r.in(-3, 3)); c[q - 1] = R(cs.r.in(-3, 3)); b[q] = R(cs.r.in(-3, 3)); } break; } }
		cs.chk(!TriDiagonal<R>::solve(a.data(), b.data(), c.data(), r.data(), x.data(), m), "a zero pivot is refused", "at %d of %d", at, m); std::vector<Vec3<R>> q(m, Vec3<R>(R(1), R(2), R(3))), y(m); cs.chk(!TriDiagonal<R>::solve(a.data(), b.data(), c.data(), q.data(), y.data(), m), "a zero pivot is refused (vector)", "at %d of %d", at, m); cs.cls("zero pivot"); }
}
template <class R> void cyclic(Case& cs) {
	R al = cs.in("alpha", cs.r.p(0.15) ? R(0) : gReal<R>(cs.r)), be = cs.in("beta", cs.r.p(0.15) ? R(0) : gReal<R>(cs.r)); Sys<R> s = gSys<R>(cs, 3, al, be), keep = s; int n = s.n; std::vector<R> u(n, R(1e30)); bool ok = TriDiagonal<R>::solveCyclic(s.a.data(), s.b.data(), s.c.data(), al, be, s.r.data(), u.data(), n); cs.cls("no corners", al == 0 && be == 0); cs.cls("one corner", (al == 0) != (be == 0)); cs.cls("two corners", al != 0 && be != 0); cs.cls("three unknowns", n == 3); cs.cls("many unknowns", n > 20); cs.cls("very many unknowns", n > 10000);
	cs.chk(s.a == keep.a && s.b == keep.b && s.c == keep.c && s.r == keep.r, "the inputs are not modified"); std::vector<L> x; L cond;
	if (s.dominant) { cs.cls("dominant"); if (!cs.chk(ok, "a dominant cyclic system is solved")) return; if (s.n > 100 ? banded(s, al, be, x, cond) : dense(s, al, be, x, cond)) { L xm = 0; for (L y : x) xm = std::max(xm, fabsl(y)); L k = 1 + fabsl((L)al * be / s.b[0]) / std::max((L)1e-3, fabsl((L)s.b[n - 1])); for (int i = 0; i < n; i++) cs.nearAbs(u[i], x[i], 256 * E<R>::u() * cond * k * (xm + 1e-30L) + 64 * E<R>::dm(), "cyclic solution"); } }
	// small and unpivotable systems
	R a2[1] = {R(1)}, b2[2] = {R(3), R(3)}, r2[2] = {R(1), R(1)}, x2[2] = {R(7), R(7)}; cs.chk(!TriDiagonal<R>::solveCyclic(a2, b2, a2, al, be, r2, x2, 2) && !TriDiagonal<R>::solveCyclic(a2, b2, a2, al, be, r2, x2, 1), "cyclic systems need three unknowns");
	// exactly singular: every row sums to zero (on powers of two, so that nothing rounds)
	{ R d = R(1 << cs.r.n(4)); R a3[2] = {-d, -d}, b3[3] = {2 * d, 2 * d, 2 * d}, c3[2] = {-d, -d}, r3[3] = {R(1), R(0), R(0)}, x3[3]; bool o = TriDiagonal<R>::solveCyclic(a3, b3, c3, -d, -d, r3, x3, 3); bool fin = std::isfinite(x3[0]) && std::isfinite(x3[1]) && std::isfinite(x3[2]); cs.chk(!o || fin, "a singular cyclic system is not answered with infinities"); }
}
// equations and the same equations multiplied by a power of two on the left, the right or both
template <class R> void scaled(Case& cs) {
	int n = cs.in("n", cs.r.in(3, 8)); std::vector<R> a, b, c, r; for (int i = 0; i < n; i++) { a.push_back(gSim<R>(cs.r)); b.push_back(gSim<R>(cs.r)); c.push_back(gSim<R>(cs.r)); r.push_back(gSim<R>(cs.r)); } R al = gSim<R>(cs.r), be = gSim<R>(cs.r); bool dom = cs.r.p(0.6); cs.cls("dominant", dom);
	if (dom) for (int i = 0; i < n; i++) b[i] = R(cs.r.sgn()) * (std::fabs(i ? a[i - 1] : be) + std::fabs(i + 1 < n ? c[i] : al) + R(0.5) + std::fabs(b[i])); for (auto* q : {&a, &b, &c, &r}) for (R x : *q) cs.in("e", x); int lhs = cs.r.n(2), rhs = lhs ? cs.r.n(2) : 1;
	similar<R>(cs, "equations multiplied by a number", 3, [&](Sc<R>& o) {
		std::vector<R> A, B, C, D, u(n); for (int i = 0; i < n; i++) { A.push_back(o.len(a[i], lhs)); B.push_back(o.len(b[i], lhs)); C.push_back(o.len(c[i], lhs)); D.push_back(o.len(r[i], rhs)); } R x = o.len(al, lhs), y = o.len(be, lhs);
		if (o.b(TriDiagonal<R>::solve(A.data(), B.data(), C.data(), D.data(), u.data(), n))) for (R v : u) o.v(v, rhs - lhs); std::vector<Vec3<R>> d3(n), u3(n); for (int i = 0; i < n; i++) d3[i] = Vec3<R>(D[i], D[n - 1 - i], -D[i]); if (o.b(TriDiagonal<R>::solve(A.data(), B.data(), C.data(), d3.data(), u3.data(), n))) for (auto& v : u3) o.v(v, rhs - lhs); });
	if (dom) similar<R>(cs, "cyclic equations multiplied by a number", 3, [&](Sc<R>& o) {
		std::vector<R> A, B, C, D, u(n); for (int i = 0; i < n; i++) { A.push_back(o.len(a[i], lhs)); B.push_back(o.len(b[i], lhs)); C.push_back(o.len(c[i], lhs)); D.push_back(o.len(r[i], rhs)); } R x = o.len(al, lhs), y = o.len(be, lhs);
		if (o.b(TriDiagonal<R>::solveCyclic(A.data(), B.data(), C.data(), x, y, D.data(), u.data(), n))) for (R v : u) o.v(v, rhs - lhs); });
}
void vf::registerAll() {
	VF_BOTH(solve, "solve", 60000, "one unknown", "many unknowns", "very many unknowns", "zero pivot", "dominant", "solved, not dominant");
	VF_BOTH(cyclic, "cyclic", 40000, "no corners", "one corner", "two corners", "three unknowns", "many unknowns", "very many unknowns", "dominant");
	VF_BOTH(scaled, "multiplied", 40000, "dominant");
}
VF_MAIN()
