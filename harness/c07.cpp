// C07: the classification flags of a matrix are true of its values after any history of operations
#include "matops.h"
using namespace vf;
using namespace mathlib;

struct Err { L n, o, i; };
template <class R> L colDot(const RM<R>& m, int j, int k, int rows) { L s = 0; for (int i = 0; i < rows; i++) s += m.a[i][j].v * m.a[i][k].v; return s; }
// errors over the first `cols` columns and `rows` rows (orthogonality over the first `oc` columns)
template <class R> Err errs(const RM<R>& m, int cols, int oc, int rows) {
	Err e{0, 0, idErr(m)};
	for (int j = 0; j < cols; j++) { L d = colDot(m, j, j, rows) - 1; e.n += d * d; }
	for (int j = 0; j < oc; j++) for (int k = j + 1; k < oc; k++) { L d = colDot(m, j, k, rows); e.o += d * d; }
	return e;
}
template <class R> bool bottom(const RM<R>& M) { return M.a[3][0].v == 0 && M.a[3][1].v == 0 && M.a[3][2].v == 0 && M.a[3][3].v == 1; }
template <class R> Err errOf(const Mat2<R>&, const RM<R>& M) { return errs(M, 2, 2, 2); }
template <class R> Err errOf(const Mat3<R>&, const RM<R>& M) { return errs(M, 3, 3, 3); }
template <class R> Err errOf(const Mat34<R>&, const RM<R>& M) { RM<R> l = lin(M); return errs(l, 3, 3, 3); }
template <class R> Err errOf(const Mat4<R>& m, const RM<R>& M) { Err e = m.isTrs() ? errs(M, 3, 3, 3) : errs(M, 4, 3, 4); e.i = idErr(M); return e; }
template <class T> struct Nm;
template <class R> struct Nm<Mat2<R>> { static const char* n(int k) { static const char* s[] = {"Mat2 isNormal is true of the columns", "Mat2 isOrthogonal is true of the columns", "Mat2 isIdentity is true of the values", "Mat2 isOrthonormal means normal and orthogonal", "Mat2 is initialized after an operation", "Mat2 optimize finds unit columns", "Mat2 optimize finds orthogonal columns", "Mat2 optimize finds the identity", "Mat2 optimize leaves the values"}; return s[k]; } };
template <class R> struct Nm<Mat3<R>> { static const char* n(int k) { static const char* s[] = {"Mat3 isNormal is true of the columns", "Mat3 isOrthogonal is true of the columns", "Mat3 isIdentity is true of the values", "Mat3 isOrthonormal means normal and orthogonal", "Mat3 is initialized after an operation", "Mat3 optimize finds unit columns", "Mat3 optimize finds orthogonal columns", "Mat3 optimize finds the identity", "Mat3 optimize leaves the values"}; return s[k]; } };
template <class R> struct Nm<Mat34<R>> { static const char* n(int k) { static const char* s[] = {"Mat34 isNormal is true of the columns", "Mat34 isOrthogonal is true of the columns", "Mat34 isIdentity is true of the values", "Mat34 isOrthonormal means normal and orthogonal", "Mat34 is initialized after an operation", "Mat34 optimize finds unit columns", "Mat34 optimize finds orthogonal columns", "Mat34 optimize finds the identity", "Mat34 optimize leaves the values"}; return s[k]; } };
template <class R> struct Nm<Mat4<R>> { static const char* n(int k) { static const char* s[] = {"Mat4 isNormal is true of the columns", "Mat4 isOrthogonal is true of the columns", "Mat4 isIdentity is true of the values", "Mat4 isOrthonormal means normal and orthogonal", "Mat4 is initialized after an operation", "Mat4 optimize finds unit columns", "Mat4 optimize finds orthogonal columns", "Mat4 optimize finds the identity", "Mat4 optimize leaves the values"}; return s[k]; } };

// what holds after any operation: a set flag is true
template <class R, class T> void sound(Case& c, const T& m, const char* op) {
	RM<R> M = ref(m);
	Err e = errOf(m, M);
	bool fin = true;
	for (int i = 0; i < M.n; i++) for (int j = 0; j < M.n; j++) if (!std::isfinite(double(M.a[i][j].v))) fin = false;
	if (!fin) return;
	typedef Nm<T> N;
	L s = 0; for (int i = 0; i < M.n; i++) for (int j = 0; j < M.n; j++) s = std::max(s, fabsl(M.a[i][j].v));
	L rt = sqrtl(1e-3L) * 1.01L + 16 * E<R>::u() * s * s, HI = rt * rt;        // the library decides on rounded dot products
	c.chk(m.isInitialized(), N::n(4), "after %s", op);
	c.chk(m.isOrthonormal() == (m.isNormal() && m.isOrthogonal()), N::n(3), "after %s", op);
	if (m.isNormal()) { c.cls("flag normal set"); c.chk(e.n <= HI, N::n(0), "after %s: error %Lg in %s", op, e.n, show(M).c_str()); } else c.cls("flag normal clear");
	if (m.isOrthogonal()) { c.cls("flag orthogonal set"); c.chk(e.o <= HI, N::n(1), "after %s: error %Lg in %s", op, e.o, show(M).c_str()); } else c.cls("flag orthogonal clear");
	if (m.isIdentity()) { c.cls("flag identity set"); c.chk(e.i <= HI, N::n(2), "after %s: error %Lg in %s", op, e.i, show(M).c_str()); } else c.cls("flag identity clear");
}
template <class R> void trs(Case& c, const Mat4<R>& m, const char* op) {
	RM<R> M = ref(m);
	if (m.isTrs()) { c.cls("flag trs set"); c.chk(bottom(M), "Mat4 isTrs is true of the bottom row", "after %s: %s", op, show(M).c_str()); } else c.cls("flag trs clear");
}
template <class R> void trs(Case&, const Mat2<R>&, const char*) {}
template <class R> void trs(Case&, const Mat3<R>&, const char*) {}
template <class R> void trs(Case& c, const Mat34<R>& m, const char* op) {
	if (m.isIdentity()) c.chk(m.t.x == 0 && m.t.y == 0 && m.t.z == 0, "Mat34 isIdentity implies no translation", "after %s", op);
	c.chk(m.isNormal() == m.rs.isNormal() && m.isOrthogonal() == m.rs.isOrthogonal(), "Mat34 flags are those of its linear part", "after %s", op);
}
template <class R> bool tnull(const Mat34<R>& m) { return m.t.isNull(); }
template <class T> bool tnull(const T&) { return true; }
// what optimize() guarantees: the flags are exact, up to rounding of the comparison with the tolerance
template <class R, class T> void complete(Case& c, const T& m, const MatrixTolerance<R>* tol = nullptr) {
	RM<R> M = ref(m);
	Err e = errOf(m, M);
	typedef Nm<T> N;
	L tn = tol ? tol->normal : 1e-3L, to = tol ? tol->orthogonal : 1e-3L, ti = tol ? tol->identity : 1e-3L;
	L s = 0; for (int i = 0; i < M.n; i++) for (int j = 0; j < M.n; j++) s = std::max(s, fabsl(M.a[i][j].v));
	if (!(s < 1e4L)) return;
	L q = 64 * E<R>::u() * (1 + s * s * s * s);
	auto ex = [&](bool f, L err, L t, const char* site) {
		if (err <= t * 0.98L - q) { c.cls("within tolerance"); c.chk(f, site, "error %Lg within %Lg but flag clear in %s", err, t, show(M).c_str()); }
		else if (err > t * 1.02L + q) { c.cls("beyond tolerance"); c.chk(!f, site, "error %Lg beyond %Lg but flag set in %s", err, t, show(M).c_str()); }
	};
	ex(m.isNormal(), e.n, tn, N::n(5));
	ex(m.isOrthogonal(), e.o, to, N::n(6));
	if (m.isNormal() && m.isOrthogonal() && tnull(m)) ex(m.isIdentity(), e.i, ti, N::n(7));
}
template <class R> void completeTrs(Case& c, const Mat4<R>& m) { c.chk(m.isTrs() == bottom(ref(m)), "Mat4 optimize decides isTrs exactly", "%s", show(ref(m)).c_str()); }
template <class R, class T> void completeTrs(Case&, const T&) {}
template <class R, class T> void optim(Case& c, T m) {
	RM<R> B = ref(m);
	T k = m; k.optimize();
	chkM(c, ref(k), {B}, Nm<T>::n(8), 0);
	complete<R>(c, k); completeTrs<R>(c, k); sound<R>(c, k, "optimize"); trs(c, k, "optimize");
	MatrixTolerance<R> t;
	t.normal = R(c.r.logu(1e-5, 10)); t.orthogonal = R(c.r.logu(1e-5, 10)); t.identity = R(c.r.logu(1e-5, 10));
	c.in("tol.n", t.normal); c.in("tol.o", t.orthogonal); c.in("tol.i", t.identity);
	k.optimize(&t);
	c.cls("custom tolerance");
	complete<R>(c, k, &t); completeTrs<R>(c, k);
	k.optimize();
	complete<R>(c, k);
}
template <class R> E<R> nE(const RM<R>& M, int cols, int rows) { E<R> s(0); for (int j = 0; j < cols; j++) { E<R> q(0); for (int i = 0; i < rows; i++) q += M.a[i][j] * M.a[i][j]; q = q - E<R>(1); s += q * q; } return s; }
template <class R> E<R> oE(const RM<R>& M, int cols, int rows) { E<R> s(0); for (int j = 0; j < cols; j++) for (int k = j + 1; k < cols; k++) { E<R> q(0); for (int i = 0; i < rows; i++) q += M.a[i][j] * M.a[i][k]; s += q * q; } return s; }
template <class R> E<R> iE(const RM<R>& M) { E<R> s(0); for (int i = 0; i < M.n; i++) for (int j = 0; j < M.n; j++) { E<R> q = i == j ? M.a[i][j] - E<R>(1) : M.a[i][j]; s += q * q; } return s; }
template <class R> void errv(Case& c, const Mat2<R>& m) { RM<R> M = ref(m); c.near(m.normalError(), nE(M, 2, 2), "Mat2 normalError"); c.near(m.orthogonalError(), oE(M, 2, 2), "Mat2 orthogonalError"); c.near(m.identityError(), iE(M), "Mat2 identityError"); }
template <class R> void errv(Case& c, const Mat3<R>& m) { RM<R> M = ref(m); c.near(m.normalError(), nE(M, 3, 3), "Mat3 normalError"); c.near(m.orthogonalError(), oE(M, 3, 3), "Mat3 orthogonalError"); c.near(m.identityError(), iE(M), "Mat3 identityError"); }
template <class R> void errv(Case&, const Mat34<R>&) {}
template <class R> void errv(Case& c, const Mat4<R>& m) {
	RM<R> M = ref(m); int k = m.isTrs() ? 3 : 4;
	c.near(m.normalError(), nE(M, k, k), "Mat4 normalError"); c.near(m.orthogonalError(), oE(M, 3, k), "Mat4 orthogonalError"); c.near(m.identityError(), iE(M), "Mat4 identityError");
}

template <class R> const char* step(Case& c, Mat2<R>& m) {
	switch (c.r.n(8)) {
	case 0: m.set(c.in("a", gAngle<R>(c.r))); return "set(angle)";
	case 1: { Mat2<R> b = gMat2<R>(c, "b"); R w = c.in("w", R(c.r.uni(0, 1))); m.slerp(Mat2<R>(m), b, w); return "slerp"; }
	case 2: { Mat2<R> b = gMat2<R>(c, "b"); m = b; return "assign"; }
	case 3: { Mat2<R> b; b.set(m); m.setIdentity(); m.set(b); return "set(m)"; }
	default: return op2<R>(c, m);
	}
}
template <class R> const char* step(Case& c, Mat3<R>& m) {
	switch (c.r.n(10)) {
	case 0: { Quat<R> q = in(c, "q", gQuat<R>(c.r)); m.set(q); return "set(quat)"; }
	case 1: { Vec3<R> a = c.in("axis", gAxis<R>(c.r)); R t = c.in("ang", gAngle<R>(c.r)); m.set(a, t); return "set(axis,angle)"; }
	case 2: { int k = c.in("c", c.r.n(3)); R t = c.in("ang", gAngle<R>(c.r)); m.set(Coord(k), t); return "set(coord,angle)"; }
	case 3: { if (!tame(ref(m))) return "nop"; m.orthonormalise(); return "orthonormalise"; }
	case 4: { Mat3<R> b; b.set(m); m.setIdentity(); m = b; return "set(m)"; }
	default: return op3<R>(c, m);
	}
}
template <class R> const char* step(Case& c, Mat34<R>& m) {
	switch (c.r.n(10)) {
	case 0: { Quat<R> q = in(c, "q", gQuat<R>(c.r)); Vec3<R> t = c.in("t", gTrans<R>(c)); m.set(q, t); return "set(quat,t)"; }
	case 1: { Vec3<R> a = c.in("axis", gAxis<R>(c.r)); R t = c.in("ang", gAngle<R>(c.r)); m.set(a, t); return "set(axis,angle)"; }
	case 2: { Mat3<R> b = gMat3<R>(c, "b"); Vec3<R> t = c.in("t", gTrans<R>(c)); m.set(b, t); return "set(Mat3,t)"; }
	case 3: { m.invert(); return "invert"; }
	case 4: { Mat34<R> b; b.set(m); m.setIdentity(); m = b; return "set(m)"; }
	default: return op34<R>(c, m);
	}
}
template <class R> const char* step(Case& c, Mat4<R>& m) {
	switch (c.r.n(12)) {
	case 0: { Quat<R> q = in(c, "q", gQuat<R>(c.r)); Vec3<R> t = c.in("t", gTrans<R>(c)); m.set(q, t); return "set(quat,t)"; }
	case 1: { Vec3<R> a = c.in("axis", gAxis<R>(c.r)); R t = c.in("ang", gAngle<R>(c.r)); m.set(a, t); return "set(axis,angle)"; }
	case 2: { int k = c.in("c", c.r.n(3)); R t = c.in("ang", gAngle<R>(c.r)); m.set(Coord(k), t); return "set(coord,angle)"; }
	case 3: { m.invert(); return "invert"; }
	case 4: { m = m.inversed(); return "inversed"; }
	case 5: { Mat3<R> b = gMat3<R>(c, "b"); Vec3<R> t = c.in("t", gTrans<R>(c)); m.set(b, t); return "set(Mat3,t)"; }
	case 6: { Mat4<R> b; b.set(m); m.setIdentity(); m = b; return "set(m)"; }
	default: return op4<R>(c, m);
	}
}
template <class R, class T> void history(Case& c, T m) {
	complete<R>(c, m); completeTrs<R>(c, m); sound<R>(c, m, "construction"); trs(c, m, "construction");
	int n = c.r.in(1, 10);
	c.cls(n == 1 ? "history 1" : n <= 4 ? "history 2..4" : "history 5..10");
	for (int i = 0; i < n; i++) {
		c.mute = true;
		const char* op = step<R>(c, m);
		c.mute = false;
		if (c.log) { c.text += " ; "; c.text += op; }
		if (!tame(ref(m))) { c.cls("left range"); return; }
		sound<R>(c, m, op); trs(c, m, op);
		if (c.failed) return;
	}
	errv(c, m);
	optim<R, T>(c, m);
}
template <class R> void h2(Case& c) { history<R>(c, gMat2<R>(c, "m")); }
template <class R> void h3(Case& c) { history<R>(c, gMat3<R>(c, "m")); }
template <class R> void h34(Case& c) { history<R>(c, gMat34<R>(c, "m")); }
template <class R> void h4(Case& c) { history<R>(c, gMat4<R>(c, "m")); }

// values the user pokes in directly, then optimize(); columns just inside / outside the tolerance; default construction; Mat(k); cast
template <class R> void direct(Case& c) {
	double a[4][4], e = c.r.logu(1e-4, 0.5);
	gMatRaw<R>(c.r, 4, a, &c);
	if (c.r.p(0.6)) { c.cls("around the tolerance"); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) a[i][j] = (i == j) + c.r.uni(-e, e) * c.r.n(2); }
	if (c.r.p(0.5)) { for (int j = 0; j < 3; j++) a[3][j] = 0; a[3][3] = 1; }
	else if (c.r.p(0.4)) { c.cls("bottom row almost TRS"); for (int j = 0; j < 3; j++) a[3][j] = 0; a[3][3] = 1; int j = c.r.n(4); a[3][j] += c.r.sgn() * c.r.logu(1e-6, 1e-2); }
	switch (c.r.n(4)) {
	case 0: {
		Mat2<R> m; c.chk(!m.isInitialized(), "Mat2 default construction is uninitialized");
		c.chk(!m.isIdentity() && !m.isNormal() && !m.isOrthogonal(), "Mat2 default construction claims nothing");
		m.setIdentity(); m.x = Vec2<R>(R(a[0][0]), R(a[1][0])); m.y = Vec2<R>(R(a[0][1]), R(a[1][1]));
		logm(c, "m", ref(m)); optim<R>(c, m); break;
	}
	case 1: {
		Mat3<R> m; c.chk(!m.isInitialized(), "Mat3 default construction is uninitialized");
		c.chk(!m.isIdentity() && !m.isNormal() && !m.isOrthogonal(), "Mat3 default construction claims nothing");
		m.setIdentity(); Vec3<R>* k[] = {&m.x, &m.y, &m.z};
		for (int j = 0; j < 3; j++) *k[j] = Vec3<R>(R(a[0][j]), R(a[1][j]), R(a[2][j]));
		logm(c, "m", ref(m)); optim<R>(c, m); break;
	}
	case 2: {
		Mat34<R> m; c.chk(!m.isInitialized(), "Mat34 default construction is uninitialized");
		m.setIdentity(); Vec3<R>* k[] = {&m.rs.x, &m.rs.y, &m.rs.z};
		for (int j = 0; j < 3; j++) *k[j] = Vec3<R>(R(a[0][j]), R(a[1][j]), R(a[2][j]));
		if (c.r.p(0.5)) m.t = gTrans<R>(c);
		logm(c, "m", ref(m)); optim<R>(c, m); break;
	}
	default: {
		Mat4<R> m; c.chk(!m.isInitialized(), "Mat4 default construction is uninitialized");
		c.chk(!m.isIdentity() && !m.isNormal() && !m.isOrthogonal() && !m.isTrs(), "Mat4 default construction claims nothing");
		m.setIdentity(); Vec4<R>* k[] = {&m.x, &m.y, &m.z, &m.t};
		for (int j = 0; j < 4; j++) *k[j] = Vec4<R>(R(a[0][j]), R(a[1][j]), R(a[2][j]), R(a[3][j]));
		logm(c, "m", ref(m)); optim<R>(c, m);
	}
	}
}
template <class R> void konst(Case& c) {
	R k = c.r.p(0.2) ? R(1) : c.r.p(0.2) ? R(0) : c.r.p(0.4) ? R(1 + c.r.uni(-0.05, 0.05)) : gReal<R>(c.r);
	c.in("k", k); c.cls(k == 1 ? "k = 1" : "other k");
	Mat2<R> a(k); Mat3<R> b(k); Mat34<R> d(k); Mat4<R> e(k);
	sound<R>(c, a, "Mat2(k)"); sound<R>(c, b, "Mat3(k)"); sound<R>(c, d, "Mat34(k)"); sound<R>(c, e, "Mat4(k)"); trs(c, d, "Mat34(k)"); trs(c, e, "Mat4(k)");
	if (k == 1) c.chk(a.isIdentity() && b.isIdentity() && d.isIdentity() && e.isIdentity() && e.isTrs() && a.isOrthonormal() && b.isOrthonormal() && d.isOrthonormal() && e.isOrthonormal(), "Mat(1) is flagged identity");
	a.setIdentity(); b.setIdentity(); d.setIdentity(); e.setIdentity();
	c.chk(a.isIdentity() && b.isIdentity() && d.isIdentity() && e.isIdentity() && e.isTrs() && a.isOrthonormal() && b.isOrthonormal() && d.isOrthonormal() && e.isOrthonormal(), "setIdentity is flagged identity");
	c.chk(idErr(ref(a)) == 0 && idErr(ref(b)) == 0 && idErr(ref(d)) == 0 && idErr(ref(e)) == 0, "setIdentity holds the identity");
	const Mat2<R>& z2 = Mat2<R>::Zero; const Mat3<R>& z3 = Mat3<R>::Zero; const Mat34<R>& z34 = Mat34<R>::Zero; const Mat4<R>& z4 = Mat4<R>::Zero;
	sound<R>(c, z2, "Zero"); sound<R>(c, z3, "Zero"); sound<R>(c, z34, "Zero"); sound<R>(c, z4, "Zero"); trs(c, z4, "Zero");
	const Mat2<R>& o2 = Mat2<R>::One; const Mat3<R>& o3 = Mat3<R>::One; const Mat34<R>& o34 = Mat34<R>::One; const Mat4<R>& o4 = Mat4<R>::One;
	sound<R>(c, o2, "One"); sound<R>(c, o3, "One"); sound<R>(c, o34, "One"); sound<R>(c, o4, "One"); trs(c, o4, "One");
	c.chk(idErr(ref(o2)) == 0 && idErr(ref(o3)) == 0 && idErr(ref(o34)) == 0 && idErr(ref(o4)) == 0, "One is the identity");
}
template <class R> struct Other; template <> struct Other<float> { typedef double T; }; template <> struct Other<double> { typedef float T; };
template <class R> void casts(Case& c) {
	typedef typename Other<R>::T O;
	switch (c.r.n(4)) {
	case 0: { Mat2<R> m = gMat2<R>(c, "m"); Mat2<O> g = m.template cast<O>(); sound<O>(c, g, "cast"); complete<O>(c, g); break; }
	case 1: { Mat3<R> m = gMat3<R>(c, "m"); Mat3<O> g = m.template cast<O>(); sound<O>(c, g, "cast"); complete<O>(c, g); break; }
	case 2: { Mat34<R> m = gMat34<R>(c, "m"); Mat34<O> g = m.template cast<O>(); sound<O>(c, g, "cast"); complete<O>(c, g); break; }
	default: { Mat4<R> m = gMat4<R>(c, "m"); Mat4<O> g = m.template cast<O>(); sound<O>(c, g, "cast"); trs(c, g, "cast"); complete<O>(c, g); break; }
	}
}

void vf::registerAll() {
	flagMonitor() = true;
	VF_BOTH(h2, "mat2", 25000, "flag normal set", "flag normal clear", "flag orthogonal set", "flag orthogonal clear", "flag identity set", "flag identity clear", "custom tolerance", "history 5..10");
	VF_BOTH(h3, "mat3", 25000, "flag normal set", "flag normal clear", "flag orthogonal set", "flag orthogonal clear", "flag identity set", "flag identity clear", "custom tolerance", "history 5..10");
	VF_BOTH(h34, "mat34", 25000, "flag normal set", "flag normal clear", "flag orthogonal set", "flag orthogonal clear", "flag identity set", "flag identity clear", "custom tolerance", "history 5..10");
	VF_BOTH(h4, "mat4", 25000, "flag normal set", "flag normal clear", "flag orthogonal set", "flag orthogonal clear", "flag identity set", "flag identity clear", "flag trs set", "flag trs clear", "custom tolerance", "history 5..10");
	VF_BOTH(direct, "direct", 30000, "around the tolerance", "bottom row almost TRS", "within tolerance", "beyond tolerance");
	VF_BOTH(konst, "constants", 3000, "k = 1", "other k");
	VF_BOTH(casts, "cast", 6000, "flag identity set", "flag normal clear");
}
VF_MAIN()
