// C05: applying matrices to vectors and arrays of vectors
#include "matops.h"
using namespace vf;
using namespace mathlib;

template <class R> RM<R> col(const Vec2<R>& v) { RM<R> r(2); r.a[0][0] = v.x; r.a[1][0] = v.y; return r; }
template <class R> bool nearV(const E<R>* e, const R* g, int n, L K = 8) {
	for (int i = 0; i < n; i++) { if (!(e[i].e < (L)std::numeric_limits<R>::max() / 64)) continue; if (!(fabsl(g[i] - e[i].v) <= K * e[i].e + 4 * E<R>::dm())) return false; }
	return true;
}
// M (n x n) times the homogeneous vector v[0..n)
template <class R> void mulv(const RM<R>& M, const E<R>* v, E<R>* o) {
	for (int i = 0; i < M.n; i++) { E<R> s = M.a[i][0] * v[0]; for (int k = 1; k < M.n; k++) s = s + M.a[i][k] * v[k]; o[i] = s; }
}
template <class R, class V> void refOf(const RM<R>& M, const V& src, int dim, int last, E<R>* o) {
	// last: -1 the vector has the matrix' dimension, 0/1 extend with that w and (if w==0) keep dim components
	E<R> v[4];
	const R* p = src.data();
	for (int i = 0; i < dim; i++) v[i] = p[i];
	if (last >= 0) v[3] = E<R>(last);
	mulv(M, v, o);
}
template <class V, class R> void rep(Case& c, const V& g, const E<R>* e, int n, const char* site) {
	bool ok = nearV(e, g.data(), n);
	if (ok) { Local::bump(c.loc->sites, site); return; }
	c.chk(false, site, "got (%.9g %.9g..) expected (%.9Lg %.9Lg..)", double(g.data()[0]), double(g.data()[1]), e[0].v, e[1].v);
}

// runs one array form over a byte buffer with canaries between and around the elements
template <class R, class V, class F, class G> void arrays(Case& c, int dim, F refv, G call, const char* site) {
	int n = c.r.count(0, 9);
	size_t vs = dim * sizeof(R);
	c.in("count", n);
	bool strided = c.r.p(0.7), inplace = c.r.p(0.3);
	size_t ds = vs, ss = vs;
	if (strided) { ds += sizeof(R) * c.r.n(4); ss += sizeof(R) * c.r.n(4); }
	if (inplace) ss = ds;
	if (strided && !inplace && c.r.p(0.15)) { ss = 0; c.cls("src stride 0"); }
	c.in("ds", ds); c.in("ss", ss);
	c.cls(strided ? "strided" : "packed"); c.cls("in place", inplace); c.cls("count 0", n == 0); c.cls("count>1", n > 1); c.cls("count>200", n > 200);
	size_t pad = 4 * sizeof(R);
	std::vector<R> db((2 * pad + (n + 1) * ds) / sizeof(R) + 1), sb((2 * pad + (n + 1) * std::max(ss, vs)) / sizeof(R) + 1);
	for (size_t i = 0; i < db.size(); i++) db[i] = R(1000 + double(i));
	for (size_t i = 0; i < sb.size(); i++) sb[i] = gReal<R>(c.r);
	if (inplace) sb = db = sb;
	std::vector<R> d0 = db, s0 = sb;
	char* dp = (char*)db.data() + pad;
	const char* sp = inplace ? dp : (const char*)sb.data() + pad;
	call((V*)dp, (const V*)sp, (size_t)n, ds, ss, strided);
	// expected: exactly the n elements change
	std::vector<char> touched(db.size(), 0);
	for (int k = 0; k < n; k++) {
		V src;
		memcpy((void*)src.data(), (const char*)s0.data() + pad + k * ss, vs);
		E<R> e[4];
		refv(src, e);
		const R* g = (const R*)(dp + k * ds);
		c.chk(nearV(e, g, dim), site, "element %d of %d (dest stride %zu, src stride %zu%s)", k, n, ds, ss, inplace ? ", in place" : "");
		for (int j = 0; j < dim; j++) touched[(dp - (char*)db.data() + k * ds) / sizeof(R) + j] = 1;
	}
	for (size_t i = 0; i < db.size(); i++) if (!touched[i]) c.chk(memcmp(&db[i], &d0[i], sizeof(R)) == 0, site, "wrote outside the destination elements (word %zu, count %d, stride %zu)", i, n, ds);
	if (!inplace) c.chk(memcmp(sb.data(), s0.data(), sb.size() * sizeof(R)) == 0, site, "source modified");
}

template <class R> void m2(Case& c) {
	Mat2<R> m = gMat2<R>(c, "m"); Vec2<R> v = c.in("v", gVec2<R>(c.r)), o, w = v; RM<R> M = ref(m), T = tr(M);
	E<R> e[4];
	auto f = [&](const Vec2<R>& s, E<R>* q) { refOf(M, s, 2, -1, q); };
	f(v, e);
	rep(c, m * v, e, 2, "Mat2 * Vec2"); m.transform(o, v); rep(c, o, e, 2, "Mat2 transform"); o = v; m.transform(o, o); rep(c, o, e, 2, "Mat2 transform in place");
	refOf(T, v, 2, -1, e);
	rep(c, v * m, e, 2, "Vec2 * Mat2"); w *= m; rep(c, w, e, 2, "Vec2 *= Mat2");
	arrays<R, Vec2<R>>(c, 2, f, [&](Vec2<R>* d, const Vec2<R>* s, size_t n, size_t ds, size_t ss, bool st) { if (st) m.transform(d, s, n, ds, ss); else m.transform(d, s, n); }, "Mat2 transform array");
}
template <class R> void m3(Case& c) {
	Mat3<R> m = gMat3<R>(c, "m"); Vec3<R> v = c.in("v", gVec3<R>(c.r)), o, w = v; RM<R> M = ref(m), T = tr(M);
	E<R> e[4];
	auto f = [&](const Vec3<R>& s, E<R>* q) { refOf(M, s, 3, -1, q); };
	f(v, e);
	rep(c, m * v, e, 3, "Mat3 * Vec3"); m.transform(o, v); rep(c, o, e, 3, "Mat3 transform"); o = v; m.transform(o, o); rep(c, o, e, 3, "Mat3 transform in place");
	refOf(T, v, 3, -1, e);
	rep(c, v * m, e, 3, "Vec3 * Mat3"); w *= m; rep(c, w, e, 3, "Vec3 *= Mat3");
	arrays<R, Vec3<R>>(c, 3, f, [&](Vec3<R>* d, const Vec3<R>* s, size_t n, size_t ds, size_t ss, bool st) { if (st) m.transform(d, s, n, ds, ss); else m.transform(d, s, n); }, "Mat3 transform array");
}
template <class R> void m34(Case& c) {
	Mat34<R> m = gMat34<R>(c, "m"); Vec3<R> v = c.in("v", gVec3<R>(c.r)), o; RM<R> M = ref(m);
	E<R> e[4];
	auto f = [&](const Vec3<R>& s, E<R>* q) { refOf(M, s, 3, 1, q); };
	f(v, e);
	rep(c, m * v, e, 3, "Mat34 * Vec3"); m.transform(o, v); rep(c, o, e, 3, "Mat34 transform"); o = v; m.transform(o, o); rep(c, o, e, 3, "Mat34 transform in place");
	arrays<R, Vec3<R>>(c, 3, f, [&](Vec3<R>* d, const Vec3<R>* s, size_t n, size_t ds, size_t ss, bool st) { if (st) m.transform(d, s, n, ds, ss); else m.transform(d, s, n); }, "Mat34 transform array");
}
template <class R> void m4(Case& c) {
	Mat4<R> m = gMat4<R>(c, "m"); Vec3<R> v = c.in("v", gVec3<R>(c.r)), o; Vec4<R> u = c.in("u", gVec4<R>(c.r)), p; RM<R> M = ref(m), D = M;
	for (int i = 0; i < 4; i++) D.a[i][3] = E<R>(0);
	E<R> e[4];
	auto f3 = [&](const Vec3<R>& s, E<R>* q) { refOf(M, s, 3, 1, q); };
	auto f4 = [&](const Vec4<R>& s, E<R>* q) { refOf(M, s, 4, -1, q); };
	auto g3 = [&](const Vec3<R>& s, E<R>* q) { refOf(M, s, 3, 0, q); };
	auto g4 = [&](const Vec4<R>& s, E<R>* q) { refOf(D, s, 4, -1, q); };
	f3(v, e); rep(c, m * v, e, 3, "Mat4 * Vec3"); m.transform(o, v); rep(c, o, e, 3, "Mat4 transform Vec3"); o = v; m.transform(o, o); rep(c, o, e, 3, "Mat4 transform Vec3 in place");
	f4(u, e); rep(c, m * u, e, 4, "Mat4 * Vec4"); m.transform(p, u); rep(c, p, e, 4, "Mat4 transform Vec4"); p = u; m.transform(p, p); rep(c, p, e, 4, "Mat4 transform Vec4 in place");
	g3(v, e); m.transformVector(o, v); rep(c, o, e, 3, "Mat4 transformVector Vec3"); o = v; m.transformVector(o, o); rep(c, o, e, 3, "Mat4 transformVector Vec3 in place");
	g4(u, e); m.transformVector(p, u); rep(c, p, e, 4, "Mat4 transformVector Vec4"); p = u; m.transformVector(p, p); rep(c, p, e, 4, "Mat4 transformVector Vec4 in place");
	switch (c.r.n(4)) {
	case 0: arrays<R, Vec3<R>>(c, 3, f3, [&](Vec3<R>* d, const Vec3<R>* s, size_t n, size_t ds, size_t ss, bool st) { if (st) m.transform(d, s, n, ds, ss); else m.transform(d, s, n); }, "Mat4 transform Vec3 array"); break;
	case 1: arrays<R, Vec4<R>>(c, 4, f4, [&](Vec4<R>* d, const Vec4<R>* s, size_t n, size_t ds, size_t ss, bool st) { if (st) m.transform(d, s, n, ds, ss); else m.transform(d, s, n); }, "Mat4 transform Vec4 array"); break;
	case 2: arrays<R, Vec3<R>>(c, 3, g3, [&](Vec3<R>* d, const Vec3<R>* s, size_t n, size_t ds, size_t ss, bool st) { if (st) m.transformVector(d, s, n, ds, ss); else m.transformVector(d, s, n); }, "Mat4 transformVector Vec3 array"); break;
	default: arrays<R, Vec4<R>>(c, 4, g4, [&](Vec4<R>* d, const Vec4<R>* s, size_t n, size_t ds, size_t ss, bool st) { if (st) m.transformVector(d, s, n, ds, ss); else m.transformVector(d, s, n); }, "Mat4 transformVector Vec4 array"); break;
	}
}

void vf::registerAll() {
	VF_BOTH(m2, "mat2", 20000, "strided", "packed", "in place", "count 0", "count>1", "count>200", "src stride 0");
	VF_BOTH(m3, "mat3", 20000, "strided", "packed", "in place", "count 0", "count>1", "count>200", "src stride 0");
	VF_BOTH(m34, "mat34", 20000, "strided", "packed", "in place", "count 0", "count>1", "count>200", "src stride 0");
	VF_BOTH(m4, "mat4", 30000, "strided", "packed", "in place", "count 0", "count>1", "count>200", "src stride 0", "projective", "TRS");
}
VF_MAIN()
