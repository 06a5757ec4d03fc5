// Random expression graphs with a reference value for every node
#pragma once
#include "ops.hpp"

namespace dag {
using namespace nnet;

struct Ref { Dims d; Vec v; bool ok = true; };

enum Op { LEAF, SCAL, ADD, SUB, MUL, DIV, NEG, ABS, SIN, COS, EXP, POW, CLIP, LOG1, SQRT1, IDENT, SUM, SUMAX, MAXAX, MEAN, TRANS, MATMUL, FLIP, EXTEND, EQ, LESS, ROUND, NORM, FUSED, NOP };
static const char* const NAMES[] = {"leaf", "scalar", "+", "-", "*", "/", "neg", "abs", "sin", "cos", "exp", "pow", "clip", "log of abs plus one", "root of abs plus one", "identity", "sum", "sum along", "max along", "mean", "transpose", "matmul", "flip", "extend", "equal", "less", "round", "norm", "fused", ""};
typedef bool (*LessF)(double, double);

struct Expr
{
	Op op = LEAF;
	int a = -1, b = -1;    // operands; -1: the scalar k
	int c = -1;            // the third operand of a + b * c in one node
	double k = 0, k2 = 0;
	size_t ax = 0, m = 0;
	Dims d;                // shape the expression has
	bool simple = false;   // may have been replaced by one scalar standing for equal elements
	Vp node;
	size_t leaf = 0;       // for leaves
	bool depends_leaf = false;
	bool loose = false;    // part of it was replaced by a constant, so it may have a value early
	size_t depth = 0;
};
struct Leaf { Operand o; bool good; bool nonzero; };

inline Dims notail (Dims d) { while (d.size() > 1 && d.back() == 1) d.pop_back(); return d; }
inline Dims cut (Dims d, size_t axis)
{
	if (axis >= d.size()) return d;
	if (d.size() == 1) return Dims{1};
	if (axis == 0) d.erase(d.begin()); else if (axis + 1 == d.size()) d.pop_back(); else d[axis] = 1;
	return d;
}
inline double scalar_op (Op op, double x, double y)
{
	switch (op)
	{
		case ADD: return x + y; case SUB: return x - y; case MUL: return x * y; case DIV: return x / y;
		case EQ: return x == y; case LESS: return x < y; default: return 0;
	}
}
static bool less_f (double a, double b) { return a < b; }
// a node of the library's generic kind with three arguments: a + b * c
inline Vp fused_node (Node* a, Node* b, Node* c)
{
	return immutable<double>::get({a, b, c},
	[](std::vector<tensorshape> ts) -> tensorshape { tensorshape m = ts[0]; for (tensorshape& t : ts) if (t.n_elems() > m.n_elems()) m = t; return m; },
	new transfer_func<double>([](double* dest, std::vector<const double*> src, shape_io sh)
	{
		size_t n = sh.outs_.n_elems(); auto el = [&](size_t k, size_t j) { return src[k][sh.ins_[k].n_elems() == 1 ? 0 : j]; };
		for (size_t j = 0; j < n; ++j) dest[j] = el(0, j) + el(1, j) * el(2, j);
	}),
	[](std::vector<std::pair<Node*,Node*> > as) -> Vp { Vp ga = as[0].second, b = as[1].first, gb = as[1].second, c = as[2].first, gc = as[2].second; return ga + (gb * c + b * gc); }, "fused");
}

struct World
{
	Src& s; Pool pool;
	std::vector<Leaf> leaves;
	std::vector<Expr> ex;
	bool structural = true;      // reductions, transposes, products of matrices
	unsigned repeat = 1;         // chance (of 4) of picking an operand already used
	bool noconst = false;
	bool gradable = false;       // only operations whose derivative is checked
	bool rearrange = false;      // transposing and flipping
	unsigned fused = 0;          // chance (of 12) of a node with three arguments
	double limit = 1e4;
	World (Src& src) : s(src) {}

	Vec fresh (const Leaf& l)
	{
		Vec v(ref::prod(l.o.d));
		for (double& x : v) x = l.nonzero ? s.dyadic_nz(3, 4) : (s.flip(1, 8) ? (double) s.range(-1, 1) : s.dyadic(3, 4));
		return v;
	}
	size_t add_leaf (int kind, Dims l0, bool late, bool nonzero = false)
	{
		Leaf l; l.nonzero = nonzero; if (ref::prod(l0) == 1) l0 = Dims{1}; const Dims d = l0; l.good = !late || kind == 2; l.o.d = d;
		Vec v = fresh(l);
		if (kind == 2 && s.flip()) { double x = s.flip(1, 3) ? 0 : s.flip() ? 1 : -1; if (nonzero && x == 0) x = 2; for (double& e : v) e = x; }
		std::ostringstream nm; nm << "L" << leaves.size();
		l.o = pool.leaf(s, kind, d, v, nm.str(), !l.good);
		leaves.push_back(l);
		Expr e; e.op = LEAF; e.d = d; e.node = l.o.p; e.leaf = leaves.size() - 1; e.depends_leaf = kind != 2;
		ex.push_back(e);
		return ex.size() - 1;
	}
	void set_leaf (size_t i, const Vec& v)
	{
		Leaf& l = leaves[i];
		if (s.flip(1, 6))
		{
			// by restoring it
			Var* o = make_var(l.o.d, v, "tmp"); tenncor::tensor_proto proto; o->eval()->serialize(&proto); delete o;
			if (!l.o.p->read_proto(proto)) throw std::runtime_error("a leaf is not restored from data of its shape");
			l.o.v = v;
		}
		else Pool::fill(l.o, v);
		l.good = true;
	}

	bool is_const (int i) const { return dynamic_cast<constant<double>*>(ex[i].node.get()) != nullptr; }
	// value of every expression for the present contents of the leaves
	std::vector<Ref> reference (void) const
	{
		std::vector<Ref> r(ex.size());
		for (size_t i = 0; i < ex.size(); ++i) r[i] = one(i, r);
		return r;
	}
	Ref one (size_t i, const std::vector<Ref>& r) const
	{
		const Expr& e = ex[i]; Ref o; o.d = e.d;
		if (e.op == LEAF) { o.v = leaves[e.leaf].o.v; o.ok = leaves[e.leaf].good; return o; }
		static const Ref none;
		const Ref& A = e.a >= 0 ? r[e.a] : none; const Ref& B = e.b >= 0 ? r[e.b] : none;
		o.ok = (e.a < 0 || A.ok) && (e.b < 0 || B.ok) && (e.c < 0 || r[e.c].ok);
		if (!o.ok) return o;
		size_t n = ref::prod(e.d); o.v.resize(n);
		auto el = [](const Ref& x, size_t j) { return x.v.size() == 1 ? x.v[0] : x.v[j]; };
		auto un = [&](std::function<double(double)> f) { for (size_t j = 0; j < n; ++j) o.v[j] = f(A.v[j]); };
		switch (e.op)
		{
			case ADD: case SUB: case MUL: case DIV: case EQ: case LESS:
				for (size_t j = 0; j < n; ++j) o.v[j] = scalar_op(e.op, e.a < 0 ? e.k : el(A, j), e.b < 0 ? e.k : el(B, j));
				break;
			case FUSED: for (size_t j = 0; j < n; ++j) o.v[j] = el(A, j) + el(B, j) * el(r[e.c], j); break;
			case NEG: un([](double x) { return -x; }); break;
			case ABS: un([](double x) { return std::fabs(x); }); break;
			case SIN: un([](double x) { return std::sin(x); }); break;
			case COS: un([](double x) { return std::cos(x); }); break;
			case EXP: un([](double x) { return std::exp(x); }); break;
			case ROUND: un([](double x) { return std::round(x); }); break;
			case POW: un([&](double x) { return std::pow(x, e.k); }); break;
			case CLIP: un([&](double x) { return std::min(std::max(x, std::min(e.k, e.k2)), std::max(e.k, e.k2)); }); break;
			case LOG1: un([](double x) { return std::log(std::fabs(x) + 1); }); break;
			case SQRT1: un([](double x) { return std::sqrt(std::fabs(x) + 1); }); break;
			case IDENT: o.v = A.v; break;
			case SUM: o.v = Vec{std::accumulate(A.v.begin(), A.v.end(), 0.0)}; break;
			case MEAN: o.v = Vec{std::accumulate(A.v.begin(), A.v.end(), 0.0) / A.v.size()}; break;
			case NORM: o.v = Vec{std::sqrt(std::inner_product(A.v.begin(), A.v.end(), A.v.begin(), 0.0))}; break;
			case SUMAX: case MAXAX:
			{
				if (e.ax >= A.d.size()) { o.v = A.v; break; }
				size_t inner = 1; for (size_t j = 0; j < e.ax; ++j) inner *= A.d[j];
				size_t dim = A.d[e.ax];
				for (size_t j = 0; j < n; ++j)
				{
					size_t base = (j / inner) * inner * dim + j % inner; double x = A.v[base];
					for (size_t q = 1; q < dim; ++q) { double y = A.v[base + q * inner]; x = e.op == SUMAX ? x + y : std::max(x, y); }
					o.v[j] = x;
				}
				break;
			}
			case TRANS: case FLIP: o.v = moved(e, A.v, A.d); break;
			case EXTEND:
				for (size_t j = 0; j < n; ++j) { Dims co = ref::unflat(j, e.d); co[e.ax] %= A.d[e.ax]; o.v[j] = A.v[ref::flat(co, A.d)]; }
				break;
			case MATMUL:
			{
				size_t z = A.d[0], rows = A.d.size() > 1 ? A.d[1] : 1, cols = B.d[0];
				for (size_t y = 0; y < rows; ++y) for (size_t x = 0; x < cols; ++x)
				{
					double t = 0; for (size_t q = 0; q < z; ++q) t += A.v[q + z * y] * B.v[x + cols * q];
					o.v[x + cols * y] = t;
				}
				break;
			}
			default: break;
		}
		return o;
	}
	// elements of an expression of shape d moved as a transposition or a flip moves them
	static Vec moved (const Expr& e, const Vec& v, Dims in)
	{
		Vec o(v.size());
		if (v.size() == 1) return v;
		if (e.op == FLIP) { for (size_t j = 0; j < v.size(); ++j) { Dims co = ref::unflat(j, in); co[e.ax] = in[e.ax] - 1 - co[e.ax]; o[j] = v[ref::flat(co, in)]; } return o; }
		if (in.size() <= e.m) in.resize(e.m + 1, 1);
		Dims out = in; std::swap(out[e.ax], out[e.m]);
		for (size_t j = 0; j < v.size(); ++j) { Dims co = ref::unflat(j, in); std::swap(co[e.ax], co[e.m]); o[ref::flat(co, out)] = v[j]; }
		return o;
	}
	static bool sane (const Ref& r, double limit)
	{
		for (double x : r.v) if (!std::isfinite(x) || std::fabs(x) > limit) return false;
		return true;
	}
	bool sane (const std::vector<Ref>& r) const { for (const Ref& x : r) if (x.ok && !sane(x, limit)) return false; return true; }
	// directional derivative of every expression when one leaf moves along a direction
	std::vector<Vec> tangent (const std::vector<Ref>& r, size_t leaf, const Vec& dir) const
	{
		std::vector<Vec> t(ex.size());
		for (size_t i = 0; i < ex.size(); ++i)
		{
			const Expr& e = ex[i]; size_t n = ref::prod(e.d); Vec o(n, 0);
			if (e.op == LEAF) { t[i] = e.leaf == leaf ? dir : o; continue; }
			static const Vec nil; static const Ref none;
			const Vec& A = e.a >= 0 ? r[e.a].v : nil; const Vec& B = e.b >= 0 ? r[e.b].v : nil;
			const Vec& dA = e.a >= 0 ? t[e.a] : nil; const Vec& dB = e.b >= 0 ? t[e.b] : nil;
			auto el = [](const Vec& x, size_t j, double k) { return x.empty() ? k : x.size() == 1 ? x[0] : x[j]; };
			if (e.op == TRANS || e.op == FLIP) { t[i] = moved(e, dA, r[e.a].d); continue; }
			for (size_t j = 0; j < n && e.op != SUM && e.op != MEAN && e.op != NORM; ++j)
			{
				double a = el(A, j, e.k), b = el(B, j, e.k), da = el(dA, j, 0), db = el(dB, j, 0);
				switch (e.op)
				{
					case ADD: o[j] = da + db; break;
					case SUB: o[j] = da - db; break;
					case MUL: o[j] = da * b + a * db; break;
					case DIV: o[j] = (da * b - a * db) / (b * b); break;
					case FUSED: o[j] = da + db * el(r[e.c].v, j, 0) + b * el(t[e.c], j, 0); break;
					case NEG: o[j] = -da; break;
					case ABS: o[j] = a < 0 ? -da : da; break;
					case SIN: o[j] = std::cos(a) * da; break;
					case COS: o[j] = -std::sin(a) * da; break;
					case EXP: o[j] = std::exp(a) * da; break;
					case POW: o[j] = e.k == 0 ? 0 : e.k * std::pow(a, e.k - 1) * da; break;
					case LOG1: o[j] = (a < 0 ? -da : da) / (std::fabs(a) + 1); break;
					case SQRT1: o[j] = (a < 0 ? -da : da) / (2 * std::sqrt(std::fabs(a) + 1)); break;
					case IDENT: o[j] = da; break;
					default: std::abort();
				}
			}
			if (e.op == NORM) o[0] = std::inner_product(A.begin(), A.end(), dA.begin(), 0.0) / r[i].v[0];
			if (e.op == SUM || e.op == MEAN) o[0] = std::accumulate(dA.begin(), dA.end(), 0.0) / (e.op == MEAN ? dA.size() : 1);
			t[i] = o;
		}
		return t;
	}
	// some absolute value is taken of something close to zero
	bool kinked (const std::vector<Ref>& r) const
	{
		for (const Expr& e : ex) 
		{
			if (e.op == ABS || e.op == LOG1 || e.op == SQRT1) for (double x : r[e.a].v) if (std::fabs(x) < 1e-3) return true;
			if (e.op == NORM && r[&e - &ex[0]].v[0] < 1e-3) return true;
		}
		return false;
	}
	size_t lo = 0;               // operands are taken from here on
	size_t pick_operand (void)
	{
		size_t n = ex.size() - lo;
		if (s.flip(1, 3)) return ex.size() - 1 - s.below(std::min<size_t>(n, 3));
		return lo + s.below(n);
	}
	static bool elementwise_fit (const Dims& a, const Dims& b) { return a == b || ref::prod(a) == 1 || ref::prod(b) == 1; }
	// an operand that is never zero: a nonzero leaf or a positive expression
	int denominator (const Dims& d)
	{
		std::vector<int> c;
		for (size_t i = lo; i < ex.size(); ++i)
			if (((ex[i].op == LEAF && leaves[ex[i].leaf].nonzero) || ex[i].op == SQRT1) && elementwise_fit(d, ex[i].d)) c.push_back((int) i);
		return c.empty() ? -1 : c[s.below(c.size())];
	}
	std::string describe (size_t i) const
	{
		const Expr& e = ex[i]; std::ostringstream o;
		o << "n" << i << show(e.d) << " = ";
		auto arg = [&](int a) { std::ostringstream q; if (a < 0) q << e.k; else q << "n" << a; return q.str(); };
		switch (e.op)
		{
			case LEAF: o << kind_name(leaves[e.leaf].o.kind) << (leaves[e.leaf].good ? " " + show(leaves[e.leaf].o.v) : std::string(" without data")); break;
			case ADD: case SUB: case MUL: case DIV: case EQ: case LESS: case MATMUL: o << arg(e.a) << " " << NAMES[e.op] << " " << arg(e.b); break;
			case FUSED: o << arg(e.a) << " + " << arg(e.b) << " * " << arg(e.c) << " in one node"; break;
			case POW: o << "n" << e.a << " to the " << e.k; break;
			case CLIP: o << "n" << e.a << " clipped to " << e.k << " " << e.k2; break;
			case SUMAX: case MAXAX: case FLIP: o << NAMES[e.op] << " axis " << e.ax << " of n" << e.a; break;
			case TRANS: o << "axes " << e.ax << " and " << e.m << " of n" << e.a << " transposed"; break;
			case EXTEND: o << "n" << e.a << " " << e.m << " times along axis " << e.ax; break;
			default: o << NAMES[e.op] << " n" << e.a;
		}
		return o.str();
	}
	// one more expression over the ones there are; false if the drawn operation does not apply
	bool grow (void)
	{
		Expr e; e.a = (int) pick_operand();
		Expr A = ex[e.a]; if (!A.node.get()) return false;
		e.d = A.d; e.depends_leaf = A.depends_leaf; e.simple = A.simple && ref::prod(A.d) > 1;
		static const Op elem[] = {ADD, SUB, MUL, DIV, ADD, SUB, MUL, NEG, ABS, SIN, COS, EXP, POW, CLIP, LOG1, SQRT1, IDENT, ROUND, EQ, LESS};
		static const Op grad[] = {ADD, SUB, MUL, DIV, ADD, SUB, MUL, NEG, SIN, COS, EXP, POW, LOG1, SQRT1, ABS};
		static const Op str[] = {SUM, SUMAX, MAXAX, MEAN, NORM, TRANS, MATMUL, MATMUL, FLIP, EXTEND};
		if (structural && s.flip(1, 4)) e.op = str[s.below(sizeof(str) / sizeof(*str))];
		else if (rearrange && s.flip(1, 3)) e.op = s.flip() ? TRANS : FLIP;
		else if (structural && s.flip(1, 3) && (ex.back().op == TRANS || ex.back().op == FLIP)) { e.a = (int) ex.size() - 1; A = ex[e.a]; if (!A.node.get()) return false; e.d = A.d; e.depends_leaf = A.depends_leaf; e.simple = A.simple && ref::prod(A.d) > 1; e.op = A.op; }
		else if (gradable) e.op = grad[s.below(sizeof(grad) / sizeof(*grad))];
		else e.op = elem[s.below(sizeof(elem) / sizeof(*elem))];
		if (fused && s.flip(fused, 12)) e.op = FUSED;
		bool rounded = (e.op == ROUND || e.op == EQ || e.op == LESS);
		if (rounded && A.op != LEAF) return false;   // discontinuous: only over exact values
		double ks[] = {0, 1, -1, 2, 0.5, -3, 1.25};
		Vp a = A.node;
		switch (e.op)
		{
			case ADD: case SUB: case MUL: case DIV: case EQ: case LESS:
			{
				size_t how = s.weighted({5, 2, 2}); // node, scalar on the right, scalar on the left
				if (how == 0 || e.op == EQ)
				{
					if (e.op == DIV && !s.flip(1, 4)) { e.b = denominator(A.d); if (e.b < 0) return false; }
					else e.b = s.flip(repeat, 4) ? e.a : (int) pick_operand();
					Expr B = ex[e.b]; if (!B.node.get()) return false;
					if (!elementwise_fit(A.d, B.d)) return false;
					if (e.op == DIV && e.b == e.a && !((A.op == LEAF && leaves[A.leaf].nonzero) || A.op == SQRT1)) return false;
					if (e.op == DIV && e.b != e.a && !((B.op == LEAF && leaves[B.leaf].nonzero) || B.op == SQRT1)) return false;
					if ((e.op == EQ || e.op == LESS) && B.op != LEAF) return false;
					e.d = ref::prod(A.d) == 1 ? B.d : A.d;
					if (ref::prod(A.d) == 1 && ref::prod(B.d) == 1 && (A.d.size() > 1 || B.d.size() > 1)) return false; // which of two one-element shapes results is not specified
					e.depends_leaf = A.depends_leaf || B.depends_leaf;
					Vp b = B.node;
					switch (e.op) { case ADD: e.node = a + b; break; case SUB: e.node = a - b; break; case MUL: e.node = a * b; break; case DIV: e.node = a / b; break;
						case EQ: e.node = eq<double>(a, b); break; default: e.node = conditional<double>(a, b, less_f, "lt"); }
					e.simple = ref::prod(e.d) > 1 && (A.simple || ref::prod(A.d) == 1) && (B.simple || ref::prod(B.d) == 1);
				}
				else if (how == 1)
				{
					e.b = -1; e.k = ks[s.below(7)]; if (e.op == DIV && e.k == 0) e.k = 2;
					switch (e.op) { case ADD: e.node = a + e.k; break; case SUB: e.node = a - e.k; break; case MUL: e.node = a * e.k; break; case DIV: e.node = a / e.k; break;
						default: e.node = conditional<double>(a, e.k, less_f, "lt"); }
				}
				else
				{
					if (e.op == DIV && !((A.op == LEAF && leaves[A.leaf].nonzero) || A.op == SQRT1)) return false;
					e.b = e.a; e.a = -1; e.k = ks[s.below(7)];
					switch (e.op) { case ADD: e.node = e.k + a; break; case SUB: e.node = e.k - a; break; case MUL: e.node = e.k * a; break; case DIV: e.node = e.k / a; break;
						default: e.node = conditional<double>(e.k, a, less_f, "lt"); }
				}
				break;
			}
			case FUSED:
			{
				e.b = (int) pick_operand(); e.c = (int) pick_operand(); const Expr& B = ex[e.b]; const Expr& C = ex[e.c]; if (!B.node.get() || !C.node.get() || B.d != A.d || C.d != A.d) return false;
				e.depends_leaf = A.depends_leaf || B.depends_leaf || C.depends_leaf; e.simple = ref::prod(A.d) > 1 && A.simple && B.simple && C.simple;
				e.node = fused_node(a.get(), B.node.get(), C.node.get()); break;
			}
			case NEG: e.node = -a; break;
			case ABS: e.node = +a; break;
			case SIN: e.node = sin<double>(a); break;
			case COS: e.node = cos<double>(a); break;
			case EXP: e.node = exp<double>(a); break;
			case ROUND: e.node = round<double>(a); break;
			case POW: e.k = (double) s.range(0, 3); e.node = pow<double>(a, e.k); break;
			case CLIP: e.k = s.dyadic(3, 2); e.k2 = s.dyadic(3, 2); e.node = clip_val<double>(a, e.k, e.k2); break;
			case LOG1: { Vp t = (+a) + 1.0; e.node = log<double>(t); break; }
			case SQRT1: { Vp t = (+a) + 1.0; e.node = sqrt<double>(t); break; }
			case IDENT: e.node = identity<double>(a); break;
			default:
				if (A.simple) return false; // sums of stand-ins are a known finding
				switch (e.op)
				{
					case SUM: e.d = Dims{1}; e.node = reduce_sum<double>(a); break;
					case MEAN: e.d = Dims{1}; e.node = reduce_mean<double>(a); break;
					case NORM: e.d = Dims{1}; e.node = l2norm<double>(a); break;
					case SUMAX: case MAXAX:
					{
						e.ax = s.below(A.d.size()); e.d = cut(A.d, e.ax); optional<size_t> x = e.ax;
						e.node = e.op == SUMAX ? reduce_sum<double>(a, x) : reduce_max<double>(a, x);
						break;
					}
					case TRANS:
					{
						static const size_t ax[3][2] = {{0, 1}, {0, 2}, {1, 2}}; size_t w = s.flip() ? 0 : s.below(3); e.ax = ax[w][0]; e.m = ax[w][1];
						if (e.d.size() <= e.m) e.d.resize(e.m + 1, 1);
						std::swap(e.d[e.ax], e.d[e.m]); e.d = notail(e.d);
						e.node = s.flip() ? transpose<double>(a, {e.ax, e.m}) : transpose<double>(a, {e.m, e.ax}); break;
					}
					case FLIP: e.ax = s.below(A.d.size()); e.node = flip<double>(a, {e.ax}); break;
					case EXTEND:
						e.ax = s.below(A.d.size()); e.m = 2 + s.below(2); e.d[e.ax] *= e.m; if (ref::prod(e.d) > 96) return false;
						e.node = extend<double>(a, e.ax, e.m); break;
					case MATMUL:
					{
						e.b = (int) pick_operand(); const Expr& B = ex[e.b]; if (!B.node.get()) return false;
						size_t brows = B.d.size() > 1 ? B.d[1] : 1;
						if (B.simple || A.d.size() > 2 || B.d.size() > 2 || A.d[0] != brows) return false;
						e.depends_leaf = A.depends_leaf || B.depends_leaf;
						e.d = Dims{B.d[0], A.d.size() > 1 ? A.d[1] : 1};
						e.node = matmul<double>(a, B.node); break;
					}
					default: return false;
				}
		}
		if (e.a >= 0) e.depth = ex[e.a].depth + 1;
		if (e.b >= 0) e.depth = std::max(e.depth, ex[e.b].depth + 1);
		if (e.c >= 0) e.depth = std::max(e.depth, ex[e.c].depth + 1);
		if (constant<double>* k = dynamic_cast<constant<double>*>(e.node.get()))
			e.simple = ref::prod(e.d) > 1 && k->get_shape().n_elems() == 1;
		e.loose = dynamic_cast<constant<double>*>(e.node.get()) || (e.a >= 0 && ex[e.a].loose) || (e.b >= 0 && ex[e.b].loose) || (e.c >= 0 && ex[e.c].loose);
		ex.push_back(e);
		return true;
	}
	// a sum, mean or norm over all elements of an expression
	bool reduce (size_t i, Op op)
	{
		Expr A = ex[i]; if (A.simple) return false;
		Expr e; e.op = op; e.a = (int) i; e.d = Dims{1}; e.depends_leaf = A.depends_leaf; e.loose = A.loose;
		e.node = op == MEAN ? reduce_mean<double>(A.node) : op == NORM ? l2norm<double>(A.node) : reduce_sum<double>(A.node);
		ex.push_back(e);
		return true;
	}
	void undo (void) { ex.pop_back(); }
	// compare the value the library gives for an expression
	void check (Ctx& c, size_t i, const std::vector<Ref>& r, Node* n = nullptr, const char* what = "")
	{
		const Expr& e = ex[i]; const Ref& w = r[i];
		std::ostringstream nm; nm << what << "n" << i << " (" << describe(i) << ")";
		Val g = value_of(n ? n : e.node.get());
		if (!w.ok)
		{
			P_CHECK(c, g.v.empty() || e.loose, nm.str() << " has the value " << show(g) << " though something it depends on has no data");
			return;
		}
		P_CHECK(c, !g.v.empty(), nm.str() << " has no value, expected " << show(w.d) << "=" << show(w.v));
		if (g.v.size() == 1 && w.v.size() > 1)
		{
			for (double x : w.v) P_CHECK(c, close_to(g.v[0], x, 1e-8, 1e-7), nm.str() << " is the scalar " << g.v[0] << ", expected " << show(w.v));
			return;
		}
		P_CHECK(c, close_to(g.v, w.v, 1e-8, 1e-7), nm.str() << " is " << show(g) << ", expected " << show(w.d) << "=" << show(w.v));
		P_CHECK(c, notail(g.d) == notail(w.d) || w.v.size() == 1, nm.str() << " has shape " << show(g.d) << ", expected " << show(w.d));
	}
};

} // namespace dag
