// C32: gradients of layered networks (chains of matrix products, biases and activations)
#include "ops.hpp"
using namespace nnet;

struct Du { double v, d; };
static Du operator + (Du a, Du b) { return {a.v + b.v, a.d + b.d}; }
static Du operator - (Du a, Du b) { return {a.v - b.v, a.d - b.d}; }
static Du operator * (Du a, Du b) { return {a.v * b.v, a.d * b.v + a.v * b.d}; }

// columns x rows matrix of values with a direction
struct M { size_t cols, rows; std::vector<Du> e; Du& at (size_t r, size_t c) { return e[r * cols + c]; } const Du& at (size_t r, size_t c) const { return e[r * cols + c]; } };
static M product (const M& a, const M& b)
{
	M r{b.cols, a.rows, std::vector<Du>(b.cols * a.rows, Du{0, 0})};
	for (size_t i = 0; i < r.rows; ++i) for (size_t j = 0; j < r.cols; ++j) for (size_t z = 0; z < a.cols; ++z) r.at(i, j) = r.at(i, j) + a.at(i, z) * b.at(z, j);
	return r;
}
static M turned (const M& a)
{
	M r{a.rows, a.cols, std::vector<Du>(a.e.size())};
	for (size_t i = 0; i < a.rows; ++i) for (size_t j = 0; j < a.cols; ++j) r.at(j, i) = a.at(i, j);
	return r;
}
enum Act { NONE, SIGM, TANH, SINE, SQUARE, EXPO, NACT };
static Du act (Act a, Du x)
{
	switch (a)
	{
		case SIGM: { double y = 1 / (1 + std::exp(-x.v)); return {y, y * (1 - y) * x.d}; }
		case TANH: { double y = std::tanh(x.v); return {y, (1 - y * y) * x.d}; }
		case SINE: return {std::sin(x.v), std::cos(x.v) * x.d};
		case SQUARE: return {x.v * x.v, 2 * x.v * x.d};
		case EXPO: { double y = std::exp(x.v); return {y, y * x.d}; }
		default: return x;
	}
}
static Vp act (Act a, Vp x)
{
	switch (a)
	{
		case SIGM: return sigmoid<double>(x); case TANH: return nnet::tanh<double>(x); case SINE: return nnet::sin<double>(x);
		case SQUARE: return nnet::pow<double>(x, 2); case EXPO: return nnet::exp<double>(x); default: return x;
	}
}
static const char* const ACTS[] = {"none", "sigmoid", "tanh", "sin", "square", "exp"};
struct Layer { bool left, turn, hturn; int bias; Act f; size_t w, b; size_t in, out; };

static void net (Ctx& c)
{
	Src& s = c.s; Pool pool;
	size_t batch = s.sz(1, 3), K = s.sz(1, 3);
	std::vector<Operand> leaf; std::vector<Dims> rc; // leaves and their (rows, cols)
	auto add = [&](size_t rows, size_t cols, int kind, const char* nm, bool flat = false)
	{
		Dims d{cols}; if (!flat) d.push_back(rows);
		Vec v(rows * cols); for (double& x : v) x = s.dyadic_nz(1, 8) + (s.flip() ? 0.0625 : 0);
		std::ostringstream q; q << nm << leaf.size();
		leaf.push_back(pool.leaf(s, kind, d, v, q.str())); rc.push_back(Dims{rows, cols});
		return leaf.size() - 1;
	};
	size_t rows = batch, cols = s.sz(1, 3);
	size_t x = add(rows, cols, (int) s.weighted({1, 3, 1}), "x");
	Vp h = leaf[x].p;
	std::vector<Layer> ls; bool late_derive = false;
	for (size_t k = 0; k < K; ++k)
	{
		Layer l; l.left = s.flip(1, 5); l.turn = s.flip(1, 4); l.f = (Act) s.below(NACT);
		size_t other = s.sz(1, 3);
		l.hturn = s.flip(1, 5); if (l.hturn) std::swap(rows, cols); // what goes in, transposed
		size_t wr = l.left ? other : cols, wc = l.left ? rows : other; // as used in the product
		l.w = add(l.turn ? wc : wr, l.turn ? wr : wc, 0, "w");
		h = l.left ? matmul<double>(leaf[l.w].p, h, l.turn, l.hturn) : matmul<double>(h, leaf[l.w].p, l.hturn, l.turn);
		if (l.left) rows = other; else cols = other;
		l.bias = (int) s.weighted({2, 2, 3}); l.b = 0;
		if (l.bias == 1) { l.b = add(rows, cols, 0, "b"); h = h + leaf[l.b].p; }
		if (l.bias == 2) { l.b = add(1, cols, 0, "b", true); h = add_axial_b<double>(h, leaf[l.b].p, 1); }
		h = act(l.f, h);
		P_LOG(c, "layer " << (l.left ? "w*h" : "h*w") << (l.turn ? " (w transposed)" : "") << (l.hturn ? " (h transposed)" : "") << (l.bias == 0 ? "" : l.bias == 1 ? " + bias" : " + bias per column") << ", " << ACTS[l.f] << " -> " << rows << " rows, " << cols << " columns");
		ls.push_back(l);
	}
	int loss = (int) s.below(4); size_t t = 0;
	if (loss >= 1) { t = add(rows, cols, 1, "t"); Vp diff = h - leaf[t].p; h = nnet::pow<double>(diff, 2); }
	if (loss == 2) h = reduce_sum<double>(h);
	if (loss == 3) h = reduce_mean<double>(h);
	const char* ln[] = {"plain output", "squared error", "summed squared error", "mean squared error"};
	P_LOG(c, ln[loss]); c.label(ln[loss]); c.label(K == 1 ? "one layer" : "several layers");
	std::vector<size_t> vars; std::vector<Vp> grads;
	for (size_t i = 0; i < leaf.size(); ++i) if (leaf[i].kind == 0) vars.push_back(i);
	s.shuffle(vars);
	for (size_t i : vars) grads.push_back(h->derive(leaf[i].p.get()));
	bool far = false; // the activations of the library overflow far from zero
	auto forward = [&](size_t moved, size_t elem)
	{
		std::vector<M> m;
		for (size_t i = 0; i < leaf.size(); ++i)
		{
			M q{rc[i][1], rc[i][0], {}};
			for (size_t j = 0; j < leaf[i].v.size(); ++j) q.e.push_back(Du{leaf[i].v[j], i == moved && j == elem ? 1.0 : 0.0});
			m.push_back(q);
		}
		M cur = m[x];
		for (const Layer& l : ls)
		{
			M w = l.turn ? turned(m[l.w]) : m[l.w];
			if (l.hturn) cur = turned(cur);
			cur = l.left ? product(w, cur) : product(cur, w);
			if (l.bias) for (size_t i = 0; i < cur.rows; ++i) for (size_t j = 0; j < cur.cols; ++j) cur.at(i, j) = cur.at(i, j) + (l.bias == 1 ? m[l.b].at(i, j) : m[l.b].at(0, j));
			for (Du& e : cur.e) { far = far || std::fabs(e.v) > 100; e = act(l.f, e); }
		}
		if (loss) for (size_t j = 0; j < cur.e.size(); ++j) { Du q = cur.e[j] - m[t].e[j]; cur.e[j] = q * q; }
		Du r{0, 0}; for (const Du& e : cur.e) r = r + e;
		if (loss == 3) { r.v /= cur.e.size(); r.d /= cur.e.size(); }
		return r;
	};
	for (size_t round = s.sz(1, 3); round > 0; --round)
	{
		if (late_derive) for (Operand& o : leaf) if (o.kind != 2 && s.flip()) { Vec v(o.v.size()); for (double& e : v) e = s.dyadic_nz(1, 8); Pool::fill(o, v); }
		late_derive = true;
		for (Operand& o : leaf) P_LOG(c, o.p->get_label() << " = " << show(o.v));
		if (std::fabs(forward(leaf.size(), 0).v) > 1e6 || far) break;
		for (size_t k = 0; k < vars.size(); ++k)
		{
			size_t i = vars[k];
			Vec want; double mx = 1;
			for (size_t j = 0; j < leaf[i].v.size(); ++j) { want.push_back(forward(i, j).d); mx = std::max(mx, std::fabs(want.back())); }
			Val g = value_of(grads[k].get());
			if (g.v.size() == 1 && want.size() > 1) g.v.assign(want.size(), g.v[0]);
			P_CHECK(c, close_to(g.v, want, 1e-7, 1e-8 * mx), "the gradient by " << leaf[i].p->get_label() << " is " << show(g) << ", expected " << show(leaf[i].d) << "=" << show(want));
			for (double e : want) if (e != 0) c.nontrivial();
		}
	}
}

// one weight reaching the output through several branches that are added up
static void branches (Ctx& c)
{
	Src& s = c.s; Pool pool; size_t n = s.sz(1, 3);
	auto fresh = [&] { Vec v(n * n); for (double& x : v) x = s.dyadic_nz(1, 8); return v; };
	Operand w = pool.leaf(s, 0, Dims{n, n}, fresh(), "w"), x = pool.leaf(s, (int) s.below(2), Dims{n, n}, fresh(), "x"), y = pool.leaf(s, 1, Dims{n, n}, fresh(), "y");
	struct Term { bool plain, left, other; Act f, g; bool two; int deep; double k; };
	std::vector<Term> ts; Vp out;
	for (size_t k = s.sz(1, 3); k > 0; --k)
	{
		Term t; t.plain = s.flip(1, 5); t.left = s.flip(); t.other = s.flip(); t.f = (Act) s.sz(1, NACT - 1); t.g = (Act) s.sz(1, NACT - 1); t.two = s.flip(1, 3); t.deep = (int) s.weighted({3, 1, 1}); t.k = s.flip() ? 1 : s.dyadic_nz(2, 2);
		Vp in = t.other ? y.p : x.p; Vp P = t.plain ? Vp(w.p) : t.left ? matmul<double>(w.p, in) : matmul<double>(in, w.p);
		Vp q = act(t.f, P); if (t.two) q = q * act(t.g, P);
		if (t.deep) q = act(t.g, t.deep == 1 ? matmul<double>(q, y.p) : matmul<double>(y.p, q));
		q = q * t.k;
		out = out.get() ? out + q : q; ts.push_back(t);
		P_LOG(c, "term " << t.k << " * " << ACTS[t.f] << (t.plain ? "(w)" : std::string(t.left ? "(w*" : "(") + (t.other ? "y" : "x") + (t.left ? ")" : "*w)")) << (t.two ? std::string(" * ") + ACTS[t.g] + " of the same" : "") << (t.deep ? std::string(t.deep == 1 ? ", times y, " : ", y times that, ") + ACTS[t.g] : ""));
	}
	Vp g = out->derive(w.p.get());
	for (size_t r = s.sz(1, 2); r > 0; --r)
	{
		P_LOG(c, "w=" << show(w.v) << " x=" << show(x.v) << " y=" << show(y.v));
		Vec want; double mx = 1;
		for (size_t j = 0; j < n * n; ++j)
		{
			auto mat = [&](const Vec& v, bool mv) { M q{n, n, {}}; for (size_t i = 0; i < v.size(); ++i) q.e.push_back(Du{v[i], mv && i == j ? 1.0 : 0.0}); return q; };
			M W = mat(w.v, true), X = mat(x.v, false), Y = mat(y.v, false); double sum = 0;
			for (const Term& t : ts)
			{
				M P = t.plain ? W : t.left ? product(W, t.other ? Y : X) : product(t.other ? Y : X, W);
				for (Du& e : P.e) { Du q = act(t.f, e); if (t.two) q = q * act(t.g, e); e = q; }
				if (t.deep) { P = t.deep == 1 ? product(P, Y) : product(Y, P); for (Du& e : P.e) e = act(t.g, e); }
				for (Du e : P.e) sum += e.d * t.k;
			}
			want.push_back(sum); mx = std::max(mx, std::fabs(sum));
		}
		Val v = value_of(g.get());
		if (v.v.size() == 1 && want.size() > 1) v.v.assign(want.size(), v.v[0]);
		P_CHECK(c, close_to(v.v, want, 1e-7, 1e-8 * mx), "the gradient by w is " << show(v) << ", expected " << show(want));
		Pool::fill(w, fresh()); if (s.flip()) Pool::fill(y, fresh());
	}
	c.label("branches"); c.nontrivial();
}

// ---- known findings
static void reused_weight (Ctx& c)
{
	Pool pool; Src& s = c.s;
	Operand x = pool.leaf(s, 1, Dims{2, 2}, Vec{1, 2, 3, 4}, "x"), w = pool.leaf(s, 0, Dims{2, 2}, Vec{1, 0.5, -1, 2}, "w");
	Vp out = matmul<double>(matmul<double>(x.p, w.p), w.p);
	Val g = value_of(out->derive(w.p.get()).get());
	P_CHECK(c, close_to(g.v, Vec{4, 2, 23, 20}), "the gradient of x*w*w by w is " << show(g.v) << ", expected [4,2,23,20]");
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C32";
	p.rule = "random networks of 1..3 layers (matrix product with the weights on either side, either operand transposed or not; bias of the full shape or per column; six activations), with plain output or squared error, summed, averaged or not; the gradient by every weight, bias and variable input compared with forward-mode differentiation of the summed output for 1..3 contents; non-trivial: a gradient that is not zero";
	p.facets = {{"net", net, 4}, {"branches", branches, 1}};
	p.known = {
		{"weight-used-twice", reused_weight, "the gradient by a weight that enters several matrix products which are multiplied with each other (or with the weight) is wrong"}};
	p.quick = 10000; p.thorough = 250000; p.batch = 100;
	p.assumptions = {"tolerance 1e-7 relative to the largest element of a gradient", "contents with an activation offered a value beyond 100 are left out (the activations overflow)"};
	return pbt::harness_main(argc, argv, {p});
}
