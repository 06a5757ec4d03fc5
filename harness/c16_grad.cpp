// C16: derivatives of elementwise expressions and of losses over them
#include "dag.hpp"
using namespace dag;

static void compare (Ctx& c, const std::string& what, const Val& g, const Dims& d, const Vec& want)
{
	double m = 1; for (double x : want) m = std::max(m, std::fabs(x));
	P_CHECK(c, !g.v.empty(), what << " has no value");
	for (double x : want) if (!std::isfinite(x)) return;
	if (g.v.size() == 1 && want.size() > 1)
	{
		for (double x : want) P_CHECK(c, close_to(g.v[0], x, 1e-7, 1e-7 * m), what << " is the scalar " << g.v[0] << ", expected " << show(want));
		return;
	}
	P_CHECK(c, close_to(g.v, want, 1e-7, 1e-7 * m), what << " is " << show(g) << ", expected " << show(d) << "=" << show(want));
	P_CHECK(c, g.v.size() == 1 || notail(g.d) == notail(d), what << " has shape " << show(g.d) << ", expected " << show(d));
}

static void run (Ctx& c, bool losses, bool moving = false)
{
	Src& s = c.s; World w(s); w.structural = false; w.gradable = true; w.limit = 200; w.rearrange = moving; w.fused = s.below(3);
	Dims d{s.sz(1, 3)}; if (s.flip(moving ? 2 : 1, 3)) d.push_back(s.sz(1, 3)); if (moving && d.size() == 2 && s.flip(1, 3)) d.push_back(s.sz(1, 3));
	size_t n = ref::prod(d); if (n == 1) d = Dims{1};
	for (size_t k = s.sz(1, 4); k > 0; --k)
	{
		int kind = k == 1 ? 0 : (int) s.weighted({4, 2, 2});
		w.add_leaf(kind, kind != 0 && s.flip(1, 4) ? Dims{1} : d, s.flip(1, 6), s.flip());
	}
	for (size_t i = 0; i < w.leaves.size(); ++i) P_LOG(c, w.describe(i));
	auto grow = [&]
	{
		if (!w.grow()) return;
		Expr e = w.ex.back(); std::vector<Ref> r = w.reference();
		if (r.back().ok && !World::sane(r.back(), w.limit)) { w.undo(); return; }
		P_LOG(c, w.describe(w.ex.size() - 1)); c.label(NAMES[e.op]);
	};
	for (size_t k = s.sz(2, 8); k > 0; --k) grow();
	size_t first = w.leaves.size();
	if (losses)
	{
		size_t mark = w.ex.size();
		for (size_t k = s.sz(1, 3); k > 0; --k) if (w.reduce(s.below(mark), (Op[]) {SUM, MEAN, SUM, MEAN, NORM}[s.below(5)])) { P_LOG(c, w.describe(w.ex.size() - 1)); }
		if (w.ex.size() == mark) return;
		w.lo = first = mark;
		for (size_t k = s.below(4); k > 0; --k) grow();
	}
	// derivative nodes, some asked for before there is data
	struct G { size_t of, leaf; Vp g; };
	std::vector<G> gs;
	for (size_t k = s.sz(1, 5); k > 0; --k)
	{
		G g; g.of = s.flip() ? w.ex.size() - 1 : first + s.below(w.ex.size() - first);
		if (g.of >= w.ex.size() || g.of < first) g.of = w.ex.size() - 1;
		g.leaf = s.below(w.leaves.size()); if (w.leaves[g.leaf].o.kind != 0) g.leaf = w.leaves.size() - 1;
		P_LOG(c, "derive n" << g.of << " by L" << g.leaf);
		g.g = w.ex[g.of].node->derive(w.leaves[g.leaf].o.p.get());
		P_CHECK(c, g.g.get() != nullptr, "no derivative node");
		gs.push_back(g);
	}
	size_t compared = 0;
	for (size_t round = s.sz(1, 3); round > 0; --round)
	{
		for (size_t i = 0; i < w.leaves.size(); ++i)
			if (!w.leaves[i].good || (round > 1 && w.leaves[i].o.kind != 2 && s.flip()) || (compared && w.leaves[i].o.kind != 2 && s.flip()))
			{ w.set_leaf(i, w.fresh(w.leaves[i])); P_LOG(c, "L" << i << " := " << show(w.leaves[i].o.v)); }
		std::vector<Ref> r = w.reference();
		if (!w.sane(r) || w.kinked(r)) continue;
		for (const G& g : gs)
		{
			std::ostringstream nm; nm << "the derivative of n" << g.of << " (" << w.describe(g.of) << ") by L" << g.leaf;
			Vec want(n, 0);
			if (!losses || ref::prod(w.ex[g.of].d) == n)
			{
				if (ref::prod(w.ex[g.of].d) != n && n > 1) { continue; }
				if (ref::prod(w.ex[g.of].d) == n && (!losses || n == 1)) { std::vector<Vec> t = w.tangent(r, g.leaf, Vec(n, 1)); want = t[g.of]; }
			}
			if (losses && n > 1) for (size_t i = 0; i < n; ++i) { Vec dir(n, 0); dir[i] = 1; want[i] = w.tangent(r, g.leaf, dir)[g.of][0]; }
			compare(c, nm.str(), value_of(g.g.get()), moving ? w.ex[g.of].d : d, want); compared++;
			if (std::any_of(want.begin(), want.end(), [](double x) { return x != 0; })) c.nontrivial();
		}
	}
}
static void elementwise (Ctx& c) { run(c, false); }
static void losses (Ctx& c) { run(c, true); }
static void rearranged (Ctx& c) { run(c, false, true); }

// every unary function over its own domain
static void functions (Ctx& c)
{
	Src& s = c.s; Pool pool;
	struct F { const char* name; Vp (*f)(Vp); double (*d)(double); double lo, hi; };
	static const std::vector<F> FS = {
		{"tan", [](Vp a) { return tan<double>(a); }, [](double x) { return 1 / (std::cos(x) * std::cos(x)); }, -1.3, 1.3},
		{"csc", [](Vp a) { return csc<double>(a); }, [](double x) { return -std::cos(x) / (std::sin(x) * std::sin(x)); }, 0.3, 2.8},
		{"sec", [](Vp a) { return sec<double>(a); }, [](double x) { return std::sin(x) / (std::cos(x) * std::cos(x)); }, -1.3, 1.3},
		{"cot", [](Vp a) { return cot<double>(a); }, [](double x) { return -1 / (std::sin(x) * std::sin(x)); }, 0.3, 2.8},
		{"sqrt", [](Vp a) { return sqrt<double>(a); }, [](double x) { return 0.5 / std::sqrt(x); }, 0.1, 9},
		{"log", [](Vp a) { return log<double>(a); }, [](double x) { return 1 / x; }, 0.1, 9},
		{"sin", [](Vp a) { return sin<double>(a); }, [](double x) { return std::cos(x); }, -6, 6},
		{"cos", [](Vp a) { return cos<double>(a); }, [](double x) { return -std::sin(x); }, -6, 6},
		{"exp", [](Vp a) { return exp<double>(a); }, [](double x) { return std::exp(x); }, -4, 4},
		{"neg", [](Vp a) { return -a; }, [](double) { return -1.0; }, -4, 4},
		{"identity", [](Vp a) { return identity<double>(a); }, [](double) { return 1.0; }, -4, 4},
		{"abs", [](Vp a) { return +a; }, [](double x) { return x < 0 ? -1.0 : 1.0; }, -4, -0.1},
		{"sigmoid", [](Vp a) { return sigmoid<double>(a); }, [](double x) { double y = 1 / (1 + std::exp(-x)); return y * (1 - y); }, -4, 4},
		{"tanh", [](Vp a) { return tanh<double>(a); }, [](double x) { double y = std::tanh(x); return 1 - y * y; }, -3, 3},
	};
	const F& f = FS[s.below(FS.size())];
	Dims d{s.sz(1, 4)}; auto vals = [&] { Vec v(d[0]); for (double& x : v) x = s.real(f.lo, f.hi); return v; };
	Operand a = pool.leaf(s, 0, d, vals(), "a");
	bool affine = s.flip(); double k = affine ? s.dyadic_nz(2, 4) : 1;
	Vp out = f.f(a.p); if (affine) out = out * k;
	double pw = 0; bool power = s.flip(1, 6); if (power && f.lo > 0) { pw = s.dyadic(3, 2); out = pow<double>(a.p, pw); } else power = false;
	Vp g = out->derive(a.p.get());
	c.label(power ? "pow" : f.name);
	for (size_t r = s.sz(1, 3); r > 0; --r)
	{
		P_LOG(c, (power ? "power " + std::to_string(pw) : f.name) << " of " << show(a.v) << " times " << k);
		Vec w; for (double x : a.v) w.push_back(power ? pw * std::pow(x, pw - 1) : k * f.d(x));
		compare(c, std::string("the derivative of ") + (power ? "a power" : f.name), value_of(g.get()), d, w);
		Pool::fill(a, vals());
	}
	c.nontrivial();
}

// ---- known findings
static void sum_transposed (Ctx& c)
{
	Pool pool; Src& s = c.s;
	Operand w = pool.leaf(s, 0, Dims{2, 3}, Vec{1, 2, 3, 4, 5, 6}, "w"), k = pool.leaf(s, 1, Dims{3, 2}, Vec{1, 2, 3, 4, 5, 6}, "k");
	Vp out = reduce_sum<double>(transpose<double>(w.p) * k.p);
	Val g = value_of(out->derive(w.p.get()).get());
	P_CHECK(c, g.d == (Dims{2, 3}) && close_to(g.v, Vec{1, 4, 2, 5, 3, 6}), "the derivative of sum(transpose(w) * k) by w is " << show(g) << ", expected [2,3]=[1,4,2,5,3,6]");
}
static void own_sum (Ctx& c)
{
	Pool pool; Src& s = c.s;
	Operand x = pool.leaf(s, 0, Dims{3}, Vec{1, 2, 4}, "x");
	Val g = value_of(reduce_sum<double>(x.p * reduce_sum<double>(x.p))->derive(x.p.get()).get());
	P_CHECK(c, close_to(g.v, Vec{14, 14, 14}) || close_to(g.v, Vec{14}), "the derivative of sum(x * sum(x)) by x is " << show(g) << ", expected [3]=[14,14,14]");
}
static void spread_scalar (Ctx& c)
{
	Pool pool; Src& s = c.s;
	Operand x = pool.leaf(s, 1, Dims{3}, Vec{1, 2, 4}, "x"), b = pool.leaf(s, 0, Dims{1}, Vec{3}, "b");
	Val g = value_of(reduce_sum<double>(x.p * b.p)->derive(b.p.get()).get());
	P_CHECK(c, close_to(g.v, Vec{7}), "the derivative of sum(x * b) by the one-element variable b is " << show(g) << ", expected [1]=[7]");
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C16";
	p.rule = "random expressions of 2..8 differentiable elementwise operations over 1..4 leaves of one shape (scalars only as constants and placeholders), the same with transpositions and flips, and scalar losses built from sums, means and norms, every drawn derivative compared with forward-mode differentiation for 1..3 contents of the leaves; every unary function over its domain; non-trivial: some derivative not zero";
	p.facets = {{"elementwise", elementwise, 4}, {"losses", losses, 3}, {"functions", functions, 1}, {"rearranged", rearranged, 2}};
	p.known = {{"sum-of-transposed", sum_transposed, "the derivative of a sum of products with a transposed variable by that variable is laid out like the transposed variable"},
		{"own-sum", own_sum, "the derivative of an expression combining a variable with its own sum leaves out how the sum moves every element"},
		{"spread-scalar", spread_scalar, "the derivative of a scalar by a one-element variable combined with a tensor is a tensor instead of its sum"}};
	p.quick = 20000; p.thorough = 400000; p.batch = 150;
	p.assumptions = {"points where an absolute value has no derivative are left out", "a one-element derivative standing for a tensor of equal elements is accepted", "tolerance 1e-7 relative to the largest element"};
	return pbt::harness_main(argc, argv, {p});
}
