// C12: arithmetic between a tensor and one lacking an axis
#include "ops.hpp"
using namespace nnet;

static Dims drop_axis (Dims d, size_t axis)
{
	if (d.size() == 1) return Dims{1};
	if (axis == 0) d.erase(d.begin());
	else if (axis == d.size() - 1) d.pop_back();
	else d[axis] = 1;
	return d;
}
static double ap (size_t op, double a, double b) { return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; }
static Vp mk (size_t op, bool left, Vp a, Vp b, size_t ax)
{
	switch (op * 2 + left)
	{
		case 0: return add_axial_b<double>(a, b, ax); case 1: return add_axial_a<double>(a, b, ax);
		case 2: return sub_axial_b<double>(a, b, ax); case 3: return sub_axial_a<double>(a, b, ax);
		case 4: return mul_axial_b<double>(a, b, ax); case 5: return mul_axial_a<double>(a, b, ax);
		case 6: return div_axial_b<double>(a, b, ax); default: return div_axial_a<double>(a, b, ax);
	}
}

// contents of an operand: constants are often zeros, ones or one value throughout, what is divided may be zero
static Vec contents (Src& s, size_t n, int kind, bool divisor)
{
	Vec v(n); for (double& x : v) x = divisor || !s.flip(1, 4) ? s.dyadic_nz() : 0;
	if (kind == 2 && s.flip()) { static const double U[] = {0, 1, -1, 2}; double u = U[divisor + s.below(4 - divisor)]; std::fill(v.begin(), v.end(), u); }
	return v;
}

static void axial (Ctx& c)
{
	Src& s = c.s; Pool pool;
	Dims d = gen::dims(s, 1, 4, 4, 64);
	if (s.flip(1, 3)) for (size_t& x : d) x = d[0]; // square shapes hide axis mistakes
	if (ref::prod(d) > 256) c.discard();
	size_t axis = s.below(d.size());
	Dims e = drop_axis(d, axis);
	size_t n = ref::prod(d), m = ref::prod(e);
	bool scalar = s.flip(1, 8);
	if (scalar) { e = Dims{1}; m = 1; }
	int kd = (int) s.weighted({4, 2, 1}), ke = (int) s.weighted({4, 2, 1});
	size_t op = s.below(4); bool left = s.flip();
	auto fulls = [&] { return contents(s, n, kd, op == 3 && left); }; auto thins = [&] { return contents(s, m, ke, op == 3 && !left); };
	Operand full = pool.leaf(s, kd, d, fulls(), "full"), thin = pool.leaf(s, ke, e, thins(), "thin");
	const char* names[] = {"add", "sub", "mul", "div"};
	P_LOG(c, names[op] << " " << (left ? "thin on the left" : "thin on the right") << ": " << kind_name(kd) << show(d) << ", " << kind_name(ke) << show(e) << " along axis " << axis);
	Vp node = left ? mk(op, true, thin.p, full.p, axis) : mk(op, false, full.p, thin.p, axis);
	P_CHECK(c, node.get() != nullptr, "no node");
	c.nontrivial(n > 1 && m > 1 && d[axis] > 1);
	c.label(names[op]); c.label(axis == 0 ? "first axis" : axis + 1 == d.size() ? "last axis" : "middle axis");
	if (!dynamic_cast<constant<double>*>(node.get()) && s.flip(1, 4))
	{
		Vp again = left ? mk(op, true, thin.p, full.p, axis) : mk(op, false, full.p, thin.p, axis);
		P_CHECK(c, again.get() == node.get(), "the same operation on the same operands is built twice");
	}
	size_t rounds = s.sz(1, 3);
	for (size_t r = 0; r < rounds; ++r)
	{
		if (r) { if (s.flip() && kd != 2) Pool::fill(full, fulls()); if (s.flip() && ke != 2) Pool::fill(thin, thins()); }
		P_LOG(c, "full=" << show(full.v) << " thin=" << show(thin.v));
		Vec w(n);
		for (size_t i = 0; i < n; ++i)
		{
			size_t j = 0;
			if (m > 1)
			{
				Dims co = ref::unflat(i, d);
				if (axis == 0 && d.size() > 1) co.erase(co.begin()); else co[axis] = 0;
				j = ref::flat(co, e);
			}
			w[i] = left ? ap(op, thin.v[j], full.v[i]) : ap(op, full.v[i], thin.v[j]);
		}
		expect_elem(c, value_of(node.get()), d, w, "result");
	}
}

// several operations over the same operands, along several axes and on both sides, are each what was asked for
static void several (Ctx& c)
{
	Src& s = c.s; Pool pool;
	size_t rank = s.sz(1, 3), dim = s.sz(2, 4);
	Dims d(rank, dim); if (rank > 1 && s.flip(1, 3)) d[s.below(rank)] = s.sz(1, 4);
	size_t n = ref::prod(d);
	int kd = (int) s.weighted({4, 2});
	auto vals = [&](size_t k) { Vec v(k); for (double& x : v) x = s.dyadic_nz(); return v; };
	Operand full = pool.leaf(s, kd, d, vals(n), "full");
	std::vector<Operand> thin; std::vector<Dims> ds;
	struct Q { size_t op, t, axis; bool left; Vp node; };
	std::vector<Q> qs; const char* names[] = {"add", "sub", "mul", "div"};
	for (size_t k = s.sz(2, 7); k > 0; --k)
	{
		Q q{s.below(4), 0, s.below(rank), s.flip(), Vp()};
		if (!qs.empty() && s.flip(2, 3)) { const Q& o = qs[s.below(qs.size())]; q.op = o.op; q.axis = o.axis; q.left = o.left; if (s.flip()) q.left = !q.left; if (s.flip(1, 3)) q.axis = s.below(rank); if (s.flip(1, 3)) q.op = s.below(4); }
		Dims e = drop_axis(d, q.axis);
		std::vector<size_t> fit; for (size_t i = 0; i < ds.size(); ++i) if (ds[i] == e) fit.push_back(i);
		if (fit.empty() || (fit.size() < 2 && s.flip(1, 5))) { q.t = ds.size(); thin.push_back(pool.leaf(s, (int) s.weighted({4, 2, 1}), e, vals(ref::prod(e)), "thin" + std::to_string(q.t))); ds.push_back(e); }
		else q.t = fit[s.below(fit.size())];
		P_LOG(c, names[q.op] << " thin" << q.t << (q.left ? " on the left" : " on the right") << " along axis " << q.axis << " of " << show(d));
		q.node = q.left ? mk(q.op, true, thin[q.t].p, full.p, q.axis) : mk(q.op, false, full.p, thin[q.t].p, q.axis);
		P_CHECK(c, q.node.get() != nullptr, "no node");
		qs.push_back(q);
	}
	for (size_t r = 0, rounds = s.sz(1, 3); r < rounds; ++r)
	{
		if (r) { if (s.flip()) Pool::fill(full, vals(n)); for (size_t i = 0; i < thin.size(); ++i) if (thin[i].kind != 2 && s.flip()) Pool::fill(thin[i], vals(ref::prod(ds[i]))); }
		for (const Q& q : qs)
		{
			const Dims& e = ds[q.t]; Vec w(n);
			for (size_t i = 0; i < n; ++i)
			{
				size_t j = 0;
				if (ref::prod(e) > 1) { Dims co = ref::unflat(i, d); if (q.axis == 0 && d.size() > 1) co.erase(co.begin()); else co[q.axis] = 0; j = ref::flat(co, e); }
				w[i] = q.left ? ap(q.op, thin[q.t].v[j], full.v[i]) : ap(q.op, full.v[i], thin[q.t].v[j]);
			}
			expect_elem(c, value_of(q.node.get()), d, w, std::string(names[q.op]) + (q.left ? " left" : " right") + " along " + std::to_string(q.axis));
		}
	}
	c.nontrivial(n > 1); c.label("several");
}

// one element where the full operand stands pairs with every element
static void single (Ctx& c)
{
	Src& s = c.s; Pool pool; Dims e = gen::dims(s, 1, 3, 4, 24); size_t n = ref::prod(e), axis = s.below(e.size() + 1), op = s.below(4); bool left = s.flip(); int kd = (int) s.below(2), ke = (int) s.below(2);
	auto vals = [&](size_t k) { Vec v(k); for (double& x : v) x = s.dyadic_nz(); return v; };
	Operand one = pool.leaf(s, kd, Dims{1}, vals(1), "one"), thin = pool.leaf(s, ke, e, vals(n), "thin");
	P_LOG(c, "one element and " << (left ? "on its left " : "on its right ") << show(e) << " along axis " << axis);
	Vp node = left ? mk(op, true, thin.p, one.p, axis) : mk(op, false, one.p, thin.p, axis);
	for (size_t r = s.sz(1, 3); ; --r)
	{
		Vec w(n); for (size_t i = 0; i < n; ++i) w[i] = left ? ap(op, thin.v[i], one.v[0]) : ap(op, one.v[0], thin.v[i]);
		expect_elem(c, value_of(node.get()), e, w, "result"); if (!r) break;
		if (s.flip()) Pool::fill(one, vals(1)); else Pool::fill(thin, vals(n));
	}
	c.nontrivial(n > 1);
}

// operands that do not match outside the axis are refused
static void refuse (Ctx& c)
{
	Src& s = c.s; Pool pool;
	Dims d = gen::dims(s, 2, 4, 4, 64);
	size_t axis = s.below(d.size());
	if (ref::prod(drop_axis(d, axis)) == 1) c.discard();
	Dims e = drop_axis(d, axis);
	size_t k = s.below(e.size());
	e[k] += s.sz(1, 2);
	if (ref::prod(e) == 1) c.discard();
	Operand full = pool.leaf(s, (int) s.below(2), d, Vec(ref::prod(d), 1), "full"), thin = pool.leaf(s, (int) s.below(2), e, Vec(ref::prod(e), 1), "thin");
	bool left = s.flip(); size_t op = s.below(4);
	P_LOG(c, show(d) << " and " << show(e) << " along axis " << axis);
	Vp node = left ? mk(op, true, thin.p, full.p, axis) : mk(op, false, full.p, thin.p, axis);
	bool threw = false;
	try { node->eval(); } catch (std::exception&) { threw = true; }
	P_CHECK(c, threw, "operands of shape " << show(d) << " and " << show(e) << " are combined along axis " << axis);
	c.nontrivial();
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C12";
	p.rule = "random shapes of rank 1..4 (a third of them square), every axis, the four operations with the operand lacking the axis on either side, over variables, placeholders and constants through 1..3 data changes; several operations over the same operands along several axes and on both sides; one element in place of the full operand; and mismatched operands; non-trivial: both operands and the axis larger than one (or a refusal)";
	p.facets = {{"axial", axial, 8}, {"several", several, 4}, {"refuse", refuse, 1}, {"single", single, 1}};
	p.quick = 36000; p.thorough = 400000; p.batch = 150;
	return pbt::harness_main(argc, argv, {p});
}
