// C09: expressions evaluate to what they say, whatever is simplified or shared on the way
#include "dag.hpp"
using namespace dag;

static void run (Ctx& c, bool structural)
{
	Src& s = c.s; World w(s); w.structural = structural; w.repeat = 2;
	size_t rank = s.sz(1, structural ? 3 : 2);
	Dims d; for (size_t i = 0; i < rank; ++i) d.push_back(s.sz(1, 3));
	if (structural && rank == 2 && s.flip()) d[1] = d[0];
	for (size_t k = s.sz(1, 4); k > 0; --k)
	{
		Dims x = d; if (s.flip(1, 5)) x = Dims{1};
		if (structural && rank == 2 && s.flip(1, 4)) std::swap(x[0], x[x.size() - 1]);
		w.add_leaf((int) s.weighted({4, 2, 3}), x, false, s.flip(1, 3));
	}
	size_t n = s.sz(3, 12), folded = 0, shared = 0;
	for (size_t tries = 0; w.ex.size() < w.leaves.size() + n && tries < 4 * n; ++tries)
	{
		if (!w.grow()) continue;
		std::vector<Ref> r = w.reference();
		if (!World::sane(r.back(), w.limit)) { w.undo(); continue; }
		P_LOG(c, w.describe(w.ex.size() - 1));
		P_CHECK(c, w.ex.back().node.get() != nullptr, "no node");
		if (w.is_const((int) w.ex.size() - 1)) folded++;
		for (size_t i = 0; i + 1 < w.ex.size(); ++i) if (w.ex[i].node.get() == w.ex.back().node.get()) { shared++; break; }
		c.label(NAMES[w.ex.back().op]);
	}
	for (size_t i = 0; i < w.leaves.size(); ++i) P_LOG(c, w.describe(i));
	size_t rounds = s.sz(1, 3);
	for (size_t k = 0; k < rounds; ++k)
	{
		if (k)
		{
			for (size_t i = 0; i < w.leaves.size(); ++i) if (w.leaves[i].o.kind != 2 && s.flip(2, 3)) { w.set_leaf(i, w.fresh(w.leaves[i])); P_LOG(c, "L" << i << " := " << show(w.leaves[i].o.v)); }
		}
		std::vector<Ref> r = w.reference();
		if (!w.sane(r)) break;
		for (size_t i = 0; i < w.ex.size(); ++i) w.check(c, i, r);
	}
	if (folded) c.label("simplified to a constant");
	if (shared) c.label("simplified to another node or shared");
	c.nontrivial(w.ex.size() >= w.leaves.size() + 3);
}
static void elementwise (Ctx& c) { run(c, false); }
static void mixed (Ctx& c) { run(c, true); }

// a difference of a thing with itself etc. stands for a whole tensor: its sum is the sum of the tensor
static void sum_standin (Ctx& c)
{
	Pool pool; Operand a = pool.leaf(c.s, 0, Dims{3}, Vec{1, 2, 4}, "a");
	Val g = value_of(reduce_sum<double>(a.p / a.p).get());
	P_CHECK(c, g.v == Vec{3}, "the sum of a/a over 3 elements is " << show(g.v));
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C09";
	p.rule = "random expression graphs of 3..12 operations over 1..4 variables, placeholders and constants (many of them 0, 1 and -1), operands repeated often, every node compared with an element-by-element evaluation that simplifies and shares nothing, for 1..3 contents of the leaves; non-trivial: at least 3 operations";
	p.facets = {{"elementwise", elementwise, 3}, {"mixed", mixed, 2}};
	p.known = {{"sum-of-standin", sum_standin, "a/a, a*0, a-a and pow(a,0) become a one-element constant, so that a sum over all elements of a/a is 1 instead of the number of elements"}};
	p.quick = 22000; p.thorough = 500000; p.batch = 150;
	p.assumptions = {"a one-element result standing for a tensor of equal elements is accepted and not used as an operand of reductions, transforms and products", "values up to 10000, compared with relative tolerance 1e-8"};
	return pbt::harness_main(argc, argv, {p});
}
