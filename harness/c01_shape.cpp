// C01: shape algebra against an independent model
#include "common.hpp"
#include "tensor/tensorshape.hpp"
using nnet::tensorshape;

static bool align_exists (const Dims& a, const Dims& b)
{
	// some way of dropping outer ones / unknowns from either side leaves pairwise agreeing shapes
	for (size_t ab = 0; ab < a.size(); ++ab) { if (ab && a[ab - 1] > 1) break;
	for (size_t ae = a.size(); ae > ab; --ae) { if (ae < a.size() && a[ae] > 1) break;
	for (size_t bb = 0; bb < b.size(); ++bb) { if (bb && b[bb - 1] > 1) break;
	for (size_t be = b.size(); be > bb; --be) { if (be < b.size() && b[be] > 1) break;
		if (ae - ab == be - bb && ref::pairwise(Dims(a.begin() + ab, a.begin() + ae), Dims(b.begin() + bb, b.begin() + be))) return true;
	}}}}
	return false;
}

static Dims vary (Src& s, const Dims& a)
{
	Dims b = a;
	switch (s.weighted({2, 3, 2, 2, 1}))
	{
		case 0: break;
		case 1: // change some entries
			for (size_t& x : b) if (s.flip(1, 3)) x = s.sz(0, 4);
			break;
		case 2: // wrap in ones
			for (size_t n = s.sz(0, 2); n > 0; --n) b.insert(b.begin(), 1);
			for (size_t n = s.sz(0, 2); n > 0; --n) b.push_back(1);
			break;
		case 3:
			for (size_t& x : b) if (s.flip(1, 2)) x = 0;
			break;
		default: b = gen::partial(s); break;
	}
	return b;
}

static void compat (Ctx& c)
{
	Src& s = c.s;
	Dims a = gen::partial(s);
	Dims b = vary(s, a);
	P_LOG(c, "a=" << show(a) << " b=" << show(b));
	tensorshape ta(a), tb(b);
	bool r = ta.is_compatible_with(tb);
	P_CHECK(c, r == tb.is_compatible_with(ta), "compatibility of " << show(a) << " and " << show(b) << " depends on the order");
	P_CHECK(c, ta.is_compatible_with(ta) && tb.is_compatible_with(tb), "a shape is not compatible with itself: " << show(a) << " " << show(b));
	c.label(r ? "compatible" : "incompatible");
	if (a.empty() || b.empty())
	{
		P_CHECK(c, r, "an undefined shape must be compatible with every shape");
		c.label("undefined");
		return;
	}
	c.nontrivial();
	if (a.size() == b.size())
	{
		P_CHECK(c, r == ref::pairwise(a, b), "same-rank compatibility of " << show(a) << " and " << show(b) << " is " << r);
		c.label("same rank");
	}
	else if (ref::full(a) && ref::full(b))
	{
		Dims x = ref::trim(a), y = ref::trim(b);
		bool want = x == y;
		P_CHECK(c, r == want, "compatibility of fully defined " << show(a) << " and " << show(b) << " is " << r);
		c.label(want ? "ranks differ, equal up to outer ones" : "ranks differ, different");
	}
	else
	{
		if (r) P_CHECK(c, align_exists(a, b), show(a) << " and " << show(b) << " are called compatible though no alignment exists");
		c.label("ranks differ, unknowns");
	}
}

static void algebra (Ctx& c)
{
	Src& s = c.s;
	Dims a = gen::partial(s), b = s.flip(1, 2) ? vary(s, a) : gen::partial(s);
	size_t k = s.sz(0, 6);
	P_LOG(c, "a=" << show(a) << " b=" << show(b) << " k=" << k);
	tensorshape ta(a), tb(b);
	P_CHECK(c, ta.as_list() == a && ta.rank() == a.size(), "a shape does not report the dimensions it was made of");
	P_CHECK(c, ta.is_part_defined() == !a.empty(), "is_part_defined");
	P_CHECK(c, ta.is_fully_defined() == ref::full(a), "is_fully_defined of " << show(a));
	size_t known = a.empty() ? 0 : 1; for (size_t x : a) if (x) known *= x;
	P_CHECK(c, ta.n_known() == known, "n_known of " << show(a) << " is " << ta.n_known());
	P_CHECK(c, ta.n_elems() == ref::prod(a), "n_elems of " << show(a) << " is " << ta.n_elems());
	// trim
	Dims t = ta.trim().as_list();
	P_CHECK(c, t == ref::trim(a), "trim of " << show(a) << " is " << show(t));
	// concatenate
	Dims cat = a; cat.insert(cat.end(), b.begin(), b.end());
	P_CHECK(c, ta.concatenate(tb).as_list() == cat, "concatenation of " << show(a) << " and " << show(b) << " is " << show(ta.concatenate(tb).as_list()));
	// rank adjustment
	Dims w = a; w.resize(k, 1);
	P_CHECK(c, ta.with_rank(k).as_list() == w, "with_rank " << k << " of " << show(a) << " is " << show(ta.with_rank(k).as_list()));
	Dims wl = a; if (wl.size() < k) wl.resize(k, 1);
	P_CHECK(c, ta.with_rank_at_least(k).as_list() == wl, "with_rank_at_least " << k << " of " << show(a));
	Dims wm = a; if (wm.size() > k) wm.resize(k);
	P_CHECK(c, ta.with_rank_at_most(k).as_list() == wm, "with_rank_at_most " << k << " of " << show(a) << " is " << show(ta.with_rank_at_most(k).as_list()));
	// merge
	if (a.empty() || b.empty())
	{
		P_CHECK(c, ta.merge_with(tb).as_list() == (a.empty() ? b : a), "merging with an undefined shape must give the other one");
	}
	else if (a.size() != b.size())
	{
		bool threw = false;
		try { ta.merge_with(tb); } catch (std::logic_error&) { threw = true; }
		P_CHECK(c, threw, "merging shapes of different rank must be refused");
		c.label("merge refused");
	}
	else
	{
		Dims m = a; for (size_t i = 0; i < m.size(); ++i) if (m[i] == 0) m[i] = b[i];
		Dims g = ta.merge_with(tb).as_list();
		P_CHECK(c, g == m, "merge of " << show(a) << " with " << show(b) << " is " << show(g));
		c.label("merge");
	}
	P_CHECK(c, ta.as_list() == a && tb.as_list() == b, "a shape operation changed its operand");
	c.nontrivial(!a.empty());
	// mutation by assignment
	tensorshape x(ta); x = b;
	P_CHECK(c, x.as_list() == b && ta.as_list() == a, "assigning to a copied shape changed the original");
	x.undefine();
	P_CHECK(c, x.as_list().empty() && !x.is_part_defined() && x.n_elems() == 0, "undefine");
}

int main (int argc, char** argv)
{
	pbt::Prop p;
	p.id = "C01";
	p.rule = "random pairs of shapes of rank 0..6 with dimensions 0 (unknown)..5, the second one usually a variation of the first (entries changed, made unknown, wrapped in ones); non-trivial: neither shape undefined (facet compat), first shape not undefined (facet algebra)";
	p.facets = {{"compat", compat, 1}, {"algebra", algebra, 1}};
	p.quick = 180000; p.thorough = 3000000; p.batch = 1500;
	return pbt::harness_main(argc, argv, {p});
}
