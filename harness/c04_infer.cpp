// C04: inferring shapes from amounts of data
#include "common.hpp"
#include "graph/varptr.hpp"
#include "graph/leaf/placeholder.hpp"
#include "graph/leaf/constant.hpp"
using namespace nnet;

static size_t known_of (const Dims& d) { size_t k = 1; for (size_t x : d) if (x) k *= x; return k; }

static void infer (Ctx& c)
{
	Src& s = c.s;
	Dims d = gen::partial(s, 4, 4);
	size_t k = known_of(d);
	size_t n = s.flip(2, 3) ? k * s.sz(1, 5) : s.sz(1, 60);
	if (n > 400) n = k;
	std::vector<double> v = gen::distinct(s, n);
	P_LOG(c, "allowed " << show(d) << ", " << n << " values");
	tensor<double> t((tensorshape(d)));
	bool full = ref::full(d);
	if (full && s.flip()) t.deallocate();
	optional<tensorshape> g = t.guess_shape(v);
	bool fits = full ? n == k : (d.empty() || n % k == 0);
	P_CHECK(c, t.is_compatible_with(v) == fits, n << " values against " << show(d) << ": compatible is " << !fits);
	bool loose = full ? n <= k : true;
	P_CHECK(c, t.is_loosely_compatible_with(v) == loose, n << " values against " << show(d) << ": loosely compatible is " << !loose);
	P_CHECK(c, (bool) g == fits, "guessing a shape for " << n << " values in " << show(d) << (g ? " succeeds" : " fails"));
	if (g)
	{
		Dims want = d;
		if (d.empty()) want = {n};
		else { bool first = true; for (size_t& x : want) if (x == 0) { x = first ? n / k : 1; first = false; } }
		P_CHECK(c, g->as_list() == want, "guess for " << n << " values in " << show(d) << " is " << show(g->as_list()));
		P_CHECK(c, g->n_elems() == n, "the guessed shape does not hold the data");
	}
	optional<tensorshape> l = t.loosely_guess_shape(v);
	P_CHECK(c, (bool) l == loose, "loose guess for " << n << " values in " << show(d));
	if (l)
	{
		Dims want = d;
		if (d.empty()) want = {n};
		else { bool first = true; for (size_t& x : want) if (x == 0) { x = first ? (n + k - 1) / k : 1; first = false; } }
		P_CHECK(c, l->as_list() == want, "loose guess for " << n << " values in " << show(d) << " is " << show(l->as_list()));
	}
	// an allocated tensor is judged by the shape it holds
	tensor<double> u((tensorshape(d)));
	u.deallocate();
	if (g && u.allocate(*g))
	{
		P_CHECK(c, u.is_compatible_with(v), "data does not fit the shape guessed for it");
		std::vector<double> w(v); w.push_back(0);
		P_CHECK(c, !u.is_compatible_with(w) && !u.is_loosely_compatible_with(w), "too much data is accepted by an allocated tensor");
		w.pop_back(); w.pop_back();
		P_CHECK(c, !u.is_compatible_with(w) && u.is_loosely_compatible_with(w), "too little data is accepted by an allocated tensor");
		c.label("allocated");
	}
	c.label(full ? "full" : (d.empty() ? "undefined" : "partial"));
	c.label(fits ? "fits" : "does not fit");
	c.nontrivial(!full);
}

// the same inference as seen through leaves
static void leaves (Ctx& c)
{
	Src& s = c.s;
	Dims d = gen::partial(s, 4, 4);
	size_t k = known_of(d);
	bool full = ref::full(d);
	if (s.flip())
	{
		size_t n = full ? k : k * s.sz(1, 4);
		if (d.empty()) n = s.sz(1, 20);
		std::vector<double> v = gen::distinct(s, n);
		P_LOG(c, "placeholder " << show(d) << " = " << show(v));
		placeholder<double> p((tensorshape(d)), "p");
		P_CHECK(c, nullptr == p.eval() && !p.good_status(), "a placeholder has a value before it is given one");
		p = v;
		Dims want = d;
		if (d.empty()) want = {n};
		else { bool first = true; for (size_t& x : want) if (x == 0) { x = first ? n / k : 1; first = false; } }
		P_CHECK(c, p.good_status() && p.eval() != nullptr, "a placeholder is not initialised by data");
		P_CHECK(c, p.eval()->expose() == v, "placeholder holds " << show(p.eval()->expose()));
		P_CHECK(c, p.get_shape().as_list() == want, "placeholder took shape " << show(p.get_shape().as_list()) << ", expected " << show(want));
		std::vector<double> w = gen::distinct(s, n);
		p = w;
		P_CHECK(c, p.eval()->expose() == w && p.get_shape().as_list() == want, "second assignment: " << show(p.eval()->expose()));
		c.label("placeholder");
	}
	else
	{
		size_t n = s.sz(1, full ? k + 3 : 24);
		std::vector<double> v = gen::distinct(s, n);
		P_LOG(c, "constant " << show(v) << " in " << show(d));
		constant<double>* k0 = constant<double>::get(v, tensorshape(d));
		Dims want = d;
		if (d.empty()) want = {n};
		else { bool first = true; for (size_t& x : want) if (x == 0) { x = first ? (n + k - 1) / k : 1; first = false; } }
		Vec e = v; e.resize(ref::prod(want), 0);
		P_CHECK(c, k0->get_shape().as_list() == want, "constant took shape " << show(k0->get_shape().as_list()) << ", expected " << show(want));
		P_CHECK(c, k0->eval()->expose() == e, "constant holds " << show(k0->eval()->expose()) << ", expected " << show(e));
		delete k0;
		c.label(n > e.size() ? "clipped constant" : (n < e.size() ? "padded constant" : "constant"));
		if (n > ref::prod(want)) c.label("clipped");
	}
	c.nontrivial(!full);
}

int main (int argc, char** argv)
{
	pbt::Prop p;
	p.id = "C04";
	p.rule = "random full, partial and undefined shapes of rank 0..4 against 1..400 values, directly and through placeholders and constants; non-trivial: the shape is not fully defined";
	p.facets = {{"infer", infer, 1}, {"leaves", leaves, 1}};
	p.quick = 60000; p.thorough = 1000000; p.batch = 500;
	return pbt::harness_main(argc, argv, {p});
}
