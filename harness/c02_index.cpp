// C02: coordinates and flat positions
#include "common.hpp"
#include "tensor/tensor_handler.hpp"
using namespace nnet;

static void bijection (Ctx& c)
{
	Dims d = gen::dims(c.s, 1, 5, 6, 400);
	P_LOG(c, "shape " << show(d));
	tensorshape t(d);
	size_t n = ref::prod(d);
	size_t seen = 0;
	t.iterate([&](std::vector<size_t> coord, size_t idx)
	{
		P_CHECK(c, idx == seen, "visit " << seen << " got position " << idx);
		P_CHECK(c, coord == ref::unflat(idx, d), "position " << idx << " of " << show(d) << " visited with coordinate " << show(coord));
		seen++;
	});
	P_CHECK(c, seen == n, seen << " of " << n << " elements visited");
	for (size_t i = 0; i < n; ++i)
	{
		Dims co = t.coordinate_from_idx(i);
		P_CHECK(c, co == ref::unflat(i, d), "coordinate of position " << i << " in " << show(d) << " is " << show(co));
		P_CHECK(c, t.flat_idx(co) == i, "position of coordinate " << show(co) << " in " << show(d) << " is " << t.flat_idx(co));
	}
	size_t big = 0; for (size_t x : d) if (x > 1) big++;
	c.nontrivial(big >= 2);
}

template <typename T>
static void access_t (Ctx& c)
{
	Src& s = c.s;
	Dims d = gen::dims(s, 1, 4, 5, 200);
	size_t n = ref::prod(d);
	std::vector<T> v(n);
	for (size_t i = 0; i < n; ++i) v[i] = (T) (i * 3 + 1);
	P_LOG(c, "shape " << show(d));
	tensor<T> ten((tensorshape(d)));
	assign_func<T> as; as(ten, v);
	P_CHECK(c, ten.expose() == v, "exposed data differs from what was written");
	size_t reps = s.sz(1, 12);
	for (size_t r = 0; r < reps; ++r)
	{
		Dims co; size_t len = s.sz(1, d.size());
		for (size_t i = 0; i < len; ++i) co.push_back(s.flip(1, 8) ? s.sz(0, 7) : s.sz(0, d[i] - 1));
		size_t at = ref::flat(co, d);
		P_LOG(c, "get " << show(co));
		bool threw = false; T got = T();
		try { got = ten.get(co); } catch (std::out_of_range&) { threw = true; }
		if (at >= n)
		{
			P_CHECK(c, threw, "reading " << show(co) << " of " << show(d) << " is not refused");
			c.label("refused");
		}
		else
		{
			P_CHECK(c, !threw, "reading " << show(co) << " of " << show(d) << " is refused");
			P_CHECK(c, got == v[at], "element " << show(co) << " of " << show(d) << " is " << got << ", expected " << v[at]);
			c.label(len < d.size() ? "short coordinate" : "full coordinate");
		}
	}
	c.nontrivial(n > 1);
}
static void access (Ctx& c) { if (c.s.flip(1, 4)) access_t<int>(c); else access_t<double>(c); }

int main (int argc, char** argv)
{
	pbt::Prop p;
	p.id = "C02";
	p.rule = "random fully defined shapes of rank 1..5 (every position of each is visited), and random element reads with full, short and out-of-range coordinates; non-trivial: at least two dimensions larger than one (bijection), more than one element (access)";
	p.facets = {{"bijection", bijection, 1}, {"access", access, 1}};
	p.quick = 64000; p.thorough = 800000; p.batch = 500;
	return pbt::harness_main(argc, argv, {p});
}
