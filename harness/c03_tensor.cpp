// C03: tensor storage as a state machine over several tensors, against a model
#include "common.hpp"
#include "tensor/tensor_handler.hpp"
#include <map>
#include <memory>
using namespace nnet;

// an allocator that keeps books: every block is returned once, with the size it was requested with
struct Books { std::map<void*,size_t> live; std::string error; };
static const size_t ALLOCS = 2, ID = 4242;
static Books every[ALLOCS]; static std::string error (void) { std::string e; for (Books& b : every) e += b.error; return e; }
template <size_t K> class book_alloc : public iallocator
{
	Books& books = every[K];
public:
	book_alloc* clone (void) const { return static_cast<book_alloc*>(clone_impl()); }
protected:
	virtual void* get_raw (size_t, size_t n)
	{
		void* p = ::operator new (n ? n : 1); memset(p, 0x5a, n); books.live[p] = n; return p;
	}
	virtual void del_raw (void* p, size_t n)
	{
		auto it = books.live.find(p);
		if (it == books.live.end()) { books.error = "a block is released that is not live here"; return; }
		if (it->second != n) { std::ostringstream o; o << "a block of " << it->second << " bytes is released as " << n << " bytes"; books.error = o.str(); }
		books.live.erase(it);
		::operator delete (p);
	}
	virtual iallocator* clone_impl (void) const { return new book_alloc(); }
	virtual iallocator* move_impl (void) { return new book_alloc(); }
};

struct Model
{
	Dims allowed, alloc;            // alloc empty: nothing allocated
	std::vector<double> data;
	bool known = false;             // contents are defined
	size_t a = 0;                   // the allocator it got its block from
};
static bool compat (const Dims& a, const Dims& b) { return tensorshape(a).is_compatible_with(tensorshape(b)); }

struct Sys
{
	std::vector<std::unique_ptr<tensor<double>>> t;
	std::vector<Model> m;
};

static void check (Ctx& c, Sys& y)
{
	for (size_t i = 0; i < y.t.size(); ++i)
	{
		tensor<double>& t = *y.t[i]; Model& m = y.m[i];
		bool al = !m.alloc.empty();
		P_CHECK(c, t.is_alloc() == al, "tensor " << i << ": is_alloc is " << t.is_alloc());
		Dims want = al ? m.alloc : m.allowed;
		P_CHECK(c, t.get_shape().as_list() == want, "tensor " << i << ": shape is " << show(t.get_shape().as_list()) << ", expected " << show(want));
		P_CHECK(c, t.dims() == want && t.rank() == want.size(), "tensor " << i << ": dims/rank");
		size_t n = al ? ref::prod(m.alloc) : 0;
		P_CHECK(c, t.n_elems() == n, "tensor " << i << ": n_elems is " << t.n_elems() << ", expected " << n);
		P_CHECK(c, t.total_bytes() == n * sizeof(double), "tensor " << i << ": total_bytes");
		if (al)
		{
			std::vector<double> e = t.expose();
			P_CHECK(c, e.size() == n, "tensor " << i << ": exposes " << e.size() << " elements");
			if (m.known) P_CHECK(c, e == m.data, "tensor " << i << ": data is " << show(e) << ", expected " << show(m.data));
		}
	}
	P_CHECK(c, error().empty(), error());
	for (size_t k = 0; k < ALLOCS; ++k)
	{
		size_t al = 0; for (Model& m : y.m) if (!m.alloc.empty() && m.a == k) al++;
		P_CHECK(c, every[k].live.size() == al, every[k].live.size() << " blocks of allocator " << k << " are live for " << al << " allocated tensors");
	}
}

static Dims near (Src& s, const Dims& base, bool full)
{
	Dims d = base.empty() ? gen::dims(s, 1, 4, 4, 120) : base;
	if (s.flip(1, 5)) d = gen::dims(s, 1, 4, 4, 120);
	for (size_t& x : d) if (s.flip(1, 3)) x = s.sz(1, 5);
	if (s.flip(1, 10)) d.push_back(s.sz(1, 2));
	else if (d.size() > 1 && s.flip(1, 10)) d.pop_back();
	for (size_t& x : d) { if (x == 0 && full) x = s.sz(1, 4); else if (!full && s.flip(1, 3)) x = 0; }
	while (ref::prod(d) > 300) d.pop_back();
	return d;
}

static void machine (Ctx& c)
{
	Src& s = c.s;
	alloc_builder::get_instance().registertype<book_alloc<0> >(ID); alloc_builder::get_instance().registertype<book_alloc<1> >(ID + 1);
	for (Books& b : every) b = Books();
	bool both = s.flip(); // tensors of two allocators
	{
	Sys y;
	size_t steps = s.sz(2, 24);
	size_t realloc_data = 0;
	for (size_t st = 0; st < steps; ++st)
	{
		size_t op = y.t.empty() ? 0 : s.weighted({2, 4, 4, 3, 2, 4, 3, 3, 2, 1, 1, 2});
		size_t i = y.t.empty() ? 0 : s.below(y.t.size());
		size_t j = y.t.empty() ? 0 : s.below(y.t.size());
		switch (op)
		{
		case 0: // construct
		{
			Model m; m.a = both ? s.below(ALLOCS) : 0;
			if (s.flip(1, 30))
			{
				bool thrown = false; try { if (s.flip()) tensor<double> t(1.0, ID + ALLOCS); else tensor<double> t(tensorshape(Dims{2}), ID + ALLOCS); } catch (std::runtime_error&) { thrown = true; }
				P_CHECK(c, thrown, "a tensor of an allocator that does not exist was made"); break;
			}
			if (s.flip(1, 6))
			{
				double v = s.dyadic(); P_LOG(c, "t" << y.t.size() << " = scalar " << v);
				y.t.emplace_back(new tensor<double>(v, ID + m.a));
				m.allowed = m.alloc = {1}; m.data = {v}; m.known = true;
			}
			else
			{
				m.allowed = s.flip(1, 2) ? gen::dims(s, 1, 4, 4, 120) : gen::partial(s, 4, 4);
				P_LOG(c, "t" << y.t.size() << " = tensor " << show(m.allowed));
				y.t.emplace_back(new tensor<double>(tensorshape(m.allowed), ID + m.a));
				if (ref::full(m.allowed)) m.alloc = m.allowed;
				m.data.resize(ref::prod(m.alloc)); m.known = false;
			}
			y.m.push_back(m);
			break;
		}
		case 1: // write
		{
			Model& m = y.m[i];
			if (m.alloc.empty()) break;
			m.data = gen::distinct(s, ref::prod(m.alloc)); m.known = true;
			P_LOG(c, "write t" << i << " " << show(m.data));
			if (s.flip(1, 5)) { const_init<double> ci(m.data[0]); ci(*y.t[i]); m.data.assign(m.data.size(), m.data[0]); }
			else { assign_func<double> as; as(*y.t[i], m.data); }
			break;
		}
		case 2: // reallocate to a given shape
		{
			Model& m = y.m[i];
			Dims d = near(s, m.alloc.empty() || s.flip(1, 4) ? m.allowed : m.alloc, !s.flip(1, 8));
			P_LOG(c, "allocate t" << i << " " << show(d));
			bool ok = y.t[i]->allocate(tensorshape(d));
			bool same = !m.alloc.empty() && compat(d, m.alloc);
			bool want = !same && ref::full(d) && compat(d, m.allowed);
			P_CHECK(c, ok == want, "allocating " << show(d) << " (allowed " << show(m.allowed) << ", allocated " << show(m.alloc) << ") returned " << ok);
			if (want)
			{
				if (!m.alloc.empty()) { if (m.known) { m.data = ref::refit(m.data, m.alloc, d); realloc_data++; c.label("reallocated with data"); } }
				else { m.data.assign(ref::prod(d), 0); m.known = false; }
				m.alloc = d; m.data.resize(ref::prod(d));
			}
			else c.label("allocation refused");
			break;
		}
		case 3: // new allowed shape
		{
			Model& m = y.m[i];
			bool full = m.alloc.empty() ? s.flip() : !s.flip(1, 3);
			Dims d = near(s, m.alloc.empty() ? m.allowed : m.alloc, full);
			if (s.flip(1, 12)) { d.clear(); full = false; if (!m.alloc.empty()) { P_LOG(c, "set_shape t" << i << " to nothing"); y.t[i]->set_shape(tensorshape()); break; } } // nothing is known of the shape
			if (!full && !ref::full(d) && !m.alloc.empty() && (d.size() != m.alloc.size() || m.allowed.size() != d.size())) break;
			P_LOG(c, "set_shape t" << i << " " << show(d));
			y.t[i]->set_shape(tensorshape(d));
			if (m.alloc.empty()) { m.allowed = d; break; }
			if (!compat(m.allowed, d)) m.allowed = d;
			if (!compat(d, m.alloc))
			{
				for (size_t k = 0; k < d.size(); ++k) if (d[k] == 0) d[k] = m.alloc[k];
				if (m.known) { m.data = ref::refit(m.data, m.alloc, d); realloc_data++; c.label("set_shape with data"); }
				m.alloc = d; m.data.resize(ref::prod(d));
			}
			break;
		}
		case 4: // release
		{
			Model& m = y.m[i];
			P_LOG(c, "deallocate t" << i);
			bool ok = y.t[i]->deallocate();
			P_CHECK(c, ok == !m.alloc.empty(), "deallocate returned " << ok);
			m.alloc.clear(); m.data.clear(); m.known = false;
			break;
		}
		case 5: // copy another tensor's data in a given shape
		{
			Model& m = y.m[i]; Model src = y.m[j];
			Dims d = near(s, src.alloc, !s.flip(1, 8));
			P_LOG(c, "t" << i << ".copy_from(t" << j << ", " << show(d) << ")");
			bool ok = y.t[i]->copy_from(*y.t[j], tensorshape(d));
			bool want = !src.alloc.empty() && ref::full(d);
			P_CHECK(c, ok == want, "copy_from returned " << ok);
			if (want)
			{
				if (!compat(m.allowed, d)) m.allowed = d;
				m.known = src.known; m.alloc = d;
				if (src.known) { m.data = ref::refit(src.data, src.alloc, d); realloc_data++; c.label("copy_from with data"); }
				m.data.resize(ref::prod(d));
			}
			break;
		}
		case 6: // copy
		{
			P_LOG(c, "t" << i << " = t" << j);
			if (i == j || !s.flip(1, 3)) { *y.t[i] = *y.t[j]; y.m[i] = Model(y.m[j]); }
			else if (s.flip()) { y.t.emplace_back(new tensor<double>(*y.t[j])); y.m.push_back(Model(y.m[j])); }
			else
			{
				bool so = s.flip(1, 3);
				y.t.emplace_back(y.t[j]->clone(so)); Model m(y.m[j]); if (so) m.known = false; y.m.push_back(m);
			}
			c.label("copy");
			break;
		}
		case 7: // move
		{
			P_LOG(c, "t" << i << " = move(t" << j << ")");
			if (i == j) { *y.t[i] = std::move(*y.t[j]); break; }
			Model m = y.m[j];
			if (s.flip(2, 3)) { *y.t[i] = std::move(*y.t[j]); y.m[i] = m; }
			else if (s.flip()) { y.t.emplace_back(new tensor<double>(std::move(*y.t[j]))); y.m.push_back(m); }
			else { y.t.emplace_back(y.t[j]->move()); y.m.push_back(m); }
			// the source gives its storage away and may be assigned to or destroyed
			y.m[j].alloc.clear(); y.m[j].data.clear(); y.m[j].known = false;
			P_CHECK(c, !y.t[j]->is_alloc() && y.t[j]->n_elems() == 0, "a moved-from tensor still holds data");
			y.m[j].allowed = y.t[j]->get_shape().as_list();
			c.label("move");
			break;
		}
		case 8: // allocate by the allowed shape
		{
			Model& m = y.m[i];
			P_LOG(c, "allocate t" << i);
			bool ok = y.t[i]->allocate();
			bool want = m.alloc.empty() && ref::full(m.allowed);
			P_CHECK(c, ok == want, "allocate returned " << ok);
			if (want) { m.alloc = m.allowed; m.data.assign(ref::prod(m.alloc), 0); m.known = false; }
			break;
		}
		case 9:
			P_LOG(c, "destroy t" << i);
			y.t.erase(y.t.begin() + i); y.m.erase(y.m.begin() + i);
			break;
		case 11: // store one tensor, restore it to another, possibly with storage of another allocator
		{
			Model src = y.m[j]; tenncor::tensor_proto proto; y.t[j]->serialize(&proto);
			bool damaged = s.flip(1, 4); if (damaged) proto.add_alloc_shape(s.flip() ? 0 : 3);
			size_t how = s.weighted({2, 2, 1}), a = both ? s.below(ALLOCS) : 0;
			P_LOG(c, "t" << i << " = " << (damaged ? "damaged " : "") << "stored t" << j << (how ? " with allocator " : "") << (how == 1 ? std::to_string(a) : how ? "unknown" : ""));
			bool want = !src.alloc.empty() && !damaged, got = false, thrown = false;
			try { got = how == 0 ? y.t[i]->from_proto(proto) : y.t[i]->from_proto(proto, how == 1 ? ID + a : ID + ALLOCS); } catch (std::runtime_error&) { thrown = true; }
			P_CHECK(c, thrown == (how == 2), "restoring " << (thrown ? "threw" : "did not throw")); if (thrown) break;
			P_CHECK(c, got == want, "restoring returned " << got);
			if (want) { size_t old = y.m[i].a; y.m[i] = src; y.m[i].a = how == 1 ? a : old; c.label("restored"); if (how == 1 && a != old) c.label("to another allocator"); }
			break;
		}
		default: // comparisons between two tensors
		{
			Model& a = y.m[i]; Model& b = y.m[j];
			bool want = (!a.alloc.empty() && !b.alloc.empty()) ? ref::trim(a.alloc).empty() || ref::trim(b.alloc).empty() || ref::trim(a.alloc) == ref::trim(b.alloc)
				: compat(a.allowed, b.allowed);
			P_CHECK(c, y.t[i]->is_same_size(*y.t[j]) == want, "is_same_size of t" << i << " and t" << j);
			const Dims& ga = a.alloc.empty() ? a.allowed : a.alloc; const Dims& gb = b.alloc.empty() ? b.allowed : b.alloc;
			P_CHECK(c, y.t[i]->is_compatible_with(*y.t[j]) == compat(ga, gb), "compatibility of t" << i << " and t" << j);
			break;
		}
		}
		check(c, y);
	}
	c.nontrivial(realloc_data > 0);
	}
	P_CHECK(c, error().empty(), error());
	for (Books& b : every) P_CHECK(c, b.live.empty(), b.live.size() << " blocks are still live after every tensor is gone");
}

int main (int argc, char** argv)
{
	pbt::Prop p;
	p.id = "C03";
	p.rule = "random histories of 2..24 operations (construct, write, reallocate, reshape, release, copy with reshape, copy, clone, move, destroy, store, restore) over several tensors of rank 1..4, compared after every step with a model and with two allocators that keep books; non-trivial: data was carried over by at least one reshape";
	p.facets = {{"machine", machine, 1}};
	p.quick = 72000; p.thorough = 1000000; p.batch = 400;
	return pbt::harness_main(argc, argv, {p});
}
