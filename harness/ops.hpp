// Operands for operation checks: variables, placeholders and constants with known contents
#pragma once
#include "graph.hpp"

struct Operand
{
	int kind = 0;             // 0 variable, 1 placeholder, 2 constant
	Dims d; Vec v;
	Vp p;
	Node* owned = nullptr;    // leaf to delete at the end (constants belong to their audience)
};
struct Pool
{
	std::vector<Node*> owned;
	~Pool (void) { for (Node* n : owned) delete n; }
	Operand leaf (Src& s, int kind, const Dims& d, const Vec& v, const std::string& name, bool late = false)
	{
		(void) s;
		Operand o; o.kind = kind; o.d = d; o.v = v;
		switch (kind)
		{
			case 0:
			{
				if (late) { nnet::const_init<double> z(0); o.owned = new Var(tensorshape(d), z, name); }
				else o.owned = make_var(d, v, name);
				break;
			}
			case 1:
			{
				Ph* h = new Ph(tensorshape(d), name);
				if (!late) *h = v;
				o.owned = h;
				break;
			}
			default:
				o.p = nnet::constant<double>::get(v, tensorshape(d));
		}
		if (o.owned) { owned.push_back(o.owned); o.p = o.owned; }
		return o;
	}
	// a leaf gets (new) contents
	static void fill (Operand& o, const Vec& v)
	{
		o.v = v;
		if (o.kind == 0)
		{
			Var* x = static_cast<Var*>(o.owned);
			if (!x->good_status()) x->initialize();
			set_var(x, v);
		}
		else if (o.kind == 1) *static_cast<Ph*>(o.owned) = v;
	}
};
inline const char* kind_name (int k) { return k == 0 ? "variable" : (k == 1 ? "placeholder" : "constant"); }

// result of an elementwise operation: the shape of the operands, or a scalar standing for equal elements
inline void expect_elem (Ctx& c, const Val& got, const Dims& d, const Vec& want, const std::string& what, double rel = 1e-12, double abs = 1e-12)
{
	if (got.v.size() == 1 && want.size() > 1)
	{
		for (double w : want) P_CHECK(c, close_to(got.v[0], w, rel, abs), what << " is the scalar " << got.v[0] << ", expected " << show(want));
		return;
	}
	P_CHECK(c, got.v.size() == want.size() && close_to(got.v, want, rel, abs), what << " is " << show(got) << ", expected " << show(d) << "=" << show(want));
	P_CHECK(c, ref::trim(got.d) == ref::trim(d), what << " has shape " << show(got.d) << ", expected " << show(d));
	P_CHECK(c, got.v.size() == 1 || got.d == d, what << " has shape " << show(got.d) << ", expected " << show(d));
}
