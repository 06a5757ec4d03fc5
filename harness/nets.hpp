// Fully connected networks and plain reference models of them
#pragma once
#include "ops.hpp"
#include "compounds/mlp.hpp"
#include "models/gd_net.hpp"
#include "models/rbm.hpp"
#include "models/db_net.hpp"
#include "utils/gd_utils.hpp"

namespace nets {
using namespace nnet;
using namespace rocnnet;

enum Act { IDENT, SIGM, TANH, SINE, SQUARE, NACT };
static const char* const ACTS[] = {"linear", "sigmoid", "tanh", "sin", "square"};
inline double act (int a, double x)
{
	switch (a) { case SIGM: return 1 / (1 + std::exp(-x)); case TANH: return std::tanh(x); case SINE: return std::sin(x); case SQUARE: return x * x; default: return x; }
}
// slope, at x with act(x) = y
inline double slope (int a, double x, double y)
{
	switch (a) { case SIGM: return y * (1 - y); case TANH: return 1 - y * y; case SINE: return std::cos(x); case SQUARE: return 2 * x; default: return 1; }
}
inline VAR_FUNC act_of (int a)
{
	switch (a)
	{
		case SIGM: return [](inode<double>* x) { return sigmoid<double>(Vp(x)); };
		case TANH: return [](inode<double>* x) { return nnet::tanh<double>(Vp(x)); };
		case SINE: return [](inode<double>* x) { return nnet::sin<double>(Vp(x)); };
		case SQUARE: return [](inode<double>* x) { return nnet::pow<double>(Vp(x), 2.0); };
		default: return [](inode<double>* x) { return identity<double>(Vp(x)); };
	}
}

struct RLayer { size_t in, out; int act; Vec w, b; Vec mw, mb; };

// a network as plain numbers
struct Ref
{
	std::vector<RLayer> ls;
	bool rms = false; double lr = 0.1, disc = 0.5;
	mutable bool far = false; // beyond where the activations of the library can be computed

	size_t nin (void) const { return ls[0].in; }
	size_t nout (void) const { return ls.back().out; }
	// pre-activations and activations of every layer
	void run (const Vec& x, size_t batch, std::vector<Vec>& pre, std::vector<Vec>& post) const
	{
		pre.clear(); post.assign(1, x);
		for (const RLayer& l : ls)
		{
			Vec z(l.out * batch), y(l.out * batch);
			for (size_t k = 0; k < batch; ++k) for (size_t o = 0; o < l.out; ++o)
			{
				double a = l.b[o]; for (size_t i = 0; i < l.in; ++i) a += post.back()[i + l.in * k] * l.w[o + l.out * i];
				z[o + l.out * k] = a; y[o + l.out * k] = nets::act(l.act, a);
				if (!(std::fabs(a) < 100)) far = true;
			}
			pre.push_back(z); post.push_back(y);
		}
	}
	Vec forward (const Vec& x, size_t batch) const { std::vector<Vec> a, b; run(x, batch, a, b); return b.back(); }
	// gradients of a sum with these derivatives by the outputs
	void back (const Vec& seed, size_t batch, const std::vector<Vec>& pre, const std::vector<Vec>& post, std::vector<Vec>& gw, std::vector<Vec>& gb) const
	{
		Vec d = seed; gw.assign(ls.size(), Vec()); gb.assign(ls.size(), Vec());
		for (size_t q = ls.size(); q-- > 0;)
		{
			const RLayer& l = ls[q]; gw[q].assign(l.w.size(), 0); gb[q].assign(l.b.size(), 0); Vec below(l.in * batch, 0);
			for (size_t k = 0; k < batch; ++k) for (size_t o = 0; o < l.out; ++o)
			{
				double e = d[o + l.out * k] * slope(l.act, pre[q][o + l.out * k], post[q + 1][o + l.out * k]);
				gb[q][o] += e;
				for (size_t i = 0; i < l.in; ++i) { gw[q][o + l.out * i] += e * post[q][i + l.in * k]; below[i + l.in * k] += e * l.w[o + l.out * i]; }
			}
			d = below;
		}
	}
	void restart (void) { for (RLayer& l : ls) { l.mw.assign(l.w.size(), 1); l.mb.assign(l.b.size(), 1); } }
	void move (Vec& v, Vec& m, const Vec& g)
	{
		for (size_t i = 0; i < v.size(); ++i)
		{
			if (!(std::fabs(g[i]) < 1e6)) far = true;
			if (!rms) { v[i] -= lr * g[i]; continue; }
			m[i] = disc * m[i] + (1 - disc) * g[i] * g[i];
			v[i] -= lr * g[i] / (std::sqrt(m[i]) + std::numeric_limits<double>::epsilon());
		}
	}
	void step (const std::vector<Vec>& gw, const std::vector<Vec>& gb) { for (size_t q = 0; q < ls.size(); ++q) { move(ls[q].w, ls[q].mw, gw[q]); move(ls[q].b, ls[q].mb, gb[q]); } }
	// one training step towards t; returns whether it moved anything
	bool train (const Vec& x, const Vec& t, size_t batch)
	{
		std::vector<Vec> pre, post, gw, gb; run(x, batch, pre, post);
		Vec d(post.back()); for (size_t i = 0; i < d.size(); ++i) { d[i] = 2 * (d[i] - t[i]); }
		back(d, batch, pre, post, gw, gb); step(gw, gb);
		bool any = false; for (const Vec& v : gw) for (double e : v) any = any || e != 0;
		return any;
	}
	Vec all (void) const { Vec r; for (const RLayer& l : ls) { r.insert(r.end(), l.w.begin(), l.w.end()); r.insert(r.end(), l.b.begin(), l.b.end()); } return r; }
};

inline Ref layout (Src& s, size_t maxlayers = 3, size_t width = 3)
{
	Ref r; size_t in = s.sz(1, width);
	for (size_t k = s.sz(1, maxlayers); k > 0; --k) { RLayer l; l.in = in; l.out = s.sz(1, width); l.act = (int) s.below(NACT); l.w.assign(l.in * l.out, 0); l.b.assign(l.out, 0); r.ls.push_back(l); in = l.out; }
	return r;
}
inline void fresh (Src& s, Ref& r) { for (RLayer& l : r.ls) { for (double& x : l.w) x = s.dyadic(2, 16); for (double& x : l.b) x = s.dyadic(2, 16); } }
inline std::string describe (const Ref& r)
{
	std::ostringstream o; o << r.ls[0].in << " inputs"; for (const RLayer& l : r.ls) o << ", " << l.out << " " << ACTS[l.act]; return o.str();
}
inline mlp* build (const Ref& r, const std::string& scope)
{
	std::vector<IN_PAIR> h; for (const RLayer& l : r.ls) h.push_back(IN_PAIR(l.out, act_of(l.act)));
	return new mlp(r.ls[0].in, h, scope);
}
// variables of a network: weight and bias of every layer
inline void put (const std::vector<Var*>& vars, const Ref& r)
{
	for (size_t q = 0; q < r.ls.size(); ++q)
	{
		if (!vars[2 * q]->good_status()) vars[2 * q]->initialize();
		if (!vars[2 * q + 1]->good_status()) vars[2 * q + 1]->initialize();
		set_var(vars[2 * q], r.ls[q].w); set_var(vars[2 * q + 1], r.ls[q].b);
	}
}
inline void get (const std::vector<Var*>& vars, Ref& r)
{
	for (size_t q = 0; q < r.ls.size(); ++q) { r.ls[q].w = value_of(vars[2 * q]).v; r.ls[q].b = value_of(vars[2 * q + 1]).v; }
}
inline void same_vars (Ctx& c, const std::vector<Var*>& vars, const Ref& r, double tol, const char* what)
{
	P_CHECK(c, vars.size() == 2 * r.ls.size(), what << " has " << vars.size() << " variables for " << r.ls.size() << " layers");
	for (size_t q = 0; q < r.ls.size(); ++q)
	{
		Val w = value_of(vars[2 * q]), b = value_of(vars[2 * q + 1]);
		P_CHECK(c, (w.d == Dims{r.ls[q].out, r.ls[q].in}) && (b.d == Dims{r.ls[q].out}), what << ": variables of layer " << q << " are " << show(w.d) << " and " << show(b.d));
		P_CHECK(c, close_to(w.v, r.ls[q].w, tol, tol), what << ": weight of layer " << q << " is " << show(w.v) << ", expected " << show(r.ls[q].w));
		P_CHECK(c, close_to(b.v, r.ls[q].b, tol, tol), what << ": bias of layer " << q << " is " << show(b.v) << ", expected " << show(r.ls[q].b));
	}
}
inline Vec some (Src& s, size_t n, int mag = 2, int den = 8) { Vec v(n); for (double& x : v) x = s.dyadic(mag, den); return v; }
inline double biggest (const Vec& v) { double m = 1; for (double x : v) m = std::max(m, std::fabs(x)); return m; }
}
