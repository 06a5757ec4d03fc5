// C26: restricted machines and belief networks against their formulas
#include "nets.hpp"
using namespace nets;

static double sig (double x) { return 1 / (1 + std::exp(-x)); }
static double soft (double x) { return x > 0 ? x + std::log1p(std::exp(-x)) : std::log1p(std::exp(x)); }

struct M
{
	size_t nv, nh; Vec W, hb, vb; // W: hidden fastest
	double q (const double* v, size_t j) const { double a = hb[j]; for (size_t i = 0; i < nv; ++i) a += v[i] * W[j + nh * i]; return a; }
	double p (const double* h, size_t i) const { double a = vb[i]; for (size_t j = 0; j < nh; ++j) a += h[j] * W[j + nh * i]; return a; }
	Vec up (const Vec& v, size_t B) const { Vec r(nh * B); for (size_t b = 0; b < B; ++b) for (size_t j = 0; j < nh; ++j) r[j + nh * b] = q(&v[nv * b], j); return r; }
	Vec down (const Vec& h, size_t B) const { Vec r(nv * B); for (size_t b = 0; b < B; ++b) for (size_t i = 0; i < nv; ++i) r[i + nv * b] = p(&h[nh * b], i); return r; }
	double energy (const double* v) const { double f = 0; for (size_t i = 0; i < nv; ++i) f -= v[i] * vb[i]; for (size_t j = 0; j < nh; ++j) f -= soft(q(v, j)); return f; }
	// add a multiple of the gradient of the mean free energy
	void descend (const Vec& v, size_t B, double by, const M& at)
	{
		for (size_t b = 0; b < B; ++b)
		{
			const double* x = &v[nv * b];
			for (size_t i = 0; i < nv; ++i) vb[i] -= by / B * x[i];
			for (size_t j = 0; j < nh; ++j)
			{
				double g = sig(at.q(x, j)) * by / B; hb[j] -= g;
				for (size_t i = 0; i < nv; ++i) W[j + nh * i] -= g * x[i];
			}
		}
	}
};
static Vec each (Vec v, double (*f)(double)) { for (double& x : v) x = f(x); return v; }
static Vec steps (Vec v, double& margin) { for (double& x : v) { margin = std::min(margin, std::fabs(x)); x = x > 0; } return v; }
static Vec halves (Src& s, size_t n, int den) { Vec v(n); for (double& x : v) x = s.sz(0, den) / (double) den; return v; }

static void put (const std::vector<Var*>& v, const M& m)
{
	for (Var* x : v) if (!x->good_status()) x->initialize();
	set_var(v[0], m.W); set_var(v[1], m.hb); set_var(v[2], m.vb);
}
static M get (const std::vector<Var*>& v, M m) { m.W = value_of(v[0]).v; m.hb = value_of(v[1]).v; m.vb = value_of(v[2]).v; return m; }
static std::string show (const M& m) { return "weights " + show(m.W) + " hidden biases " + show(m.hb) + " visible biases " + show(m.vb); }
static void same (Ctx& c, const M& got, const M& want, double tol, const char* what)
{
	P_CHECK(c, close_to(got.W, want.W, tol, tol) && close_to(got.hb, want.hb, tol, tol) && close_to(got.vb, want.vb, tol, tol), what << " is " << show(got) << ", expected " << show(want));
}
// results of one element count as such in whatever rank
static bool shaped (const Val& v, size_t a, size_t b) { return v.d == Dims{a, b} || (a * b == 1 && v.v.size() == 1); }
enum { PLAIN, VISIBLE, FULL, HIDDEN };
static double spread (const M& m, bool hidden) { double k = 0; for (size_t a = 0; a < (hidden ? m.nh : m.nv); ++a) { double t = 0; for (size_t b = 0; b < (hidden ? m.nv : m.nh); ++b) t += std::fabs(m.W[hidden ? a + m.nh * b : b + m.nh * a]); k = std::max(k, t); } return k; }
static M some_machine (Src& s, size_t nv, size_t nh, int mode)
{
	M m; m.nv = nv; m.nh = nh; m.W.resize(nv * nh); m.hb.resize(nh); m.vb.resize(nv);
	if (mode == FULL)
	{
		for (double& x : m.W) x = 128.0 * s.range(-1, 1);
		for (double& x : m.hb) x = 32.0 * (2 * s.range(-2, 1) + 1);
		for (double& x : m.vb) x = 32.0 * (2 * s.range(-2, 1) + 1);
		return m;
	}
	for (double& x : m.W) x = s.dyadic(2, 8);
	double far = 45;
	for (double& x : m.hb) x = mode == HIDDEN ? (s.flip() ? 1 : -1) * (far + spread(m, true)) : s.dyadic(2, 8);
	for (double& x : m.vb) x = mode == VISIBLE ? (s.flip() ? 1 : -1) * (far + spread(m, false)) : s.dyadic(2, 8);
	return m;
}

// the distributions of units given the others, whatever the history
static void distributions (Ctx& c)
{
	Src& s = c.s; size_t nv = s.sz(1, 4), nh = s.sz(1, 4), B = s.sz(1, 4); bool open = s.flip(1, 3);
	M m = some_machine(s, nv, nh, PLAIN); rbm net(nv, nh, "machine"); auto vars = net.get_variables();
	P_LOG(c, nv << " visible and " << nh << " hidden units, " << B << " samples");
	P_CHECK(c, vars.size() == 3 && net.get_ninput() == nv && net.get_noutput() == nh, "the machine has " << vars.size() << " variables, " << net.get_ninput() << " visible and " << net.get_noutput() << " hidden units");
	Ph x(tensorshape(Dims{nv, open ? 0 : B}), "visible"), h(tensorshape(Dims{nh, open ? 0 : B}), "hidden");
	bool late = s.flip(); Vp up, down;
	if (late) { up = net.prop_up(&x); down = net.prop_down(&h); }
	for (Var* v : vars) v->initialize();
	M init = get(vars, m); double lim = 4 * std::sqrt(6.0 / (nv + nh));
	P_CHECK(c, init.W.size() == nv * nh && init.hb == Vec(nh, 0) && init.vb == Vec(nv, 0), "a fresh machine has " << show(init));
	for (double w : init.W) P_CHECK(c, std::fabs(w) <= lim, "a fresh weight is " << w << ", beyond " << lim);
	if (nv * nh > 1) { std::set<double> u(init.W.begin(), init.W.end()); P_CHECK(c, u.size() == init.W.size(), "fresh weights repeat: " << show(init.W)); }
	if (!late) { up = net.prop_up(&x); down = net.prop_down(&h); }
	P_CHECK(c, value_of(up.get()).v.empty() && value_of(down.get()).v.empty(), "units have values before their inputs");
	if (s.flip(1, 4)) m = init; else put(vars, m);
	Vec xv = some(s, nv * B), hv = some(s, nh * B); x = xv; h = hv; bool var = false;
	for (size_t k = s.sz(1, 5); ; --k)
	{
		Val a = value_of(up.get()), b = value_of(down.get()); Vec wa = each(m.up(xv, B), sig), wb = each(m.down(hv, B), sig);
		P_CHECK(c, shaped(a, nh, B) && close_to(a.v, wa, 1e-9, 1e-9), "hidden units given " << show(xv) << " are " << show(a) << ", expected " << show(wa) << " by " << show(m));
		P_CHECK(c, shaped(b, nv, B) && close_to(b.v, wb, 1e-9, 1e-9), "visible units given " << show(hv) << " are " << show(b) << ", expected " << show(wb) << " by " << show(m));
		if (!k) break;
		switch (s.below(4))
		{
			case 0: xv = some(s, nv * B); x = xv; P_LOG(c, "visible = " << show(xv)); break;
			case 1: hv = some(s, nh * B); h = hv; P_LOG(c, "hidden = " << show(hv)); break;
			case 2: { m = some_machine(s, nv, nh, PLAIN); put(vars, m); P_LOG(c, show(m)); break; }
			default: { size_t w = s.below(3); Vec& v = w == 0 ? m.W : w == 1 ? m.hb : m.vb; v = some(s, v.size()); set_var(vars[w], v); P_LOG(c, "variable " << w << " = " << show(v)); }
		}
		var = true;
	}
	c.nontrivial(var && B > 1 && nv > 1 && nh > 1);
}

// reconstructions: the distribution given sampled units
static void reconstruct (Ctx& c)
{
	Src& s = c.s; bool vis = s.flip(); size_t nv = s.sz(1, vis ? 3 : 2), nh = s.sz(1, vis ? 2 : 3), B = 300, mid = vis ? nh : nv, end = vis ? nv : nh, in = vis ? nv : nh;
	M m = some_machine(s, nv, nh, PLAIN); rbm net(nv, nh, "machine"); auto vars = net.get_variables(); put(vars, m); use_seed(s.below(1u << 30));
	P_LOG(c, (vis ? "visible" : "hidden") << " units of a machine of " << nv << " and " << nh << ", " << show(m));
	Vec one = some(s, in); Ph x(tensorshape(Dims{in, B}), "x"); Vec xv; for (size_t b = 0; b < B; ++b) xv.insert(xv.end(), one.begin(), one.end()); x = xv;
	Vp r = vis ? net.reconstruct_visible(&x) : net.reconstruct_hidden(&x);
	for (size_t round = 0; round < 2; ++round)
	{
		Vec prob(mid); for (size_t j = 0; j < mid; ++j) prob[j] = sig(vis ? m.q(one.data(), j) : m.p(one.data(), j));
		// every pattern of the sampled units with its outcome
		size_t pats = (size_t) 1 << mid; std::vector<Vec> out(pats); Vec expect(pats, 1), count(pats, 0);
		for (size_t a = 0; a < pats; ++a)
		{
			Vec u(mid); for (size_t j = 0; j < mid; ++j) { u[j] = (a >> j) & 1; expect[a] *= u[j] ? prob[j] : 1 - prob[j]; }
			out[a] = each(vis ? m.down(u, 1) : m.up(u, 1), sig);
		}
		Val got = value_of(r.get()); P_CHECK(c, shaped(got, end, B), "the reconstruction has shape " << show(got.d));
		bool clear = true;
		for (size_t a = 0; a < pats; ++a) for (size_t b = 0; b < a; ++b) clear = clear && !close_to(out[a], out[b], 1e-6, 1e-6);
		for (size_t b = 0; b < B; ++b)
		{
			Vec col(got.v.begin() + end * b, got.v.begin() + end * (b + 1)); size_t a = 0; while (a < pats && !close_to(col, out[a], 1e-9, 1e-9)) ++a;
			P_CHECK(c, a < pats, "a reconstruction is " << show(col) << ", given by no pattern of units"); count[a]++;
		}
		if (clear) for (size_t a = 0; a < pats; ++a) P_CHECK(c, std::fabs(count[a] - B * expect[a]) <= 6.5 * std::sqrt(B * expect[a] * (1 - expect[a])) + 7, "pattern " << a << " was sampled " << count[a] << " times of " << B << ", expected " << B * expect[a]);
		one = some(s, in); xv.clear(); for (size_t b = 0; b < B; ++b) xv.insert(xv.end(), one.begin(), one.end()); x = xv;
		if (clear) c.nontrivial();
	}
}

struct Chain { M& m; size_t B; double margin = 1e9; Vec v, h; };
// training histories
static void divergence (Ctx& c)
{
	Src& s = c.s; int mode = 1 + (int) s.below(3); size_t nv = s.sz(1, 3), nh = s.sz(1, 3), B = s.sz(1, 3), k = s.sz(1, 3); bool keep = s.flip();
	double lr = s.sz(1, 8) / 8.0; M m = some_machine(s, nv, nh, mode); rbm net(nv, nh, "machine"); auto vars = net.get_variables(); put(vars, m); use_seed(s.below(1u << 30));
	static const char* const MODES[] = {"", "certain visible units", "certain units", "certain hidden units"};
	P_LOG(c, nv << " visible and " << nh << " hidden units, " << B << " samples, " << k << " steps of the chain" << (keep ? " that is kept" : "") << ", rate " << lr << "; " << MODES[mode] << ": " << show(m));
	c.label(MODES[mode]); c.label(keep ? "kept chain" : "fresh chain");
	Ph x(tensorshape(Dims{nv, B}), "x"); Vec xv = halves(s, nv * B, mode == FULL ? 2 : 4); bool early = s.flip(); if (early) x = xv;
	Vec chain(nh * B, 0); for (double& e : chain) e = s.below(2);
	std::unique_ptr<Var> pers; if (keep) pers.reset(make_var(Dims{nh, B}, chain, "chain"));
	update_cost_t t = net.train(&x, pers.get(), lr, k); if (!early) x = xv;
	P_LOG(c, "x = " << show(xv) << (keep ? ", chain = " + show(chain) : ""));
	size_t trained = 0;
	for (size_t n = s.sz(1, 6); n > 0; --n)
	{
		double margin = 1e9; Vec vk, hk;
		// the chain in the model, where it is certain
		if (mode == VISIBLE) { vk = steps(m.down(Vec(nh * B, 0), B), margin); margin -= spread(m, false); }
		else
		{
			hk = keep ? chain : steps(m.up(xv, B), margin);
			for (size_t i = 0; i < k; ++i)
			{
				if (mode == HIDDEN) { double w = 1e9; hk = i || !keep ? steps(m.up(Vec(nv * B, 0), B), w) : hk; margin = std::min(margin, w - spread(m, true)); if (i + 1 < k) hk = steps(m.up(Vec(nv * B, 0), B), w); continue; }
				vk = steps(m.down(hk, B), margin); hk = steps(m.up(vk, B), margin);
			}
		}
		bool sure = margin >= 25;
		switch (s.weighted({4, 2, 2, 2, 1}))
		{
			case 0:
			{
				if (!sure) break;
				P_LOG(c, "trains"); t.first(true); trained++;
				M got = get(vars, m), want = m;
				if (mode == HIDDEN)
				{
					// the sampled visible units show in their biases
					Vec mean(nv, 0); for (size_t b = 0; b < B; ++b) for (size_t i = 0; i < nv; ++i) mean[i] += xv[i + nv * b] / B;
					for (size_t i = 0; i < nv; ++i)
					{
						double ones = (mean[i] - (got.vb[i] - m.vb[i]) / lr) * B;
						P_CHECK(c, std::fabs(ones - std::round(ones)) < 1e-6 && std::round(ones) >= 0 && std::round(ones) <= B, "the bias of visible unit " << i << " went from " << m.vb[i] << " to " << got.vb[i] << " at a mean of " << mean[i] << ", as if " << ones << " samples of " << B << " were one");
						want.vb[i] = got.vb[i];
						for (size_t j = 0; j < nh; ++j) want.W[j + nh * i] += (m.hb[j] > 0) * (got.vb[i] - m.vb[i]);
					}
				}
				else { want.descend(xv, B, -lr, m); want.descend(vk, B, lr, m); }
				same(c, got, want, 1e-8, "the machine");
				for (double e : got.W) if (std::fabs(e) > 1000) return;
				if (keep)
				{
					Val p = value_of(pers.get()); P_CHECK(c, shaped(p, nh, B), "the chain has shape " << show(p.d));
					for (double e : p.v) P_CHECK(c, e == 0 || e == 1, "the chain is at " << show(p.v));
					if (mode == FULL) P_CHECK(c, p.v == hk, "the chain is at " << show(p.v) << ", expected " << show(hk));
					if (mode == HIDDEN) { double w = 0; Vec h = steps(m.up(Vec(nv * B, 0), B), w); P_CHECK(c, p.v == h, "the chain is at " << show(p.v) << ", expected " << show(h)); }
					chain = p.v;
				}
				m = got; break;
			}
			case 1: { xv = halves(s, nv * B, mode == FULL ? 2 : 4); x = xv; P_LOG(c, "x = " << show(xv)); break; }
			case 2: { m = some_machine(s, nv, nh, mode); put(vars, m); P_LOG(c, show(m)); break; }
			case 3:
			{
				Vec cost; 
				if (keep)
				{
					double w = 0; bool fine = true;
					for (size_t b = 0; b < B; ++b)
					{
						Vec a(nv), f; for (size_t i = 0; i < nv; ++i) a[i] = std::round(xv[i + nv * b]);
						f = a; f[0] = 1 - f[0]; double d = m.energy(f.data()) - m.energy(a.data()); fine = fine && std::fabs(d) < 300; w -= nv * soft(-d) / B;
					}
					if (!fine) break;
					Val got = value_of(t.second.get()); P_CHECK(c, got.v.size() == 1 && close_to(got.v[0], w, 1e-8, 1e-8), "the pseudo likelihood is " << show(got) << ", expected " << w << " of " << show(xv)); c.label("pseudo likelihood");
				}
				else if (mode == HIDDEN && sure)
				{
					double w = 0; Vec p = each(m.down(hk, B), sig); for (size_t i = 0; i < p.size(); ++i) w += (xv[i] * std::log(p[i]) + (1 - xv[i]) * std::log(1 - p[i])) / B;
					Val got = value_of(t.second.get()); P_CHECK(c, got.v.size() == 1 && close_to(got.v[0], w, 1e-8, 1e-8), "the reconstruction cost is " << show(got) << ", expected " << w << " of " << show(xv) << " and " << show(p)); c.label("reconstruction cost");
				}
				break;
			}
			default: if (keep) { for (double& e : chain) e = s.below(2); set_var(pers.get(), chain); P_LOG(c, "chain = " << show(chain)); }
		}
		same(c, get(vars, m), m, 0, "outside training, the machine");
	}
	c.nontrivial(trained > 0);
}

// belief networks: machines under a logistic layer
static void belief (Ctx& c)
{
	Src& s = c.s; std::vector<size_t> sizes(1, s.sz(1, 3)); bool alike = s.flip(); for (size_t k = s.sz(1, 5); k > 0; --k) sizes.push_back(alike ? sizes[0] : s.sz(1, 3)); // up to four machines
	size_t L = sizes.size() - 2, B = s.sz(1, 3); double lr = s.sz(1, 8) / 8.0; size_t k = s.sz(1, 3); bool full = s.flip(1, 3); // all units certain
	db_net net(sizes[0], std::vector<size_t>(sizes.begin() + 1, sizes.end()), "net"); auto vars = net.get_variables(); use_seed(s.below(1u << 30));
	P_CHECK(c, vars.size() == 3 * L + 2 && net.get_ninput() == sizes[0] && net.get_noutput() == sizes.back(), "a network of " << L << " machines has " << vars.size() << " variables, " << net.get_ninput() << " inputs and " << net.get_noutput() << " outputs");
	std::vector<M> ms; std::vector<std::vector<Var*> > mv;
	auto renew = [&](size_t l) { M m = some_machine(s, sizes[l], sizes[l + 1], full ? FULL : VISIBLE); ms[l] = m; put(mv[l], m); };
	for (size_t l = 0; l < L; ++l) { mv.push_back(std::vector<Var*>(vars.begin() + 3 * l, vars.begin() + 3 * l + 3)); ms.push_back(M()); renew(l); }
	size_t in = sizes[L], out = sizes[L + 1]; Vec w = some(s, in * out), b = some(s, out); for (size_t q = 3 * L; q < vars.size(); ++q) vars[q]->initialize(); set_var(vars[3 * L], w); set_var(vars[3 * L + 1], b);
	P_LOG(c, "units " << show(sizes) << ", " << B << " samples, rate " << lr);
	Ph x(tensorshape(Dims{sizes[0], B}), "x"); Vec xv = halves(s, sizes[0] * B, full ? 1 : 4); x = xv;
	Vp top = net.prop_up(&x); pretrain_t pt = net.pretraining_functions(x, lr, k); size_t trained = 0;
	P_CHECK(c, pt.size() == L, pt.size() << " functions to train " << L << " machines");
	for (size_t n = s.sz(1, 6); n > 0; --n)
	{
		switch (s.weighted({4, 1, 1, 2, 1}))
		{
			case 0:
			{
				if (!L) break;
				size_t l = s.below(L); Vec v = xv; for (size_t q = 0; q < l; ++q) v = each(ms[q].up(v, B), sig);
				double margin = 1e9; Vec vk;
				if (full) { Vec h = steps(ms[l].up(v, B), margin); for (size_t q = 0; q < k; ++q) { vk = steps(ms[l].down(h, B), margin); h = steps(ms[l].up(vk, B), margin); } if (margin < 25) break; c.label("certain chains"); }
				else { vk = steps(ms[l].down(Vec(sizes[l + 1] * B, 0), B), margin); if (margin - spread(ms[l], false) < 25) break; }
				P_LOG(c, "trains machine " << l); pt[l].first(true); M m = ms[l]; ms[l].descend(v, B, -lr, m); ms[l].descend(vk, B, lr, m); trained += l + 1;
				for (size_t q = 0; q < L; ++q) { M got = get(mv[q], ms[q]); same(c, got, ms[q], 1e-8, q == l ? "the trained machine" : "another machine"); ms[q] = got; }
				P_CHECK(c, value_of(vars[3 * L]).v == w && value_of(vars[3 * L + 1]).v == b, "training a machine changed the logistic layer"); break;
			}
			case 1: xv = halves(s, sizes[0] * B, full ? 1 : 4); x = xv; P_LOG(c, "x = " << show(xv)); break;
			case 2: { if (!L) break; size_t l = s.below(L); renew(l); P_LOG(c, "machine " << l << ": " << show(ms[l])); break; }
			case 3:
			{
				Vec v = xv; for (const M& m : ms) v = each(m.up(v, B), sig);
				Val got = value_of(top.get()); P_CHECK(c, shaped(got, out, B), "the output has shape " << show(got.d));
				// relative weights within each sample; with one sample they are the distribution itself
				for (size_t q = 0; q < B; ++q)
				{
					double tot = 0, all = 0; Vec e(out); for (size_t o = 0; o < out; ++o) { double a = b[o]; for (size_t i = 0; i < in; ++i) a += v[i + in * q] * w[o + out * i]; e[o] = std::exp(a); tot += e[o]; all += got.v[o + out * q]; }
					if (B == 1) P_CHECK(c, close_to(all, 1.0, 1e-9, 1e-9), "the output of one sample adds up to " << all);
					for (size_t o = 0; o < out; ++o) P_CHECK(c, close_to(got.v[o + out * q] / all, e[o] / tot, 1e-9, 1e-9), "output " << o << " of sample " << q << " is " << got.v[o + out * q] / all << ", expected " << e[o] / tot);
				}
				break;
			}
			default: w = some(s, in * out); b = some(s, out); set_var(vars[3 * L], w); set_var(vars[3 * L + 1], b); P_LOG(c, "logistic layer " << show(w) << ", " << show(b));
		}
	}
	c.nontrivial(trained > 1);
}

// fine tuning moves all parameters at once: twice the rate, twice the step from the same place
struct Tuned
{
	db_net net; std::vector<Var*> vars; Ph x, y; update_cost_t tune;
	Tuned (const std::vector<size_t>& sizes, double lr) : net(sizes[0], std::vector<size_t>(sizes.begin() + 1, sizes.end()), "net"), vars(net.get_variables()),
		x(tensorshape(Dims{sizes[0], 1}), "x"), y(tensorshape(Dims{sizes.back(), 1}), "y") { for (Var* v : vars) v->initialize(); tune = net.build_finetune_functions(x, y, lr); }
	void put (const std::vector<Vec>& th, const Vec& xv, const Vec& yv) { for (size_t i = 0; i < th.size(); ++i) set_var(vars[i], th[i]); x = xv; y = yv; }
};
static void finetune (Ctx& c)
{
	Src& s = c.s; std::vector<size_t> sizes(1, s.sz(1, 3)); for (size_t k = s.sz(1, 3); k > 0; --k) sizes.push_back(s.sz(1, 3));
	size_t L = sizes.size() - 2, out = sizes.back(); double lr = s.sz(1, 8) / 8.0, f = s.flip() ? 2 : 0.5;
	Tuned a(sizes, lr), b(sizes, lr * f); size_t nv = a.vars.size();
	P_CHECK(c, nv == 3 * L + 2, nv << " variables");
	std::vector<Vec> th(nv); for (size_t i = 0; i < nv; ++i) th[i] = some(s, value_of(a.vars[i]).v.size());
	P_LOG(c, "units " << show(sizes) << ", rates " << lr << " and " << lr * f);
	Vec xv = halves(s, sizes[0], 4), yv(out, 0); yv[s.below(out)] = 1; a.put(th, xv, yv);
	auto forward = [&]()
	{
		Vec v = xv;
		for (size_t l = 0; l <= L; ++l)
		{
			size_t ni = sizes[l], no = sizes[l + 1]; Vec r(no);
			for (size_t o = 0; o < no; ++o) { double a = th[3 * l + 1][o]; for (size_t i = 0; i < ni; ++i) a += v[i] * th[3 * l][o + no * i]; r[o] = l < L ? sig(a) : std::exp(a); }
			v = r;
		}
		double tot = 0; for (double e : v) tot += e; for (double& e : v) e /= tot;
		return v;
	};
	bool moved = false;
	for (size_t n = s.sz(1, 5); n > 0; --n)
	{
		switch (s.weighted({4, 1, 1, 1, 2}))
		{
			case 0:
			{
				b.put(th, xv, yv); a.tune.first(true); b.tune.first(true); P_LOG(c, "tunes");
				for (size_t i = 0; i < nv; ++i)
				{
					Vec va = value_of(a.vars[i]).v, vb = value_of(b.vars[i]).v; P_CHECK(c, va.size() == th[i].size() && vb.size() == th[i].size(), "parameter " << i << " has another size");
					bool visible = i < 3 * L && i % 3 == 2;
					for (size_t j = 0; j < va.size(); ++j)
					{
						P_CHECK(c, close_to(vb[j] - th[i][j], f * (va[j] - th[i][j]), 1e-7, 1e-9), "element " << j << " of parameter " << i << " goes from " << th[i][j] << " to " << va[j] << " with the rate " << lr << ", to " << vb[j] << " with the rate " << lr * f);
						if (visible) P_CHECK(c, va[j] == th[i][j], "the biases of visible units, unused, are tuned"); moved |= L && va[j] != th[i][j];
					}
					th[i] = va;
				}
				c.label("tuned"); break;
			}
			case 1: xv = halves(s, sizes[0], 4); a.x = xv; P_LOG(c, "x = " << show(xv)); break;
			case 2: yv.assign(out, 0); yv[s.below(out)] = 1; a.y = yv; P_LOG(c, "y = " << show(yv)); break;
			case 3: { size_t i = s.below(nv); th[i] = some(s, th[i].size()); set_var(a.vars[i], th[i]); P_LOG(c, "parameter " << i << " = " << show(th[i])); break; }
			default:
			{
				Vec p = forward(); double w = 0; for (size_t o = 0; o < out; ++o) w += (p[o] - yv[o]) * (p[o] - yv[o]) / out;
				Val got = value_of(a.tune.second.get()); P_CHECK(c, got.v.size() == 1 && close_to(got.v[0], w, 1e-8, 1e-8), "the error is " << show(got) << ", expected " << w);
			}
		}
	}
	c.nontrivial(moved);
}

// ---- known findings
static void labels_ignored (Ctx& c)
{
	Vec w[2];
	for (int k = 0; k < 2; ++k)
	{
		db_net net(2, {2}, "net"); auto vars = net.get_variables(); for (Var* v : vars) v->initialize(); set_var(vars[0], Vec{1, 0.5, -1, 0.25}); set_var(vars[1], Vec{0, 0});
		Ph x(tensorshape(Dims{2, 1}), "x"), y(tensorshape(Dims{2, 1}), "y"); x = Vec{1, 0.5}; y = k ? Vec{1, 0} : Vec{0, 1};
		update_cost_t t = net.build_finetune_functions(x, y, 0.5); t.first(true); w[k] = value_of(vars[1]).v;
	}
	P_CHECK(c, w[0] != w[1], "fine tuning towards opposite labels moves the network alike");
}
static void batch_output (Ctx& c)
{
	db_net net(2, {2}, "net"); auto vars = net.get_variables(); for (Var* v : vars) v->initialize();
	Ph x(tensorshape(Dims{2, 2}), "x"); x = Vec{1, 0.5, 0, 1}; Val y = value_of(net.prop_up(&x).get());
	P_CHECK(c, close_to(y.v[0] + y.v[1], 1.0, 1e-9, 1e-9), "the outputs of one of two samples add up to " << y.v[0] + y.v[1]);
}
// two outputs, equally likely: the cost is at its lowest and its gradient zero
static void false_gradient (Ctx& c)
{
	Tuned t({1, 2}, 0.5); t.put({Vec{0, 0}, Vec{0, 0}}, Vec{1}, Vec{1, 0}); t.tune.first(true);
	Vec b = value_of(t.vars[1]).v; P_CHECK(c, b == (Vec{0, 0}) || b[0] != b[1], "fine tuning moves the biases of equally likely outputs alike, to " << show(b));
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C26";
	p.rule = "machines and stacks of machines of 1 to 4 units, batches of 1 to 4: distributions after histories of changes, sampled reconstructions counted over 300 samples, and training histories in which saturated units make the sampled chain certain, so that every step is compared with the exact contrastive divergence step; non-trivial: several units and samples, distinguishable samples, or at least one training step";
	p.assumptions = {"units whose input exceeds 25 take their certain value", "counts of samples may deviate by 6.5 standard deviations"};
	p.facets = {{"distributions", distributions, 3}, {"reconstruct", reconstruct, 2}, {"divergence", divergence, 6}, {"belief", belief, 3}, {"finetune", finetune, 2}};
	p.known = {{"finetune-ignores-labels", labels_ignored, "fine tuning a belief network does not depend on the labels"},
		{"batch-output", batch_output, "the outputs of a belief network for several samples form one distribution over all of them"},
		{"finetune-gradient", false_gradient, "the gradient fine tuning follows leaves out how every output depends on the others"}};
	p.quick = 5000; p.thorough = 300000; p.batch = 50;
	return pbt::harness_main(argc, argv, {p});
}
