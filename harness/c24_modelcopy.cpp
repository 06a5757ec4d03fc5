// C24: copies, clones, moves and assignments of layers, networks and trainers
#include "nets.hpp"
#include "layers/conv_layer.hpp"
using namespace nets;
extern "C" size_t __sanitizer_get_current_allocated_bytes (void);

enum Kind { MLP, FC, CONV, RBM, DBN, NKIND };
static const char* const KINDS[] = {"network", "layer", "convolution layer", "restricted machine", "belief network"};

// variables of a model as plain numbers, with their shapes
struct Values { std::vector<Dims> d; std::vector<Vec> v; };
static double sig (double x) { return 1 / (1 + std::exp(-x)); }
static Vec affine (const Vec& x, const Vec& w, const Vec& b, size_t in, size_t out, size_t batch)
{
	Vec y(out * batch);
	for (size_t k = 0; k < batch; ++k) for (size_t o = 0; o < out; ++o) { double a = b[o]; for (size_t i = 0; i < in; ++i) a += x[i + in * k] * w[o + out * i]; y[o + out * k] = a; }
	return y;
}

struct Model
{
	ilayer* m = nullptr; Values val; size_t id;
	std::vector<std::pair<Vp, Vp> > outs; // nodes made by it so far (up, down)
};

struct Family
{
	Src& s; Kind kind; size_t nin, nout; std::vector<int> acts; std::vector<size_t> sizes; size_t batch;
	std::vector<size_t> more; std::vector<std::unique_ptr<Ph> > morex; std::vector<Vec> morev; // further inputs of a layer
	Family (Src& src) : s(src)
	{
		kind = (Kind) s.below(NKIND); batch = s.sz(1, 3); nin = s.sz(1, 3);
		size_t k = kind == MLP || kind == DBN ? s.sz(1, s.flip(1, 3) ? 5 : 3) : 1; bool alike = s.flip(1, 3); // layers that could stand for one another
		for (; k > 0; --k) { sizes.push_back(alike ? nin : s.sz(1, 3)); acts.push_back((int) s.below(SQUARE)); }
		nout = sizes.back();
		if (kind == FC) for (size_t n = s.below(3); n > 0; --n)
		{
			more.push_back(s.sz(1, 3)); Ph* q = new Ph(tensorshape(Dims{more.back(), batch}), "further"); morex.emplace_back(q);
			morev.push_back(some(s, more.back() * batch)); *q = morev.back();
		}
	}
	ilayer* make (std::string scope)
	{
		switch (kind)
		{
			case MLP: { std::vector<IN_PAIR> h; for (size_t k = 0; k < sizes.size(); ++k) h.push_back(IN_PAIR(sizes[k], act_of(acts[k]))); return new mlp(nin, h, scope); }
			case FC: { std::vector<size_t> in{nin}; in.insert(in.end(), more.begin(), more.end()); return new fc_layer(in, nout, scope); }
			case CONV: return new conv_layer({nin, batch}, nout, 2, scope);
			case RBM: return new rbm(nin, nout, scope);
			default: return new db_net(nin, sizes, scope);
		}
	}
	void assign (ilayer* a, ilayer* b, bool mv)
	{
#define AS(T) { T* x = static_cast<T*>(a); T* y = static_cast<T*>(b); if (mv) *x = std::move(*y); else *x = *y; break; }
		switch (kind) { case MLP: AS(mlp) case FC: AS(fc_layer) case CONV: AS(conv_layer) case RBM: AS(rbm) default: AS(db_net) }
	}
	std::pair<Vp, Vp> wire (ilayer* m, Node* x, Node* h)
	{
		switch (kind)
		{
			case MLP: return {static_cast<mlp*>(m)->prop_up(x), Vp()};
			case FC: { std::vector<Node*> in{x}; for (auto& q : morex) in.push_back(q.get()); return {(*static_cast<fc_layer*>(m))(in), Vp()}; }
			case RBM: return {static_cast<rbm*>(m)->prop_up(x), static_cast<rbm*>(m)->prop_down(h)};
			case DBN: return {static_cast<db_net*>(m)->prop_up(x), Vp()};
			default: return {Vp(), Vp()};
		}
	}
	std::vector<Dims> shapes (void)
	{
		std::vector<Dims> r; size_t in = nin;
		switch (kind)
		{
			case MLP: for (size_t o : sizes) { r.push_back({o, in}); r.push_back({o}); in = o; } break;
			case FC: r = {{nout, nin}, {nout}}; for (size_t n : more) { r.push_back({nout, n}); r.push_back({nout}); } break;
			case CONV: r = {{nin, batch, nout, 2}, {2}}; break;
			case RBM: r = {{nout, nin}, {nout}, {nin}}; break;
			default:
				for (size_t k = 0; k < sizes.size(); ++k) { size_t o = sizes[k]; r.push_back({o, in}); r.push_back({o}); if (k + 1 < sizes.size()) r.push_back({in}); in = o; }
		}
		return r;
	}
	Vec up (const Values& v, const Vec& x)
	{
		Vec y = x; size_t in = nin;
		switch (kind)
		{
			case MLP: for (size_t k = 0; k < sizes.size(); ++k) { y = affine(y, v.v[2 * k], v.v[2 * k + 1], in, sizes[k], batch); for (double& e : y) e = nets::act(acts[k], e); in = sizes[k]; } return y;
			case FC: y = affine(x, v.v[0], v.v[1], nin, nout, batch); for (size_t k = 0; k < more.size(); ++k) { Vec z = affine(morev[k], v.v[2 + 2 * k], v.v[3 + 2 * k], more[k], nout, batch); for (size_t i = 0; i < y.size(); ++i) y[i] += z[i]; } return y;
			case RBM: y = affine(x, v.v[0], v.v[1], nin, nout, batch); for (double& e : y) e = sig(e); return y;
			default:
			{
				size_t at = 0; double sum = 0;
				for (size_t k = 0; k < sizes.size(); ++k) { bool last = k + 1 == sizes.size(); y = affine(y, v.v[at], v.v[at + 1], in, sizes[k], batch); at += last ? 2 : 3; for (double& e : y) { e = last ? std::exp(e) : sig(e); if (last) sum += e; } in = sizes[k]; }
				for (double& e : y) e /= sum; return y;
			}
		}
	}
	Vec down (const Values& v, const Vec& h)
	{
		Vec y(nin * batch);
		for (size_t k = 0; k < batch; ++k) for (size_t i = 0; i < nin; ++i) { double a = v.v[2][i]; for (size_t o = 0; o < nout; ++o) a += h[o + nout * k] * v.v[0][o + nout * i]; y[i + nin * k] = sig(a); }
		return y;
	}
};

static void models (Ctx& c)
{
	Src& s = c.s; Family f(s); c.label(KINDS[f.kind]);
	P_LOG(c, KINDS[f.kind] << " of " << f.nin << " inputs, sizes " << show(f.sizes) << ", batch " << f.batch);
	Vec xv = some(s, f.nin * f.batch), hv = some(s, f.nout * f.batch);
	Ph x(tensorshape(Dims{f.nin, f.batch}), "x"), h(tensorshape(Dims{f.nout, f.batch}), "h"); x = xv; h = hv;
	std::vector<Model> live; size_t names = 0;
	struct Done { std::vector<Model>* l; ~Done() { for (Model& m : *l) delete m.m; } } done{&live};
	auto fill = [&](Model& m)
	{
		m.val.d = f.shapes(); m.val.v.clear(); std::vector<Var*> vars = m.m->get_variables();
		P_CHECK(c, vars.size() == m.val.d.size(), "m" << m.id << " has " << vars.size() << " variables, expected " << m.val.d.size());
		for (size_t k = 0; k < vars.size(); ++k) { m.val.v.push_back(some(s, ref::prod(m.val.d[k]))); if (!vars[k]->good_status()) vars[k]->initialize(); set_var(vars[k], m.val.v[k]); }
	};
	auto check = [&](Model& m)
	{
		std::vector<Var*> vars = m.m->get_variables();
		P_CHECK(c, vars.size() == m.val.d.size(), "m" << m.id << " has " << vars.size() << " variables, expected " << m.val.d.size());
		for (size_t k = 0; k < vars.size(); ++k) { Val g = value_of(vars[k]); P_CHECK(c, g.d == m.val.d[k] && g.v == m.val.v[k], "variable " << k << " of m" << m.id << " is " << show(g) << ", expected " << show(m.val.d[k]) << "=" << show(m.val.v[k])); }
		if (icompound* q = dynamic_cast<icompound*>(m.m)) P_CHECK(c, q->get_ninput() == f.nin && q->get_noutput() == f.nout, "m" << m.id << " reports " << q->get_ninput() << " inputs and " << q->get_noutput() << " outputs");
		for (auto& o : m.outs)
		{
			P_CHECK(c, o.first.get(), "a node computed by m" << m.id << " is gone");
			Val g = value_of(o.first.get()); Vec want = f.up(m.val, xv); P_CHECK(c, close_to(g.v, want, 1e-9, 1e-9), "m" << m.id << " gives " << show(g) << ", expected " << show(want));
			if (f.kind == RBM) { Val g = value_of(o.second.get()); Vec want = f.down(m.val, hv); P_CHECK(c, close_to(g.v, want, 1e-9, 1e-9), "m" << m.id << " gives back " << show(g) << ", expected " << show(want)); }
		}
	};
	auto add = [&](ilayer* l) -> Model& { Model m; m.m = l; m.id = names++; live.push_back(m); return live.back(); };
	{ Model& m = add(f.make("first")); if (!s.flip(1, 8)) fill(m); else { for (Var* v : m.m->get_variables()) v->initialize(); m.val.d = f.shapes(); for (Var* v : m.m->get_variables()) m.val.v.push_back(value_of(v).v); } }
	size_t copies = 0;
	for (size_t k = s.sz(2, 12); k > 0; --k)
	{
		size_t i = s.below(live.size()); Model& m = live[i];
		switch (s.weighted({3, 2, 2, 2, 3, 2, 2, 1}))
		{
			case 0: // clone
			{
				std::string nm; if (s.flip()) { std::ostringstream q; q << "copy" << names; nm = q.str(); }
				P_LOG(c, "m" << names << " = clone of m" << m.id << (nm.empty() ? "" : " under a name of its own"));
				Values v = m.val; ilayer* l = m.m->clone(nm); Model& n = add(l); n.val = v; copies++;
				for (Var* a : n.m->get_variables()) for (size_t j = 0; j + 1 < live.size(); ++j) for (Var* b : live[j].m->get_variables()) P_CHECK(c, a != b, "a clone shares a variable with m" << live[j].id);
				break;
			}
			case 1: // move
			{
				P_LOG(c, "m" << m.id << " is moved" );
				ilayer* l = m.m->move(); delete m.m; m.m = l; copies++;
				break;
			}
			case 2: // copy assignment
			{
				size_t j = s.below(live.size()); P_LOG(c, "m" << m.id << " = m" << live[j].id);
				f.assign(m.m, live[j].m, false);
				if (i != j) { for (auto& o : m.outs) P_CHECK(c, nullptr == o.first.get(), "a node computed by the overwritten m" << m.id << " is still there"); m.outs.clear(); m.val = live[j].val; copies++; }
				break;
			}
			case 3: // move assignment, from a copy that is given up
			{
				if (live.size() < 2) break;
				size_t j = s.below(live.size()); if (i == j) break; P_LOG(c, "m" << m.id << " = moved m" << live[j].id);
				f.assign(m.m, live[j].m, true);
				for (auto& o : m.outs) P_CHECK(c, nullptr == o.first.get(), "a node computed by the overwritten m" << m.id << " is still there");
				m.val = live[j].val; m.outs = live[j].outs; copies++;
				delete live[j].m; live.erase(live.begin() + j);
				break;
			}
			case 4: if (f.kind != CONV && m.outs.size() < 3) { P_LOG(c, "m" << m.id << " is applied"); m.outs.push_back(f.wire(m.m, &x, &h)); } break;
			case 5: P_LOG(c, "m" << m.id << " gets new values"); fill(m); break;
			case 6: xv = some(s, xv.size()); hv = some(s, hv.size()); x = xv; h = hv; P_LOG(c, "new input"); break;
			default:
				if (live.size() < 2) break;
				P_LOG(c, "m" << m.id << " is destroyed"); delete m.m; for (auto& o : m.outs) P_CHECK(c, nullptr == o.first.get(), "a node computed by the destroyed m" << m.id << " is still there"); live.erase(live.begin() + i);
		}
		if (s.flip()) check(live[s.below(live.size())]); else for (Model& m : live) check(m);
	}
	for (Model& m : live) check(m);
	c.nontrivial(copies > 0);
}

// trainers with everything they own
static void trainers (Ctx& c)
{
	Src& s = c.s; nets::Ref base = layout(s, 2); fresh(s, base); base.rms = s.flip(1, 3); base.lr = s.sz(1, 8) / 64.0; base.disc = s.sz(1, 15) / 16.0; base.restart();
	size_t batch = s.sz(1, 3), tbatch = s.sz(1, 2);
	struct T { gd_net* net; nets::Ref r; size_t id; };
	std::vector<T> live; size_t names = 0;
	struct Done { std::vector<T>* l; ~Done() { for (T& t : *l) delete t.net; } } done{&live};
	vgb_updater plain(base.lr); rmspropupdater prop(base.lr, base.disc);
	mlp* brain = build(base, "net"); put(brain->get_variables(), base);
	P_LOG(c, describe(base) << (base.rms ? ", rmsprop" : ", plain descent")); c.label(base.rms ? "rmsprop" : "plain descent");
	live.push_back(T{new gd_net(brain, base.rms ? (gd_updater&) prop : (gd_updater&) plain, "trainer"), base, names++});
	size_t copies = 0, trained = 0;
	for (size_t k = s.sz(2, 12); k > 0; --k)
	{
		size_t i = s.below(live.size());
		switch (s.weighted({4, 4, 3, 1, 2, 1, 1}))
		{
			case 0:
			{
				Vec x = some(s, base.nin() * batch), t = some(s, base.nout() * batch);
				nets::Ref next = live[i].r; bool any = next.train(x, t, batch); if (next.far || biggest(next.all()) > 50) break;
				P_LOG(c, "t" << live[i].id << " trains on " << show(x) << " towards " << show(t));
				live[i].net->train(x, t); live[i].r = next; trained += any; break;
			}
			case 1: break;
			case 2:
			{
				std::string nm = s.flip() ? "" : "copied"; P_LOG(c, "t" << names << " = copy of t" << live[i].id);
				gd_net* n = new gd_net(*live[i].net, nm); nets::Ref r = live[i].r; r.restart(); live.push_back(T{n, r, names++}); copies++; break;
			}
			case 3:
			{
				P_LOG(c, "t" << live[i].id << " is moved");
				gd_net* n = new gd_net(std::move(*live[i].net)); if (s.flip()) { delete live[i].net; live[i].net = n; } else { gd_net* old = live[i].net; live[i].net = n; delete old; }
				copies++; break;
			}
			case 4:
			{
				size_t j = s.below(live.size()); P_LOG(c, "t" << live[i].id << " = t" << live[j].id);
				*live[i].net = *live[j].net; if (i != j) { live[i].r = live[j].r; live[i].r.restart(); copies++; } break;
			}
			case 5:
			{
				if (live.size() < 2) break; size_t j = s.below(live.size()); if (i == j) break;
				P_LOG(c, "t" << live[i].id << " = moved t" << live[j].id); *live[i].net = std::move(*live[j].net); live[i].r = live[j].r; copies++;
				delete live[j].net; live.erase(live.begin() + j); break;
			}
			default:
				if (live.size() < 2) break;
				P_LOG(c, "t" << live[i].id << " is destroyed"); delete live[i].net; live.erase(live.begin() + i);
		}
		for (T& t : live) if (s.flip())
		{
			Vec x = some(s, base.nin() * tbatch), want = t.r.forward(x, tbatch); if (t.r.far) return;
			Vec got = (*t.net)(x);
			P_CHECK(c, close_to(got, want, 1e-6, 1e-6), "t" << t.id << " gives " << show(got) << " for " << show(x) << ", expected " << show(want));
		}
	}
	c.nontrivial(copies > 0 && trained > 0);
}

// a history leaves as much memory allocated as there was before
static void returned (Ctx& c)
{
	bool nets = c.s.flip(); uint64_t seed = c.s.below(1 << 30); size_t before = 0, after = 0;
	for (int round = 0; round < 3; ++round) // what is made once belongs to the process
	{
		before = __sanitizer_get_current_allocated_bytes();
		{ Src q(seed, nullptr); Ctx k(q); if (nets) trainers(k); else models(k); if (round == 0) { c.log(k.trace.str()); c.nontrivial(k.nontriv); } }
		after = __sanitizer_get_current_allocated_bytes();
	}
	c.label(nets ? "memory of trainers" : "memory of models");
	P_CHECK(c, after == before, "after all models are destroyed " << (long) (after - before) << " bytes are left behind");
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C24";
	p.rule = "histories of cloning, moving, copy and move assigning, applying, refilling and destroying networks, layers of one to three inputs, convolution layers, restricted machines and belief networks, every one compared with its own values and its output formula; the same with whole trainers that train on; the same histories run repeatedly, after which as much memory is allocated as before; non-trivial: something was copied or moved (and trained)";
	p.assumptions = {"optimiser state of copied trainers starts anew", "what was moved from is only destroyed"};
	p.facets = {{"models", models, 3}, {"trainers", trainers, 2}, {"returned", returned, 1}};
	p.quick = 9000; p.thorough = 150000; p.batch = 50;
	return pbt::harness_main(argc, argv, {p});
}
