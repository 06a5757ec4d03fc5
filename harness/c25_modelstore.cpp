// C25: saving and restoring whole models
#include "agent.hpp"

static std::string scratch_file (size_t k)
{
	const char* d = getenv("VERIF_SCRATCH"); std::ostringstream o; o << (d ? d : "/tmp") << "/model-" << getpid() << "-" << k << ".pbx"; return o.str();
}
enum Kind { MLP, RBM, DBN, TRAINER, NKIND };
static const char* const KINDS[] = {"network", "restricted machine", "belief network", "trainer"};
typedef std::vector<Vec> Values;

static void histories (Ctx& c)
{
	Src& s = c.s; Kind kind = (Kind) s.below(NKIND); c.label(KINDS[kind]);
	size_t nin = s.sz(1, 3), batch = s.sz(1, 2); nets::Ref lay = layout(s, s.flip(1, 3) ? 4 : 2); nin = lay.nin(); std::vector<size_t> sizes; for (RLayer& l : lay.ls) sizes.push_back(l.out);
	std::vector<size_t> count, fan; std::vector<bool> bias; // elements, limits and role of every variable
	std::vector<double> lim;
	{
		size_t in = nin;
		auto var = [&](size_t n, bool b, double l) { count.push_back(n); bias.push_back(b); lim.push_back(l); };
		if (kind == RBM) { double l = 4 * std::sqrt(6.0 / (nin + sizes[0])); var(sizes[0] * nin, false, l); var(sizes[0], true, 0); var(nin, true, 0); }
		else for (size_t k = 0; k < sizes.size(); ++k)
		{
			bool r = kind == DBN && k + 1 < sizes.size();
			var(sizes[k] * in, false, r ? 4 * std::sqrt(6.0 / (in + sizes[k])) : 1 / std::sqrt((double) in)); var(sizes[k], true, 0); if (r) var(in, true, 0); in = sizes[k];
		}
	}
	struct M { icompound* m; gd_net* t; std::string scope; Values v; bool init; Vp out; };
	std::vector<M> live;
	struct Done { std::vector<M>* l; ~Done() { for (M& m : *l) if (m.t) delete m.t; else delete m.m; } } done{&live};
	std::vector<std::map<std::string, Values> > files(s.sz(1, 2)); // per file: entries of each name
	struct Clean { size_t n; ~Clean() { for (size_t k = 0; k < n; ++k) unlink(scratch_file(k).c_str()); } } clean{files.size()};
	for (size_t k = 0; k < files.size(); ++k) unlink(scratch_file(k).c_str());
	Ph x(tensorshape(Dims{nin, batch}), "x"); Vec xv = some(s, nin * batch); x = xv;
	static const char* const NAMES[] = {"a", "b", "a:hidden_0", ""};
	vgb_updater up(0.1);
	auto fill = [&](M& m) { std::vector<Var*> vars = m.m->get_variables(); m.v.clear(); for (size_t k = 0; k < vars.size(); ++k) { m.v.push_back(some(s, count[k])); if (!vars[k]->good_status()) vars[k]->initialize(); set_var(vars[k], m.v[k]); } m.init = true; };
	auto make = [&]
	{
		M m; m.scope = NAMES[s.below(3)]; m.t = nullptr; m.init = false;
		std::string own = kind == TRAINER ? "inner" : m.scope;
		switch (kind) { case RBM: m.m = new rbm(nin, sizes[0], own); break; case DBN: m.m = new db_net(nin, sizes, own); break; default: m.m = build(lay, own); }
		if (kind == TRAINER) m.t = new gd_net(m.m, up, m.scope);
		P_CHECK(c, m.m->get_variables().size() == count.size(), "the model has " << m.m->get_variables().size() << " variables");
		if (s.flip(1, 3) && kind != DBN) m.out = m.m->prop_up(&x);
		if (!s.flip(1, 4)) fill(m);
		P_LOG(c, "m" << live.size() << ": " << KINDS[kind] << " named " << m.scope << (m.init ? "" : ", without values"));
		live.push_back(m);
	};
	make();
	size_t restored = 0;
	for (size_t k = s.sz(2, 12); k > 0; --k)
	{
		size_t i = s.below(live.size()), f = s.below(files.size()); M& m = live[i]; std::string nm = NAMES[s.below(4)], key = nm.empty() ? m.scope : nm;
		switch (s.weighted({4, 4, 2, 2, 1}))
		{
			case 0:
			{
				P_LOG(c, "m" << i << " is saved to file " << f << " as " << key);
				bool ok = m.t ? m.t->save(scratch_file(f), nm) : m.m->save(scratch_file(f), nm); P_CHECK(c, ok, "saving fails");
				if (m.init) files[f][key] = m.v; else files[f].emplace(key, Values()); break;
			}
			case 1:
			{
				bool absent = s.flip(1, 10); std::string fn = absent ? std::string("") : scratch_file(f);
				auto it = files[f].find(key); bool there = !absent && it != files[f].end() && !it->second.empty();
				P_LOG(c, "m" << i << " is initialised from file " << (absent ? "-" : std::to_string(f)) << " as " << key << (there ? "" : ", which has none"));
				if (m.t) m.t->initialize(fn, nm); else m.m->initialize(fn, nm);
				std::vector<Var*> vars = m.m->get_variables(); m.init = true; Values old = m.v; m.v.clear();
				for (size_t q = 0; q < vars.size(); ++q)
				{
					Vec g = value_of(vars[q]).v;
					if (there) P_CHECK(c, g == it->second[q], "variable " << q << " is restored as " << show(g) << ", expected " << show(it->second[q]));
					else
					{
						P_CHECK(c, g.size() == count[q], "variable " << q << " starts with " << g.size() << " elements");
						for (double e : g) P_CHECK(c, bias[q] ? e == 0 : std::fabs(e) <= lim[q], "variable " << q << " starts as " << show(g));
						if (!bias[q]) P_CHECK(c, old.empty() || g != old[q], "a model without saved values keeps its weights");
					}
					m.v.push_back(g);
				}
				restored += there; c.label(there ? "restored" : "fresh"); break;
			}
			case 2: fill(m); P_LOG(c, "m" << i << " gets other values"); break;
			case 3: if (live.size() < 4) make(); break;
			default: xv = some(s, xv.size()); x = xv;
		}
		for (M& m : live) if (m.init)
		{
			std::vector<Var*> vars = m.m->get_variables();
			for (size_t q = 0; q < vars.size(); ++q) { Vec g = value_of(vars[q]).v; P_CHECK(c, g == m.v[q], "variable " << q << " of m" << (&m - &live[0]) << " is " << show(g) << ", expected " << show(m.v[q])); }
			if (m.out.get() || m.t)
			{
				Vec want; 
				if (kind == RBM) { nets::Ref r; RLayer l{nin, sizes[0], SIGM, m.v[0], m.v[1]}; r.ls = {l}; want = r.forward(xv, batch); }
				else { nets::Ref r = lay; for (size_t q = 0; q < r.ls.size(); ++q) { r.ls[q].w = m.v[2 * q]; r.ls[q].b = m.v[2 * q + 1]; } want = r.forward(xv, batch); if (r.far) return; }
				Vec g = m.out.get() ? value_of(m.out.get()).v : (*m.t)(xv);
				P_CHECK(c, close_to(g, want, 1e-8, 1e-8 * biggest(want)), "m" << (&m - &live[0]) << " gives " << show(g) << ", expected " << show(want));
			}
		}
	}
	c.nontrivial(restored > 0);
}

// agents: both of their networks are kept under one name; the target network shows by training
static void agents (Ctx& c)
{
	Src& s = c.s; nets::Ref lay = layout(s, s.flip(1, 3) ? 4 : 2); fresh(s, lay); lay.rms = false; size_t ni = lay.nin(), no = lay.nout();
	struct M { Agent a; bool known; };
	struct Entry { nets::Ref q, t; bool known; };
	std::vector<M> live; struct Done { std::vector<M>* l; ~Done() { for (M& m : *l) delete m.a.net; } } done{&live};
	std::vector<std::map<std::string, Entry> > files(s.sz(1, 2));
	struct Clean { size_t n; ~Clean() { for (size_t k = 0; k < n; ++k) unlink(scratch_file(k).c_str()); } } clean{files.size()};
	for (size_t k = 0; k < files.size(); ++k) unlink(scratch_file(k).c_str());
	static const char* const NAMES[] = {"agent", "other", "early", "late", ""};
	srand((unsigned) s.below(1u << 20));
	std::vector<size_t> all(s.sz(1, 2)); for (size_t k = 0; k < all.size(); ++k) all[k] = k;
	std::vector<std::string> own;
	auto store = [&](M& m) { Exp e{some(s, ni), s.below(no), s.dyadic(4, 8), s.flip(1, 4) ? Vec() : some(s, ni)}; m.a.net->store(e.s, e.a, e.r, e.n); m.a.store(e); P_LOG(c, "  experience " << show(e.s) << " action " << e.a << " reward " << e.r << " then " << show(e.n)); };
	auto make = [&]
	{
		M m; m.known = true; Agent& a = m.a; fresh(s, lay); a.q = a.t = lay; a.q.lr = s.sz(1, 8) / 64.0; a.q.restart(); a.id = live.size();
		a.p.train_interval_ = a.p.store_interval_ = 1; a.p.mini_batch_size_ = a.p.max_exp_ = all.size(); a.p.discount_rate_ = s.sz(1, 8) / 8.0; a.p.target_update_rate_ = s.sz(0, 8) / 8.0; a.p.rand_action_prob_ = 0; a.p.exploration_period_ = 0;
		vgb_updater up(a.q.lr); mlp* brain = build(a.q, "net"); a.vars = brain->get_variables(); put(a.vars, a.q);
		own.push_back(NAMES[s.below(2)]); a.net = new dq_net(brain, up, a.p, own.back());
		P_LOG(c, "a" << a.id << " named " << own.back() << ": " << describe(a.q) << "; descent at " << a.q.lr << ", discount " << a.p.discount_rate_ << ", target rate " << a.p.target_update_rate_);
		live.push_back(m); for (size_t k = 0; k < all.size(); ++k) store(live.back());
	};
	make(); size_t restored = 0; bool calm = true;
	auto train = [&](M& m)
	{
		Agent b = m.a; bool moved = false; b.step(all, moved); if (b.q.far || biggest(b.q.all()) > 50 || biggest(b.t.all()) > 50) { calm = false; return; }
		P_LOG(c, "a" << m.a.id << " trains"); m.a.net->train(); nets::Ref got = m.a.q; nets::get(m.a.vars, got);
		if (m.known) P_CHECK(c, close_to(got.all(), b.q.all(), 1e-7, 1e-7), "a step moves a" << m.a.id << " to " << show(got.all()) << ", expected " << show(b.q.all()));
		else { b.t = m.a.t; }
		m.a.q = b.q; m.a.t = b.t; nets::get(m.a.vars, m.a.q);
	};
	for (size_t k = s.sz(3, 16); k > 0 && calm; --k)
	{
		size_t i = s.below(live.size()), f = s.below(files.size()); M& m = live[i]; std::string nm = NAMES[s.below(5)], key = nm.empty() ? own[i] : nm;
		switch (s.weighted({5, 5, 5, 1, 2, 2}))
		{
			case 0: P_LOG(c, "a" << i << " is saved to file " << f << " as " << key); P_CHECK(c, m.a.net->save(scratch_file(f), nm), "saving fails"); files[f][key] = Entry{m.a.q, m.a.t, m.known}; break;
			case 1:
			{
				auto it = files[f].find(key); bool there = it != files[f].end();
				if (!there && s.flip()) break;
				P_LOG(c, "a" << i << " is initialised from file " << f << " as " << key << (there ? "" : ", which has none")); nets::Ref old = m.a.q;
				m.a.net->initialize(scratch_file(f), nm);
				if (there)
				{
					for (size_t l = 0; l < old.ls.size(); ++l) { m.a.q.ls[l].w = it->second.q.ls[l].w; m.a.q.ls[l].b = it->second.q.ls[l].b; m.a.t.ls[l].w = it->second.t.ls[l].w; m.a.t.ls[l].b = it->second.t.ls[l].b; }
					m.known = it->second.known; restored += m.known;
				}
				else { nets::get(m.a.vars, m.a.q); P_CHECK(c, m.a.q.all() != old.all(), "an agent without saved values keeps its weights"); m.known = false; }
				c.label(there ? "restored" : "fresh"); break;
			}
			case 2: train(m); break;
			case 3: if (live.size() < 3) make(); break;
			case 4: P_LOG(c, "a" << i); store(m); break;
			default: { P_LOG(c, "a" << i << " gets other values"); nets::Ref o = m.a.q; fresh(s, o); for (size_t l = 0; l < o.ls.size(); ++l) { m.a.q.ls[l].w = o.ls[l].w; m.a.q.ls[l].b = o.ls[l].b; } put(m.a.vars, m.a.q); }
		}
		for (M& n : live) same_vars(c, n.a.vars, n.a.q, 0, "agent");
	}
	if (!calm) return;
	for (M& m : live) if (calm) train(m);
	for (M& m : live) if (calm) train(m);
	c.nontrivial(restored > 0);
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C25";
	p.rule = "histories of saving up to four models of one layout under their own or other names to one or two files, changing them, and initialising them from those files, compared with a plain map of what every name holds; the same of learning agents, whose two networks show by further steps; non-trivial: a model was restored from a file";
	p.facets = {{"histories", histories, 3}, {"agents", agents, 1}};
	p.assumptions = {"names are not shared by models of different layout"};
	p.quick = 5000; p.thorough = 100000; p.batch = 50;
	return pbt::harness_main(argc, argv, {p});
}
