// C33: work repeated on the same objects takes no more memory, however often it is repeated
#include "agent.hpp"
#include "dag.hpp"
#include "graph/connector/immutable/generator.hpp"
#include "models/rbm.hpp"
#include "models/db_net.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes (void);
using namespace nnet; using namespace rocnnet;
#include <unistd.h>
static std::string scratch_file (size_t i) { return std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/steady-" + std::to_string(getpid()) + "-" + std::to_string(i); }
static size_t bytes (void) { return __sanitizer_get_current_allocated_bytes(); }

// the same round again and again; caches and containers may settle in the first ones
static void steady (Ctx& c, std::function<void(int)> round, size_t settle = 4, size_t watched = 4)
{
	std::vector<size_t> used(settle + watched, 0);
	for (size_t r = 0; r < used.size(); ++r) { round((int) r); used[r] = bytes(); }
	size_t grown = 0; for (size_t r = settle; r < used.size(); ++r) grown += used[r] > used[r - 1];
	P_CHECK(c, grown < watched, "every one of the last " << watched << " of " << used.size() << " equal rounds leaves memory behind: " << used.back() - used[settle - 1] << " bytes");
}

// tensors: allocating, releasing, copying, moving, reshaping, slicing, storing
static void tensors (Ctx& c)
{
	Src& s = c.s; size_t n = s.sz(2, 4); std::vector<Dims> d; std::vector<Vec> v; std::vector<tensor<double> > base, t; std::vector<std::unique_ptr<tensor<double> > > spare(n);
	for (size_t i = 0; i < n; ++i) { d.push_back(gen::dims(s, 1, 3, 4, 24)); v.push_back(gen::data(s, ref::prod(d.back()))); }
	base.reserve(n); t.reserve(n);
	for (size_t i = 0; i < n; ++i) { base.emplace_back(tensorshape(d[i])); { tenncor::tensor_proto p; tensor<double> q{tensorshape(d[i])}; q.serialize(&p); base.back().from_proto(p); } t.push_back(base[i]); }
	uint64_t seed = s.below(1 << 30); size_t len = s.sz(2, 8), changed = 0;
	steady(c, [&](int r)
	{
		Src q(seed, nullptr); std::ostringstream log;
		for (size_t k = 0; k < len; ++k)
		{
			size_t i = q.below(n), j = q.below(n), op = q.below(12); log << " " << op << "(" << i << "," << j << ")";
			try
			{
				switch (op)
				{
					case 0: t[i] = t[j]; changed++; break;
					case 1: { tensor<double> k(t[i]); t[j] = std::move(k); changed++; break; }
					case 2: t[i].deallocate(); break;
					case 3: t[i].allocate(); break;
					case 4: t[i].deallocate(); t[i].allocate(tensorshape(d[i])); changed++; break;
					case 5: t[i].set_shape(tensorshape(d[j])); changed++; break;
					case 6: t[i].copy_from(t[j], tensorshape(d[i])); changed++; break;
					case 7: if (t[i].is_alloc() && t[i].dims().size()) { tensor<double> k = t[i].slice(0, 1); } break;
					case 8: if (t[i].is_alloc()) { tenncor::tensor_proto p; t[i].serialize(&p); t[j].from_proto(p); changed++; } break;
					case 9: { delete t[i].clone(q.flip()); tensor<double> k(t[i], q.flip()); break; }
					case 10: { tensor<double>* k = t[i].move(); t[i] = *k; delete k; changed++; break; }
					default: if (t[i].is_alloc()) { t[i].expose(); t[i].guess_shape(v[j]); t[i].loosely_guess_shape(v[j]); }
				}
			}
			catch (std::exception&) {}
		}
		for (size_t i = 0; i < n; ++i) t[i] = base[i];
		if (r == 0) P_LOG(c, n << " tensors, each round:" << log.str());
	});
	c.nontrivial(changed > 0);
}

// an expression whose leaves change, which is read, derived, frozen, copied, moved and added to
static void expressions (Ctx& c)
{
	Src& s = c.s; dag::World w(s); w.structural = s.flip(); w.gradable = !w.structural;
	Dims d{s.sz(1, 3)}; if (s.flip()) d.push_back(s.sz(1, 3));
	for (size_t k = s.sz(2, 3); k > 0; --k) w.add_leaf((int) s.weighted({4, 2, 0}), d, false, false);
	for (size_t k = s.sz(2, 8); k > 0; --k) { if (!w.grow()) continue; std::vector<dag::Ref> r = w.reference(); if (!dag::World::sane(r.back(), w.limit)) w.undo(); }
	for (size_t i = 0; i < w.ex.size(); ++i) P_LOG(c, w.describe(i));
	for (const dag::Expr& e : w.ex) { bool any = e.op == dag::LEAF; for (ileaf<double>* l : e.node->get_leaves()) any = any || !dynamic_cast<constant<double>*>(l); if (!any && !dynamic_cast<constant<double>*>(e.node.get())) c.discard(); }
	std::vector<Vec> a, b; for (dag::Leaf& l : w.leaves) { a.push_back(l.o.v); Vec o = l.o.v; w.fresh(l); b.push_back(o); }
	uint64_t seed = s.below(1 << 30); size_t len = s.sz(2, 8), did = 0;
	steady(c, [&](int r)
	{
		Src q(seed, nullptr); std::ostringstream log; static const char* const WHAT[] = {"set", "read", "derive", "freeze", "copy", "shape of", "handles of", "move leaf", "assign", "read all", "add to", "leaves of", "initialiser of"};
		for (size_t k = 0; k < len; ++k)
		{
			size_t i = q.below(w.ex.size()), l = q.below(w.leaves.size()), op = q.below(13); log << " " << WHAT[op] << " " << (op == 0 || op == 7 || op == 8 || op == 12 ? l : i) << ";";
			Node* n = w.ex[i].node.get(); immutable<double>* con = dynamic_cast<immutable<double>*>(n); Operand& o = w.leaves[l].o; Var* var = o.kind == 0 ? static_cast<Var*>(o.p.get()) : nullptr;
			switch (op)
			{
				case 0: { const Vec& x = q.flip() ? a[l] : b[l]; w.set_leaf(l, x); did++; break; }
				case 1: value_of(n); break;
				case 2: if (w.gradable && var) { Vp g = n->derive(var); value_of(g.get()); did++; } break;
				case 3: if (con) { con->freeze_status(true); value_of(n); w.set_leaf(l, a[l]); con->freeze_status(false); value_of(n); did++; } break;
				case 4: if (con) { Vp h = con->clone(); value_of(h.get()); delete h.get(); did++; } break;
				case 5: n->get_shape(); break;
				case 6: { Vp h = n, g = h; g = w.ex[0].node; h.clear(); did++; break; }
				case 7: if (var) { Var* to = var->move(); auto& own = w.pool.owned; std::replace(own.begin(), own.end(), (Node*) var, (Node*) to); o.owned = to; delete var; did++; } break;
				case 8: if (var) { variable_updater<double> u = q.flip() ? var->assign_add(w.leaves[0].o.p.get()) : var->assign_sub(w.leaves[0].o.p.get()); u(q.flip()); w.set_leaf(l, a[l]); did++; } break;
				case 9: for (dag::Expr& e : w.ex) value_of(e.node.get()); break;
				case 10: { Vp h = cos<double>(Vp(n) * 1.75 + 0.5); if (dynamic_cast<constant<double>*>(h.get()) || h.get() == n) break; value_of(h.get()); std::set<Node*> mine; for (Node* x = h.get(); x != n;) { mine.insert(x); iconnector<double>* k = dynamic_cast<iconnector<double>*>(x); if (!k) break; Node* next = nullptr; for (Node* y : k->get_arguments()) if (!dynamic_cast<constant<double>*>(y)) next = y; if (!next || next == x) break; x = next; if (x == n) { bool known = false; for (dag::Expr& e : w.ex) known = known || mine.count(e.node.get()); Node* last = nullptr; for (Node* z : mine) { iconnector<double>* kz = dynamic_cast<iconnector<double>*>(z); for (Node* y : kz->get_arguments()) if (y == n) last = z; } if (!known && last) { delete last; did++; } } } break; }
				case 12: if (var) { const_init<double> level(0.5); rand_uniform<double> any(0.25, 0.75); if (q.flip()) var->set_initializer(level); else var->set_initializer(any); var->initialize(); w.set_leaf(l, a[l]); did++; } break;
				default: n->get_leaves(); if (con) { con->get_arguments(); con->is_same_graph(con); con->potential_descendent(con); }
			}
		}
		for (size_t l = 0; l < w.leaves.size(); ++l) w.set_leaf(l, a[l]);
		for (dag::Expr& e : w.ex) value_of(e.node.get());
		if (r == 0) P_LOG(c, "each round:" << log.str());
	});
	c.nontrivial(did > 0);
}

// matrix products, reductions, rearrangements, generators and samples
static void matrices (Ctx& c)
{
	Src& s = c.s; static rand_uniform<double> some(0.25, 0.75); std::ostringstream built;
	size_t x = s.sz(1, 3), y = s.sz(1, 3); std::vector<Vec> va, vb; for (int k = 0; k < 2; ++k) { va.push_back(gen::data(s, x * y)); vb.push_back(gen::data(s, x)); }
	std::unique_ptr<Var> a(make_var({x, y}, va[0], "a")), b(make_var({x, y}, gen::data(s, x * y), "b")), t(make_var({x}, vb[0], "t")); std::vector<Vp> ns{a.get(), b.get()};
	bool smooth = true;
	for (size_t k = s.sz(1, 5); k > 0; --k)
	{
		size_t mi = s.below(ns.size()), oi = s.below(ns.size()), op = s.below(18); Vp m = ns[mi], o = ns[oi]; built << " " << op << "(" << mi << "," << oi << ")"; smooth = smooth && op < 10 && op != 0 && op != 4; // gradients through several products are a known finding of C32
		switch (op)
		{
			case 0: ns.push_back(matmul<double>(matmul<double>(m, o, false, true), m)); break;
			case 1: ns.push_back(transpose<double>(sin<double>(transpose<double>(m)))); break;
			case 2: ns.push_back(add_axial_b<double>(m, t.get(), 1)); break;
			case 3: ns.push_back(mul_axial_a<double>(t.get(), m, 1)); break;
			case 4: ns.push_back(sigmoid<double>(matmul<double>(m, matmul<double>(o, m, true)))); break;
			case 5: ns.push_back(m - reduce_mean<double>(o)); break;
			case 6: ns.push_back(m * reduce_sum<double>(o)); break;
			case 7: ns.push_back(sub_axial_b<double>(m, reduce_sum<double>(o, 1), 1)); break;
			case 8: ns.push_back(sigmoid<double>(m) * tanh<double>(o)); break;
			case 9: ns.push_back(clip_val<double>(m, -0.5, 0.5)); break;
			case 10: ns.push_back(m + binomial_sample<double>(2.0, sigmoid<double>(o))); break;
			case 11: ns.push_back(Vp(generator<double>::get(m, some, "gen")) * o); break;
			case 12: ns.push_back(fit<double>(m, o)); break;
			case 13: ns.push_back(flip<double>(m, {s.below(2)})); break;
			case 14: ns.push_back(clip_norm<double>(m, 0.5)); break;
			case 15: ns.push_back(eq<double>(m, o)); break;
			case 16: ns.push_back(m * as_constant<double>(o)); break;
			default: ns.push_back(m + arg_max<double>(o)); break;
		}
	}
	if (s.flip(1, 3))
	{
		ns = {a.get(), b.get(), s.flip() ? matmul<double>(a.get(), b.get(), false, true) : matmul<double>(b.get(), a.get(), true)}; smooth = true; built.str(" product");
		if (s.flip()) ns.push_back(sigmoid<double>(ns.back())); if (s.flip()) ns.push_back(ns.back() * ns.back()); if (s.flip()) ns.push_back(reduce_mean<double>(ns.back()));
	}
	P_LOG(c, "shape [" << x << " " << y << "], operations" << built.str()); uint64_t seed = s.below(1 << 30); size_t len = s.sz(1, 6), did = 0;
	steady(c, [&](int r)
	{
		Src q(seed, nullptr); std::ostringstream log; static const char* const WHAT[] = {"set a", "set t", "read", "derive", "freeze", "copy"};
		for (size_t k = 0; k < len; ++k)
		{
			size_t i = q.below(ns.size()), op = q.below(6); log << " " << WHAT[op] << " " << i << ";"; immutable<double>* con = dynamic_cast<immutable<double>*>(ns[i].get()); did++;
			switch (op)
			{
				case 0: set_var(a.get(), va[q.below(2)]); break;
				case 1: set_var(t.get(), vb[q.below(2)]); break;
				case 2: value_of(ns[i].get()); break;
				case 3: { if (!smooth || !con) break; try { Vp g = con->derive(q.flip() ? a.get() : t.get()); } catch (std::exception&) { c.discard(); } break; }
				case 4: if (con) { con->freeze_status(true); value_of(con); con->freeze_status(false); } break;
				default: if (con) { immutable<double>* k = con->clone(); value_of(k); delete k; }
			}
		}
		set_var(a.get(), va[0]); set_var(t.get(), vb[0]); for (Vp& n : ns) value_of(n.get());
		if (r == 0) P_LOG(c, "each round:" << log.str());
	});
	c.nontrivial(did > 0);
}

// nodes of one kind assigned one another, or taking over clones of one another
static void assigned (Ctx& c)
{
	Src& s = c.s; typedef immutable<double> Imm; typedef shape_dep<double> Sd; typedef generator<double> Gen; static rand_uniform<double> some(0.25, 0.75); static const_init<double> one(1);
	static const char* const KINDS[] = {"operations", "shape nodes", "generators", "variables", "placeholders"};
	size_t kind = s.below(5), n = s.sz(2, 3), m = s.sz(1, 4), did = 0; Vec va = gen::data(s, m);
	std::unique_ptr<Var> v(make_var({m}, va, "v")); std::vector<Vp> ns; std::vector<Node*> raw;
	for (size_t i = 0; i < n; ++i)
	{
		Node* p;
		switch (kind)
		{
			case 0: p = i == 0 ? sin<double>(v.get()).get() : i == 1 ? cos<double>(v.get()).get() : exp<double>(Vp(v.get())).get(); break;
			case 1: { size_t by = i + 1; p = Sd::get({v.get()}, [by](tensorshape& x) -> std::vector<size_t> { return {x.n_elems() * by}; }, std::vector<size_t>{1}, "times" + std::to_string(by)); break; }
			case 2: if (i % 2) p = Gen::get(v.get(), one, "ones"); else p = Gen::get(v.get(), some, "some"); break;
			case 3: p = make_var({m}, gen::data(s, m), "x"); break;
			default: { Ph* h = new Ph(tensorshape({m}), "h"); *h = gen::data(s, m); p = h; }
		}
		raw.push_back(p); ns.push_back(Vp(p));
	}
	P_LOG(c, n << " " << KINDS[kind] << " of " << m << " elements"); c.label(KINDS[kind]);
	uint64_t seed = s.below(1 << 30); size_t len = s.sz(1, 5);
	steady(c, [&](int r)
	{
		Src q(seed, nullptr); std::ostringstream log;
		for (size_t z = 0; z < len; ++z)
		{
			size_t i = q.below(n), j = q.below(n), how = q.below(3); Node *a = raw[i], *b = raw[j]; if (q.flip()) value_of(b);
			log << " " << i << (how == 0 ? " = " : how == 1 ? " takes over a clone of " : " cloned beside ") << j << ";"; did += i != j;
			if (how == 2) { Node* k = b->clone(); value_of(k); if (q.flip()) { Node* w = k->move(); value_of(w); delete w; } delete k; continue; }
			std::unique_ptr<Node> k(how ? b->clone() : nullptr);
			switch (kind)
			{
				case 0: { Imm *x = dynamic_cast<Imm*>(a), *y = dynamic_cast<Imm*>(how ? k.get() : b); P_CHECK(c, x && y, "not an operation"); if (how) *x = std::move(*y); else *x = *y; break; }
				case 1: if (how) *(Sd*) a = std::move(*(Sd*) k.get()); else *(Sd*) a = *(Sd*) b; break;
				case 2: { Gen *x = dynamic_cast<Gen*>(a), *y = dynamic_cast<Gen*>(how ? k.get() : b); P_CHECK(c, x && y, "not a generator"); if (how) *x = std::move(*y); else *x = *y; break; }
				case 3: { Var *x = static_cast<Var*>(a), *y = static_cast<Var*>(how ? k.get() : b); if (how) *x = std::move(*y); else *x = *y; break; }
				default: { Ph *x = static_cast<Ph*>(a), *y = static_cast<Ph*>(how ? k.get() : b); if (how) *x = std::move(*y); else *x = *y; }
			}
		}
		for (Node* p : raw) value_of(p);
		if (r == 0) P_LOG(c, "each round:" << log.str());
	});
	c.nontrivial(did > 0);
	if (kind > 2) { ns.clear(); for (Node* p : raw) delete p; }
}

// training, asking, copying, saving and restoring a trainer
static void trainers (Ctx& c)
{
	Src& s = c.s; nets::Ref base = layout(s, 2); fresh(s, base); base.rms = s.flip(1, 3); base.lr = 1 / 64.0; base.disc = 0.5; base.restart();
	size_t batch = s.sz(1, 3); vgb_updater plain(base.lr); rmspropupdater prop(base.lr, base.disc);
	mlp* brain = build(base, "net"); put(brain->get_variables(), base); c.label(base.rms ? "rmsprop" : "plain descent");
	std::unique_ptr<gd_net> net(new gd_net(brain, base.rms ? (gd_updater&) prop : (gd_updater&) plain, "trainer"));
	P_LOG(c, describe(base)); Vec x = some(s, base.nin() * batch), t = some(s, base.nout() * batch); uint64_t seed = s.below(1 << 30); size_t len = s.sz(1, 4), did = 0;
	steady(c, [&](int r)
	{
		Src q(seed, nullptr); std::ostringstream log;
		for (size_t k = 0; k < len; ++k)
		{
			size_t op = q.below(6); static const char* const WHAT[] = {"train", "train", "ask", "copy", "save and restore", "move"}; log << " " << WHAT[op] << ";";
			switch (op)
			{
				case 0: case 1: net->train(x, t); did++; break;
				case 2: (*net)(x); did++; break;
				case 3: { gd_net n(*net, "other"); n.train(x, t); did++; break; }
				case 4: { if (!brain) break; net->save(scratch_file(0), "kept"); net->initialize(scratch_file(0), "kept"); did++; break; }
				default: { std::unique_ptr<gd_net> n(new gd_net(std::move(*net))); net = std::move(n); did++; }
			}
		}
		if (r == 0) P_LOG(c, "each round:" << log.str());
	});
	std::remove(scratch_file(0).c_str()); c.nontrivial(did > 0);
}

// the life of an agent whose memory of experiences is full
static void agents (Ctx& c)
{
	Src& s = c.s; nets::Ref base = layout(s, 2); fresh(s, base); base.rms = s.flip(1, 3); base.lr = 1 / 64.0; base.disc = 0.5; base.restart();
	vgb_updater plain(base.lr); rmspropupdater prop(base.lr, base.disc); dqn_param p; p.max_exp_ = s.sz(1, 4); p.mini_batch_size_ = s.sz(1, 3); p.train_interval_ = s.sz(1, 2); p.store_interval_ = s.sz(1, 2);
	mlp* brain = build(base, "net"); put(brain->get_variables(), base);
	std::unique_ptr<dq_net> net(new dq_net(brain, base.rms ? (gd_updater&) prop : (gd_updater&) plain, p, "agent")); net->initialize();
	P_LOG(c, describe(base) << ", " << p.max_exp_ << " experiences, batches of " << p.mini_batch_size_); Vec x = some(s, base.nin()), y = some(s, base.nin()); uint64_t seed = s.below(1 << 30); size_t len = s.sz(1, 5), did = 0;
	steady(c, [&](int r)
	{
		Src q(seed, nullptr); std::ostringstream log;
		for (size_t k = 0; k < len; ++k)
		{
			size_t op = q.below(6); static const char* const WHAT[] = {"store", "store an end", "act", "train", "train", "copy"}; log << " " << WHAT[op] << ";";
			switch (op)
			{
				case 0: net->store(x, q.below(base.nout()), 1, y); did++; break;
				case 1: net->store(x, q.below(base.nout()), 1, Vec()); did++; break;
				case 2: net->action(x); break;
				case 3: case 4: net->train(); did++; break;
				default: { dq_net n(*net, "other"); n.train(); did++; }
			}
		}
		if (r == 0) P_LOG(c, "each round:" << log.str());
	}, 12, 24); // the memory fills in the first rounds
	c.nontrivial(did > 0);
}

// contrastive divergence and pretraining, sampling and reconstruction
static void machines (Ctx& c)
{
	Src& s = c.s; size_t nv = s.sz(1, 3), nh = s.sz(1, 3), B = s.sz(1, 2); bool deep = s.flip(1, 3); Vec xv(nv * B), yv(nv * B); for (double& e : xv) e = s.below(2); for (double& e : yv) e = s.below(2);
	Ph x(tensorshape(Dims{nv, B}), "x"); x = xv; std::unique_ptr<rbm> m; std::unique_ptr<db_net> db; std::unique_ptr<Var> pers; std::vector<update_cost_t> ts; std::vector<Vp> outs; uint64_t seed = s.below(1 << 30); size_t len = s.sz(1, 3), did = 0;
	if (deep) { db.reset(new db_net(nv, {nh, 2}, "deep")); db->initialize(); auto fs = db->pretraining_functions(x, 0.1, s.sz(1, 2)); for (auto& f : fs) ts.push_back(update_cost_t(f.first, f.second)); outs.push_back(db->prop_up(&x)); }
	else
	{
		m.reset(new rbm(nv, nh, "machine")); m->initialize(); if (s.flip()) pers.reset(make_var(Dims{nh, B}, Vec(nh * B, 0), "chain"));
		ts.push_back(m->train(&x, pers.get(), 0.1, s.sz(1, 2))); outs.push_back(m->prop_up(&x)); outs.push_back(m->prop_down(outs[0])); outs.push_back(m->reconstruct_visible(&x));
	}
	P_LOG(c, (deep ? "belief network" : "machine") << " of " << nv << " and " << nh << " units, " << B << " samples" << (pers ? ", a kept chain" : ""));
	steady(c, [&](int r)
	{
		Src q(seed, nullptr); std::ostringstream log;
		for (size_t k = 0; k < len; ++k)
		{
			size_t op = q.below(5); static const char* const WHAT[] = {"train", "cost", "new input", "outputs", "save and restore"}; log << " " << WHAT[op] << ";";
			switch (op)
			{
				case 0: ts[q.below(ts.size())].first(q.flip()); did++; break;
				case 1: value_of(ts[q.below(ts.size())].second.get()); did++; break;
				case 2: x = q.flip() ? xv : yv; did++; break;
				case 3: for (Vp& o : outs) value_of(o.get()); did++; break;
				default: { icompound* i = deep ? (icompound*) db.get() : (icompound*) m.get(); i->save(scratch_file(1), "kept"); i->initialize(scratch_file(1), "kept"); did++; }
			}
		}
		for (Vp& o : outs) value_of(o.get());
		if (r == 0) P_LOG(c, "each round:" << log.str());
	});
	std::remove(scratch_file(1).c_str()); ts.clear(); c.nontrivial(did > 0);
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C33";
	p.rule = "rounds of 1..8 operations on the same tensors, expressions, matrix graphs, nodes assigned or cloned or moved one another, trainers, agents and machines, repeated 8 to 36 times, with the memory allocated after every round; a violation is a case in which each of the later rounds leaves more memory than the one before; non-trivial: a round changes something";
	p.assumptions = {"containers may grow in single rounds; what never stops growing is taken for a loss"};
	p.facets = {{"tensors", tensors, 2}, {"expressions", expressions, 3}, {"matrices", matrices, 3}, {"assigned", assigned, 2}, {"trainers", trainers, 1}, {"agents", agents, 1}, {"machines", machines, 1}};
	p.quick = 5000; p.thorough = 100000; p.batch = 50;
	return pbt::harness_main(argc, argv, {p});
}
