// C23: the Q-learning agent against a plain model of it
#include "agent.hpp"

static std::string scratch_file (void)
{
	const char* d = getenv("VERIF_SCRATCH"); std::ostringstream o; o << (d ? d : "/tmp") << "/agent-" << getpid() << ".pbx"; return o.str();
}
static bool close_nets (const nets::Ref& a, const nets::Ref& b, double tol) { return close_to(a.all(), b.all(), tol, tol); }

static nets::Ref network (Src& s)
{
	nets::Ref q = layout(s, 2); fresh(s, q); q.rms = s.flip(1, 3); q.lr = s.sz(1, 8) / 64.0; q.disc = s.sz(1, 15) / 16.0; q.restart(); return q;
}
static dqn_param params (Src& s)
{
	dqn_param p; p.train_interval_ = s.sz(1, 3); p.store_interval_ = s.sz(1, 3); p.mini_batch_size_ = s.sz(1, 3); p.max_exp_ = p.mini_batch_size_ + s.below(3);
	p.discount_rate_ = s.sz(0, 8) / 8.0; p.target_update_rate_ = s.sz(0, 8) / 8.0; p.rand_action_prob_ = s.flip() ? 0 : 0.5; p.exploration_period_ = s.flip() ? 0 : s.sz(0, 4);
	return p;
}
static bool same_layout (const nets::Ref& a, const nets::Ref& b)
{
	if (a.ls.size() != b.ls.size()) return false;
	for (size_t i = 0; i < a.ls.size(); ++i) if (a.ls[i].w.size() != b.ls[i].w.size() || a.ls[i].b.size() != b.ls[i].b.size()) return false;
	return true;
}
static void agent (Ctx& c, std::vector<Agent>& live, size_t& names)
{
	nets::Ref q = network(c.s); dqn_param p = params(c.s); vgb_updater plain(q.lr); rmspropupdater prop(q.lr, q.disc);
	P_LOG(c, "a" << names << ": " << describe(q) << "; " << (q.rms ? "rmsprop" : "plain descent") << " at " << q.lr << "; train every " << p.train_interval_ << ", store every " << p.store_interval_ << ", batch " << p.mini_batch_size_ << " of at most " << p.max_exp_ << ", discount " << p.discount_rate_ << ", target rate " << p.target_update_rate_ << ", random actions " << p.rand_action_prob_ << " after " << p.exploration_period_);
	c.label(q.rms ? "rmsprop" : "plain descent");
	Agent a; a.q = a.t = q; a.p = p; a.id = names++; mlp* brain = build(q, "net"); put(brain->get_variables(), q); a.vars = brain->get_variables();
	a.net = new dq_net(brain, q.rms ? (gd_updater&) prop : (gd_updater&) plain, p, "agent"); live.push_back(a);
}

static void learning (Ctx& c)
{
	Src& s = c.s;
	std::vector<Agent> live; size_t names = 0;
	struct Done { std::vector<Agent>* l; ~Done() { for (Agent& a : *l) delete a.net; unlink(scratch_file().c_str()); } } done{&live};
	unlink(scratch_file().c_str());
	agent(c, live, names);
	std::map<std::string, std::pair<nets::Ref, nets::Ref> > file; size_t moves = 0;
	static const char* const NAMES[] = {"", "x"};
	srand((unsigned) s.below(1u << 20));
	bool calm = true;
	for (size_t k = s.sz(4, 24); k > 0 && calm; --k)
	{
		size_t i = s.below(live.size()); Agent& a = live[i]; const dqn_param p = a.p; size_t ni = a.q.nin(), no = a.q.nout();
		switch (s.weighted({8, 8, 3, 3, 1, 1, 1, 1, 1, 1}))
		{
			case 0:
			{
				Exp e{some(s, ni), s.below(no), s.dyadic(4, 8), s.flip(1, 4) ? Vec() : some(s, ni)};
				P_LOG(c, "a" << a.id << " stores " << show(e.s) << " action " << e.a << " reward " << e.r << " then " << show(e.n));
				a.net->store(e.s, e.a, e.r, e.n); a.store(e); break;
			}
			case 1:
			{
				size_t m = p.mini_batch_size_; bool due = a.due(), full = a.mem.size() >= m;
				// every choice of a mini batch out of the memory
				std::vector<nets::Ref> nq, nt; bool moved = false;
				if (due && full)
				{
					if (a.vars.empty() && a.mem.size() != m) break;
					std::vector<bool> in(a.mem.size(), false); std::fill(in.begin(), in.begin() + m, true);
					do
					{
						std::vector<size_t> pick; for (size_t j = 0; j < in.size(); ++j) if (in[j]) pick.push_back(j);
						Agent b = a; b.step(pick, moved); if (b.q.far || biggest(b.q.all()) > 50 || biggest(b.t.all()) > 50) calm = false;
						nq.push_back(b.q); nt.push_back(b.t);
					} while (std::prev_permutation(in.begin(), in.end()));
					if (!calm) break;
				}
				P_LOG(c, "a" << a.id << " trains" << (!due ? ", not due" : !full ? ", too few experiences" : ""));
				size_t before = a.net->get_numtrained(); a.net->train();
				if (due && !full) { P_CHECK(c, a.net->get_numtrained() == before, "an agent of too few experiences trained"); }
				else { a.called++; P_CHECK(c, a.net->get_numtrained() == before + due, "the number of training steps went from " << before << " to " << a.net->get_numtrained()); }
				if (nq.empty())
				{
					if (!a.vars.empty()) same_vars(c, a.vars, a.q, 1e-9, "without training, the network");
					break;
				}
				if (a.vars.empty()) { a.q = nq[0]; a.t = nt[0]; }
				else
				{
					nets::Ref got = a.q; nets::get(a.vars, got); size_t j = 0; while (j < nq.size() && !close_nets(got, nq[j], 1e-7)) ++j;
					P_CHECK(c, j < nq.size(), "after a step on " << m << " of " << a.mem.size() << " experiences the network is " << show(got.all()) << ", expected " << show(nq[0].all()) << (nq.size() > 1 ? " or one of the others" : ""));
					a.q = nq[j]; a.t = nt[j]; nets::get(a.vars, a.q);
				}
				moves += moved; c.label("trained"); break;
			}
			case 2:
			{
				Vec x = some(s, ni), want = a.q.forward(x, 1); if (a.q.far) return;
				P_LOG(c, "a" << a.id << " evaluates " << show(x)); Vec got = (*a.net)(x);
				P_CHECK(c, close_to(got, want, 1e-6, 1e-6), "the scores are " << show(got) << ", expected " << show(want)); break;
			}
			case 3:
			{
				Vec x = some(s, ni), y = a.q.forward(x, 1); if (a.q.far) return; a.acted++;
				double act = a.net->action(x); P_LOG(c, "a" << a.id << " acts on " << show(x) << ": " << act);
				P_CHECK(c, act == std::floor(act) && act >= 0 && act < no, "action " << act << " of " << no);
				if (p.rand_action_prob_ == 0 && a.acted >= p.exploration_period_) { P_CHECK(c, y[(size_t) act] >= *std::max_element(y.begin(), y.end()) - 1e-6, "action " << act << " is chosen by scores " << show(y)); c.label("greedy"); }
				break;
			}
			case 4: { if (live.size() > 3) break; P_LOG(c, "a" << names << " = copy of a" << a.id); Agent b = a; b.net = new dq_net(*a.net, s.flip() ? "" : "copied"); b.id = names++; b.vars.clear(); b.q.restart(); live.push_back(b); c.label("copied"); break; }
			case 5: { P_LOG(c, "a" << a.id << " is moved"); dq_net* n = new dq_net(std::move(*a.net), ""); delete a.net; a.net = n; a.q.restart(); c.label("moved"); break; }
			case 6:
			{
				size_t j = s.below(live.size()); P_LOG(c, "a" << a.id << " = a" << live[j].id); *a.net = *live[j].net;
				if (i != j) { Agent b = live[j]; b.net = a.net; b.id = a.id; b.vars.clear(); b.q.restart(); a = b; c.label("assigned"); } break;
			}
			case 7: { std::string nm = NAMES[s.below(2)]; P_LOG(c, "a" << a.id << " is saved" << (nm.empty() ? "" : " as x")); P_CHECK(c, a.net->save(scratch_file(), nm), "saving fails"); nets::Ref& f = (file[nm] = std::make_pair(a.q, a.t)).first; (void) f; break; }
			case 8: if (live.size() < 3) { agent(c, live, names); c.label("two networks"); } break;
			default:
			{
				std::string nm = NAMES[s.below(2)]; if (!file.count(nm) || !same_layout(a.q, file[nm].first)) break; P_LOG(c, "a" << a.id << " is restored" << (nm.empty() ? "" : " from x"));
				a.net->initialize(scratch_file(), nm); nets::Ref old = a.q; auto& f = file[nm];
				for (size_t l = 0; l < old.ls.size(); ++l) { a.q.ls[l].w = f.first.ls[l].w; a.q.ls[l].b = f.first.ls[l].b; a.t.ls[l].w = f.second.ls[l].w; a.t.ls[l].b = f.second.ls[l].b; }
				if (!a.vars.empty()) same_vars(c, a.vars, a.q, 1e-6, "the restored network"); c.label("restored");
			}
		}
	}
	c.nontrivial(moves > 0);
}

// how often actions are explored
static void exploration (Ctx& c)
{
	Src& s = c.s; nets::Ref q = layout(s, 1); q.ls[0].out = s.sz(2, 4); q.ls[0].act = IDENT; q.ls[0].w.assign(q.nin() * q.nout(), 0); q.ls[0].b.assign(q.nout(), 0);
	size_t best = s.below(q.nout()); q.ls[0].b[best] = 1;
	dqn_param p; p.rand_action_prob_ = s.sz(0, 4) / 4.0; p.exploration_period_ = 100.0 * s.below(9);
	P_LOG(c, q.nout() << " actions, exploring " << p.rand_action_prob_ << " after " << p.exploration_period_ << " actions");
	mlp* brain = build(q, "net"); put(brain->get_variables(), q); vgb_updater u(0.1); std::unique_ptr<dq_net> net(new dq_net(brain, u, p, "agent"));
	use_seed(s.below(1u << 30)); Vec x = some(s, q.nin());
	// copied, moved or assigned agents go on where their original is
	size_t turn = s.flip() ? s.sz(1, 799) : 0; int how = (int) s.below(4); if (turn) P_LOG(c, "after " << turn << " actions it is " << (how == 0 ? "copied" : how == 1 ? "moved" : how == 2 ? "assigned to a copy of its beginning" : "moved to a copy of its beginning"));
	std::unique_ptr<dq_net> other; if (turn && how > 1) other.reset(new dq_net(*net, "early"));
	size_t N = 800, half = N / 2; double expect[2] = {0, 0}; double count[2] = {0, 0}; std::vector<size_t> each(q.nout(), 0);
	for (size_t k = 1; k <= N; ++k)
	{
		if (k == turn + 1 && turn)
		{
			switch (how) { case 0: other.reset(new dq_net(*net, "copied")); break; case 1: other.reset(new dq_net(std::move(*net), "")); break; case 2: *other = *net; break; default: *other = std::move(*net); }
			net.swap(other); if (s.flip()) other.reset(); c.label("passed on");
		}
		double act = net->action(x), e = k >= p.exploration_period_ ? p.rand_action_prob_ : 1 - k * (1 - p.rand_action_prob_) / p.exploration_period_;
		P_CHECK(c, act == std::floor(act) && act >= 0 && act < q.nout(), "action " << act);
		expect[k > half] += e * (1 - 1.0 / q.nout()); if ((size_t) act != best) { count[k > half]++; each[(size_t) act]++; }
	}
	for (int h = 0; h < 2; ++h) P_CHECK(c, std::fabs(count[h] - expect[h]) <= 6.5 * std::sqrt(half * 0.25) + 1, (h ? "later " : "early ") << half << " actions: " << count[h] << " were not the best one, expected " << expect[h]);
	for (int h = 0; h < 2; ++h) if (expect[h] == 0) P_CHECK(c, count[h] == 0, "an agent that does not explore chose another action");
	double tot = count[0] + count[1]; for (size_t k = 0; k < q.nout(); ++k) if (k != best) P_CHECK(c, std::fabs(each[k] - tot / (q.nout() - 1)) <= 6.5 * std::sqrt(tot * 0.25) + 1, "explored actions are uneven: " << show(each));
	c.nontrivial();
}

// which experiences are learnt from: every mini batch shows by the weights it moves
static void replay (Ctx& c)
{
	Src& s = c.s; size_t n = s.sz(1, 16), rounds = 250; nets::Ref q = layout(s, 1); q.ls.resize(1); q.ls[0].in = n; q.ls[0].out = 1; q.ls[0].act = IDENT; q.ls[0].w.assign(n, 0); q.ls[0].b.assign(1, 0);
	dqn_param p; p.train_interval_ = 1; p.store_interval_ = s.sz(1, 3); p.mini_batch_size_ = s.sz(1, n); p.max_exp_ = s.sz(p.mini_batch_size_, n); p.discount_rate_ = s.sz(0, 8) / 8.0; p.target_update_rate_ = 0;
	P_LOG(c, n << " experiences, " << p.max_exp_ << " kept, mini batches of " << p.mini_batch_size_);
	srand((unsigned) s.below(1u << 30)); use_seed(s.below(1u << 30));
	mlp* brain = build(q, "net"); std::vector<Var*> vs = brain->get_variables(); put(vs, q); vgb_updater u(1.0 / 64); dq_net net(brain, u, p, "agent");
	for (size_t k = 0; k < n; ++k)
	{
		Vec x(n, 0); x[k] = 1; net.store(x, 0, 8, {});
		for (size_t j = 1; j < p.store_interval_; ++j) net.store(Vec(n, 1), 0, 8, {});
	}
	Vec used(n, 0); double together = 0; size_t first = n - p.max_exp_;
	for (size_t r = 0; r < rounds; ++r)
	{
		put(vs, q); net.train(); nets::Ref got = q; nets::get(vs, got); size_t m = 0; const Vec& w = got.ls[0].w;
		for (size_t k = 0; k < n; ++k) if (w[k] != 0) { m++; used[k]++; }
		P_CHECK(c, m == p.mini_batch_size_, "a mini batch of " << p.mini_batch_size_ << " was of " << m << " experiences, moving " << show(w));
		for (size_t k = 0; k < first; ++k) P_CHECK(c, w[k] == 0, "experience " << k << " of " << n << " is learnt from, but only " << p.max_exp_ << " are kept");
		if (p.max_exp_ > 1) together += w[first] != 0 && w[n - 1] != 0;
	}
	double N = p.max_exp_, m = p.mini_batch_size_, e = rounds * m / N;
	for (size_t k = first; k < n; ++k) P_CHECK(c, std::fabs(used[k] - e) <= 6.5 * std::sqrt(rounds * 0.25) + 1, "of the last " << N << " experiences number " << k - first << " is in " << used[k] << " of " << rounds << " mini batches of " << m << ", expected " << e);
	if (N > 1) { double t = e * (m - 1) / (N - 1); P_CHECK(c, std::fabs(together - t) <= 6.5 * std::sqrt(rounds * 0.25) + 1, "the oldest and the newest experience share " << together << " mini batches, expected " << t); }
	if (first > 0) c.label("older experiences dropped");
	c.nontrivial(N > m);
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C23";
	p.rule = "histories of storing experiences, training, evaluating, acting, copying, moving, assigning, saving and restoring agents of random networks and parameters, every training step compared with the step written in plain loops for some mini batch of the memory; 800 actions of agents with one best action, counted; the experiences of 250 mini batches, counted; non-trivial: a training step with a gradient";
	p.assumptions = {"which experiences make up a mini batch is free", "copied and moved agents start with fresh optimiser state", "counts of random actions and of experiences may deviate by 6.5 standard deviations"};
	p.facets = {{"learning", learning, 36}, {"exploration", exploration, 4}, {"replay", replay, 1}};
	p.quick = 3000; p.thorough = 150000; p.batch = 50;
	return pbt::harness_main(argc, argv, {p});
}
