// a plain model of the Q-learning agent
#pragma once
#include "nets.hpp"
#include "models/dq_net.hpp"
using namespace nets;

struct Exp { Vec s; size_t a; double r; Vec n; };
struct Agent
{
	nets::Ref q, t; dqn_param p; std::vector<Exp> mem; size_t stored = 0, called = 0, trained = 0, acted = 0;
	std::vector<Var*> vars; dq_net* net = nullptr; size_t id = 0;

	void store (const Exp& e)
	{
		if (stored++ % p.store_interval_) return;
		mem.push_back(e);
		if (mem.size() > p.max_exp_) mem.erase(mem.begin());
	}
	bool due (void) { return called % p.train_interval_ == 0; }
	// one step on these experiences
	void step (const std::vector<size_t>& pick, bool& moved)
	{
		size_t m = pick.size(), no = q.nout(); Vec x, d(no * m, 0);
		for (size_t i : pick) x.insert(x.end(), mem[i].s.begin(), mem[i].s.end());
		std::vector<Vec> pre, post, gw, gb; q.run(x, m, pre, post);
		for (size_t k = 0; k < m; ++k)
		{
			const Exp& e = mem[pick[k]]; double future = 0;
			if (!e.n.empty()) { Vec y = t.forward(e.n, 1); future = *std::max_element(y.begin(), y.end()); }
			d[e.a + no * k] = 2.0 / m * (post.back()[e.a + no * k] - e.r - p.discount_rate_ * future);
		}
		q.back(d, m, pre, post, gw, gb);
		auto clip = [](Vec& v) { double n = 0; for (double e : v) n += e * e; n = std::sqrt(n); if (n > 5) for (double& e : v) e *= 5 / n; };
		for (Vec& v : gw) { clip(v); for (double e : v) moved = moved || e != 0; } for (Vec& v : gb) clip(v);
		q.step(gw, gb);
		auto follow = [this](Vec& a, const Vec& b) { for (size_t i = 0; i < a.size(); ++i) a[i] -= p.target_update_rate_ * (a[i] - b[i]); };
		for (size_t k = 0; k < q.ls.size(); ++k) { follow(t.ls[k].w, q.ls[k].w); follow(t.ls[k].b, q.ls[k].b); }
		q.far = q.far || t.far;
	}
};
