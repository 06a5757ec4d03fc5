// C22: fully connected networks compute and train by their formula
#include "nets.hpp"
using namespace nets;

static void training (Ctx& c)
{
	Src& s = c.s; nets::Ref r = layout(s); fresh(s, r); r.rms = s.flip(); r.lr = s.sz(1, 8) / 64.0; r.disc = s.sz(1, 15) / 16.0; r.restart();
	size_t batch = s.sz(1, 4), tbatch = s.sz(1, 3);
	P_LOG(c, describe(r) << "; " << (r.rms ? "rmsprop" : "plain descent") << " at " << r.lr << (r.rms ? " discount " : " ") << r.disc << "; batches of " << batch << ", evaluated " << tbatch);
	mlp* brain = build(r, "net"); bool early = s.flip();
	P_CHECK(c, brain->get_ninput() == r.nin() && brain->get_noutput() == r.nout(), "the network reports " << brain->get_ninput() << " inputs and " << brain->get_noutput() << " outputs");
	if (early) put(brain->get_variables(), r);
	vgb_updater plain(r.lr); rmspropupdater prop(r.lr, r.disc);
	gd_net net(brain, r.rms ? (gd_updater&) prop : (gd_updater&) plain, "trainer");
	if (!early) { if (s.flip()) net.initialize(); put(brain->get_variables(), r); }
	c.label(r.rms ? "rmsprop" : "plain descent"); c.label(r.ls.size() == 1 ? "one layer" : "several layers"); c.label(early ? "values before wiring" : "values after wiring");
	size_t trained = 0; Vec lastx, lastt; bool reset = false;
	for (size_t k = s.sz(1, 10); k > 0; --k)
	{
		switch (s.weighted({5, 3, 1, 1}))
		{
			case 0:
			{
				Vec x = some(s, r.nin() * batch), t = some(s, r.nout() * batch);
				if (!lastx.empty() && s.flip(1, 4)) { x = lastx; t = lastt; }
				nets::Ref next = r; bool any = next.train(x, t, batch); if (next.far || biggest(next.all()) > 50) break;
				P_LOG(c, "train on " << show(x) << " towards " << show(t));
				lastx = x; lastt = t; net.train(x, t); r = next; trained += any;
				same_vars(c, brain->get_variables(), r, 1e-7, "after training, the network");
				nets::get(brain->get_variables(), r); // keep rounding from adding up
				break;
			}
			case 1:
			{
				Vec x = some(s, r.nin() * tbatch); Vec want = r.forward(x, tbatch); if (r.far) { r.far = false; break; }
				P_LOG(c, "evaluate " << show(x));
				Vec got = net(x);
				P_CHECK(c, close_to(got, want, 1e-8, 1e-8), "the output for " << show(x) << " is " << show(got) << ", expected " << show(want));
				break;
			}
			case 2:
			{
				if (lastx.empty()) break;
				Vec y = r.forward(lastx, batch); if (r.far) { r.far = false; break; }
				Vec want; for (size_t i = 0; i < y.size(); ++i) want.push_back((lastt[i] - y[i]) * (lastt[i] - y[i]));
				P_LOG(c, "error");
				Val e = value_of(const_cast<Node*>((const Node*) net.get_error()));
				P_CHECK(c, close_to(e.v, want, 1e-7, 1e-8 * biggest(y) * biggest(y)), "the error is " << show(e) << ", expected " << show(want));
				break;
			}
			default:
			{
				// somebody else changes the variables
				fresh(s, r); put(brain->get_variables(), r); P_LOG(c, "new weights");
			}
		}
	}
	c.nontrivial(trained > 0);
}

// layers and networks on nodes of the caller
static void forward (Ctx& c)
{
	Src& s = c.s; Pool pool; size_t batch = s.sz(1, 4);
	if (s.flip())
	{
		// one layer fed by several sources
		std::vector<size_t> ins; size_t out = s.sz(1, 3); for (size_t k = s.sz(1, 3); k > 0; --k) ins.push_back(s.sz(1, 3));
		fc_layer layer(ins, out, "fc"); std::vector<Var*> vars = layer.get_variables();
		P_LOG(c, "a layer of " << out << " outputs fed by " << show(ins) << ", batch " << batch); c.label("layer");
		P_CHECK(c, vars.size() == 2 * ins.size(), "the layer has " << vars.size() << " variables");
		std::vector<Operand> in; std::vector<Node*> nodes; std::vector<Vec> w(ins.size()), b(ins.size());
		for (size_t k = 0; k < ins.size(); ++k) { in.push_back(pool.leaf(s, 1, Dims{ins[k], batch}, some(s, ins[k] * batch), "x")); nodes.push_back(in.back().p.get()); }
		auto refill = [&](size_t k) { w[k] = some(s, ins[k] * out); b[k] = some(s, out); if (!vars[2 * k]->good_status()) { vars[2 * k]->initialize(); vars[2 * k + 1]->initialize(); } set_var(vars[2 * k], w[k]); set_var(vars[2 * k + 1], b[k]); };
		for (size_t k = 0; k < ins.size(); ++k) refill(k);
		Vp y = layer(nodes);
		for (size_t round = s.sz(1, 3); round > 0; --round)
		{
			Vec want(out * batch, 0);
			for (size_t k = 0; k < ins.size(); ++k) for (size_t q = 0; q < batch; ++q) for (size_t o = 0; o < out; ++o)
			{
				double a = b[k][o]; for (size_t i = 0; i < ins[k]; ++i) a += in[k].v[i + ins[k] * q] * w[k][o + out * i];
				want[o + out * q] += a;
			}
			Val g = value_of(y.get()); P_CHECK(c, close_to(g.v, want, 1e-9, 1e-9), "the layer gives " << show(g) << ", expected " << show(want));
			size_t k = s.below(ins.size()); if (s.flip()) refill(k); else { Vec v = some(s, in[k].v.size()); Pool::fill(in[k], v); }
		}
	}
	else
	{
		// one network used on several inputs at once
		nets::Ref r = layout(s); fresh(s, r); std::unique_ptr<mlp> net(build(r, "net")); put(net->get_variables(), r);
		P_LOG(c, describe(r)); c.label("network");
		size_t n = s.sz(1, 3); std::vector<Operand> in; std::vector<Vp> y; std::vector<size_t> bs;
		for (size_t k = 0; k < n; ++k) { size_t q = s.sz(1, 3); bs.push_back(q); in.push_back(pool.leaf(s, 1, Dims{r.nin(), q}, some(s, r.nin() * q), "x")); y.push_back(net->prop_up(in[k].p.get())); }
		for (size_t round = s.sz(1, 3); round > 0; --round)
		{
			for (size_t k = 0; k < n; ++k) { Vec want = r.forward(in[k].v, bs[k]); if (r.far) return; Val g = value_of(y[k].get()); P_CHECK(c, close_to(g.v, want, 1e-8, 1e-8 * biggest(want)), "output " << k << " is " << show(g) << ", expected " << show(want)); }
			if (s.flip()) { fresh(s, r); put(net->get_variables(), r); } else { size_t k = s.below(n); Vec v = some(s, in[k].v.size()); Pool::fill(in[k], v); }
		}
	}
	c.nontrivial();
}

// values of networks that were never trained
static void start (Ctx& c)
{
	Src& s = c.s; nets::Ref r = layout(s, 3, 6); std::unique_ptr<mlp> net(build(r, "net"));
	use_seed(s.below(1u << 30)); net->initialize(); nets::Ref g = r; nets::get(net->get_variables(), g);
	for (size_t q = 0; q < r.ls.size(); ++q)
	{
		double lim = 1 / std::sqrt((double) r.ls[q].in);
		for (double x : g.ls[q].b) P_CHECK(c, x == 0, "a bias starts as " << x);
		for (double x : g.ls[q].w) P_CHECK(c, std::fabs(x) <= lim, "a weight of a layer of " << r.ls[q].in << " inputs starts as " << x);
		std::set<double> d(g.ls[q].w.begin(), g.ls[q].w.end());
		P_CHECK(c, d.size() == g.ls[q].w.size(), "weights of layer " << q << " start equal: " << show(g.ls[q].w));
		c.nontrivial(d.size() > 1);
	}
	for (size_t q = 1; q < r.ls.size(); ++q) P_CHECK(c, g.ls[q].w[0] != g.ls[0].w[0], "two layers start with equal weights");
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C22";
	p.rule = "random networks of 1..3 fully connected layers, batches of 1..4, histories of training steps (plain descent and rmsprop), evaluations, error readings and weight changes, compared with back propagation written out in plain loops; layers with several inputs, networks used on several inputs, initial values; non-trivial: a training step with a gradient, or an evaluated layer";
	p.assumptions = {"points beyond the range where the activations can be computed in double precision are left out", "the batch size of one network is kept"};
	p.facets = {{"training", training, 5}, {"forward", forward, 3}, {"start", start, 1}};
	p.quick = 10000; p.thorough = 200000; p.batch = 60;
	return pbt::harness_main(argc, argv, {p});
}
