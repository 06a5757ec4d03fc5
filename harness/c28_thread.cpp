// C28: caches shared between threads, and threads that can be stopped
#include "common.hpp"
#include <functional>
#include <condition_variable>
#include "thread/shareable_cache.hpp"
#include "thread/stoppable_thread.hpp"
#include <map>
#include <set>
#include <thread>
#include <atomic>
#include <memory>

struct Item { size_t key; size_t version; };
typedef nnet::shareable_cache<size_t, Item> Cache;
typedef std::shared_ptr<nnet::cache_node<Item> > Place;
static size_t key_of (const Item& i) { return i.key; }

// consumers reading what one producer adds, in every order
static void reading (Ctx& c)
{
	Src& s = c.s; Cache cache(key_of); size_t nk = s.sz(1, 4), nc = s.sz(1, 3), versions = 0, replaced = 0, reads = 0;
	struct C { Place at; std::map<size_t, size_t> seen; std::vector<size_t> order; };
	std::vector<C> cs(nc); std::map<size_t, size_t> now; // newest version by key
	auto unseen = [&](const C& k) { size_t n = 0; for (auto& e : now) { auto it = k.seen.find(e.first); n += it == k.seen.end() || it->second != e.second; } return n; };
	auto take = [&](size_t i)
	{
		C& k = cs[i]; auto r = cache.get_latest(k.at); P_CHECK(c, (bool) r, "consumer " << i << " got nothing though " << unseen(k) << " items are new to it");
		P_LOG(c, "consumer " << i << " gets " << r->key << "." << r->version); reads++;
		P_CHECK(c, now.count(r->key) && now[r->key] == r->version, "consumer " << i << " got version " << r->version << " of " << r->key << " while the newest one is " << now[r->key]);
		bool fresh = !k.seen.count(r->key) || k.seen[r->key] != r->version; k.seen[r->key] = r->version; return fresh;
	};
	for (size_t step = s.sz(4, 40); step > 0; --step)
	{
		if (s.flip()) { Item it{s.below(nk), ++versions}; P_LOG(c, "add " << it.key << "." << it.version); replaced += now.count(it.key); cache.add_latest(it); now[it.key] = it.version; continue; }
		size_t i = s.below(nc);
		if (unseen(cs[i])) { bool fresh = take(i); if (!fresh) c.label("repeated"); }
	}
	for (size_t i = 0; i < nc; ++i)
	{
		size_t gets = 0; while (unseen(cs[i])) { P_CHECK(c, gets++ < 2 * nk + 2, "after " << gets << " reads consumer " << i << " still has not seen " << unseen(cs[i]) << " items"); take(i); }
	}
	// items that replaced none come in the order they were added
	c.nontrivial(replaced > 1 && reads > 2);
}

// a consumer that has seen everything waits
static void waiting (Ctx& c)
{
	Src& s = c.s; Cache cache(key_of); size_t nk = s.below(3); Place first; size_t v = 0;
	for (size_t k = 0; k < nk; ++k) cache.add_latest(Item{k, ++v});
	for (size_t k = 0; k < nk; ++k) { auto r = cache.get_latest(first); P_CHECK(c, r && r->key == k && r->version == k + 1, "items do not come in the order they were added"); }
	size_t nc = s.sz(1, 4); std::vector<Place> at(nc, first); std::atomic<size_t> done(0), got(0); bool add = s.flip();
	P_LOG(c, nc << " consumers wait for " << (add ? "an item" : "nothing") << " after " << nk);
	std::vector<std::thread> ts;
	for (size_t i = 0; i < nc; ++i) ts.emplace_back([&, i]
	{
		// a wait may end without an item
		if (add) { for (;;) { auto r = cache.get_latest(at[i]); if (r) { got += r->key == 7 && r->version == 99; break; } } }
		else for (int k = 0; k < 6; ++k) { auto r = cache.get_latest(at[i]); got += (bool) r; } // some of these could end early
		done++;
	});
	std::this_thread::sleep_for(std::chrono::microseconds(s.below(3) * 300)); size_t early = done;
	if (add) cache.add_latest(Item{7, 99});
	else { size_t k = 0; while (done < nc) { cache.escape_wait(); std::this_thread::sleep_for(std::chrono::microseconds(50 * ++k)); } }
	for (std::thread& t : ts) t.join();
	P_CHECK(c, early == 0, early << " consumers did not wait"); P_CHECK(c, got == (add ? nc : 0), got << " of " << nc << " consumers got the item");
	c.label(add ? "woken by an item" : "escaped"); c.nontrivial(nc > 1);
}

// one producer and several consumers at once
static void together (Ctx& c)
{
	Src& s = c.s; Cache cache(key_of); size_t nk = s.sz(1, 4), nc = s.sz(1, 3), n = s.sz(5, 300), pause = s.below(3);
	std::vector<size_t> plan(n); std::map<size_t, size_t> last; for (size_t i = 0; i < n; ++i) { plan[i] = s.below(nk); last[plan[i]] = i + 1; }
	P_LOG(c, n << " items of " << nk << " keys for " << nc << " consumers");
	std::vector<std::atomic<size_t> > made(nk); for (auto& m : made) m = 0; std::atomic<size_t> finished(0);
	std::vector<std::string> wrong(nc); std::vector<std::thread> ts;
	for (size_t i = 0; i < nc; ++i) ts.emplace_back([&, i]
	{
		Place at; std::map<size_t, size_t> seen; std::vector<size_t> floor(nk);
		while (seen != last && wrong[i].empty())
		{
			for (size_t k = 0; k < nk; ++k) floor[k] = made[k]; auto r = cache.get_latest(at); if (!r) continue;
			std::ostringstream o;
			if (r->key >= nk || r->version == 0 || r->version > n || plan[r->version - 1] != r->key) o << "item " << r->key << "." << r->version << " was never added";
			else if (r->version < floor[r->key]) o << "version " << r->version << " of " << r->key << " came after " << floor[r->key] << " was added";
			else if (r->version < seen[r->key]) o << "version " << r->version << " of " << r->key << " came after " << seen[r->key];
			wrong[i] = o.str(); if (r->key < nk) seen[r->key] = r->version;
		}
		finished++;
	});
	for (size_t i = 0; i < n; ++i) { cache.add_latest(Item{plan[i], i + 1}); made[plan[i]] = i + 1; if (pause && i % (pause * 7) == 0) std::this_thread::yield(); }
	for (std::thread& t : ts) t.join();
	for (size_t i = 0; i < nc; ++i) P_CHECK(c, wrong[i].empty(), "consumer " << i << ": " << wrong[i]);
	c.nontrivial(n > nk && nc > 1);
}

// threads end when they are told to, and not before
static void stopping (Ctx& c)
{
	Src& s = c.s; struct State { std::atomic<bool> begun{false}, ended{false}, late{false}; std::atomic<long> sum{0}; };
	struct T { std::unique_ptr<State> st; std::unique_ptr<nnet::stoppable_thread> t; int kind; bool stopped = false; };
	std::vector<T> ts; struct End { std::vector<T>* v; ~End() { for (T& t : *v) if (t.t && !t.stopped) t.t->stop(); for (T& t : *v) t.t.reset(); } } end{&ts};
	size_t moved = 0;
	static const char* const KINDS[] = {"waits", "works until thrown out", "adds its arguments", "ends by itself"};
	auto over = [&](T& t) { for (size_t k = 0; !t.st->ended && k < 4000; ++k) std::this_thread::sleep_for(std::chrono::microseconds(k < 100 ? 20 : 2000)); return (bool) t.st->ended; };
	for (size_t step = s.sz(2, 10); step > 0; --step)
	{
		if (ts.empty() || s.flip(1, 3))
		{
			T t; t.st.reset(new State); t.kind = (int) s.below(4); State* st = t.st.get(); P_LOG(c, "t" << ts.size() << " " << KINDS[t.kind]);
			struct Mark { State* s; ~Mark() { s->ended = true; } };
			switch (t.kind)
			{
				case 0: t.t.reset(new nnet::stoppable_thread([st] { Mark m{st}; st->begun = true; nnet::stop_wait(); st->late = true; })); break;
				case 1: t.t.reset(new nnet::stoppable_thread([st] { Mark m{st}; st->begun = true; for (;;) { nnet::stop_throw(); st->sum++; std::this_thread::yield(); } })); break;
				case 3: t.t.reset(new nnet::stoppable_thread([st] { Mark m{st}; st->begun = true; nnet::stop_throw(); })); break;
				default: { long a = s.below(100), b = s.below(100); t.t.reset(new nnet::stoppable_thread([st](long x, const long& y) { Mark m{st}; st->sum = x + 100 * y; nnet::stop_wait(); }, a, b));
					for (size_t k = 0; st->sum != a + 100 * b && k < 3000; ++k) std::this_thread::sleep_for(std::chrono::milliseconds(1));
					P_CHECK(c, st->sum == a + 100 * b, "a thread called with " << a << " and " << b << " got " << st->sum); }
			}
			P_CHECK(c, t.t->joinable(), "a running thread is not joinable"); ts.push_back(std::move(t)); continue;
		}
		size_t i = s.below(ts.size()); T& t = ts[i];
		switch (s.below(5))
		{
			case 0: case 1:
			{
				if (!t.t) break; P_LOG(c, "t" << i << " is stopped"); if (t.kind == 3 && s.flip()) over(t); P_CHECK(c, t.stopped || t.kind == 3 || !t.st->ended, "t" << i << " ended before it was stopped");
				t.t->stop(); t.stopped = true; P_CHECK(c, over(t), "t" << i << " did not end after it was stopped");
				if (t.kind == 0) P_CHECK(c, t.st->late, "t" << i << " was thrown out of its wait"); break;
			}
			case 2: if (!t.t) break; if (t.stopped) { P_LOG(c, "t" << i << " is destroyed"); t.t.reset(); P_CHECK(c, t.st->ended, "a destroyed thread still runs"); } break;
			case 3: { if (!t.t) break; P_LOG(c, "t" << i << " moves"); std::unique_ptr<nnet::stoppable_thread> n; if (s.flip()) n.reset(new nnet::stoppable_thread(std::move(*t.t))); else { n.reset(new nnet::stoppable_thread()); *n = std::move(*t.t); } bool was = t.t->joinable(); t.t = std::move(n); P_CHECK(c, !was && t.t->joinable(), "a moved thread is still joinable, or not at its new place"); moved++; break; }
			default: { nnet::stoppable_thread none; none.stop(); P_CHECK(c, !none.joinable(), "a thread that was never started is joinable"); if (t.stopped && t.t && t.t->joinable()) { t.t->join(); P_CHECK(c, !t.t->joinable() && t.st->ended, "joining failed"); t.t.reset(); } }
		}
		for (size_t k = 0; k < ts.size(); ++k) if (!ts[k].stopped && ts[k].kind != 3) P_CHECK(c, !ts[k].st->ended, "t" << k << " ended though it was not stopped");
	}
	c.nontrivial(ts.size() > 1);
}

// telling a thread to stop just as it starts waiting for that
static void racing (Ctx& c)
{
	Src& s = c.s; size_t n = s.sz(1, 60); unsigned spin = (unsigned) s.below(400);
	for (size_t k = 0; k < n; ++k)
	{
		std::atomic<int> go(0); std::atomic<bool> ended(false);
		nnet::stoppable_thread t([&] { go = 1; nnet::stop_wait(); ended = true; });
		while (!go) {} for (volatile unsigned q = 0; q < spin + k * 7 % 90; ++q) {}
		t.stop(); t.join(); P_CHECK(c, ended, "a joined thread has not ended");
	}
	c.nontrivial(n > 10);
}

int main (int argc, char** argv)
{
	pbt::Prop p;
	p.id = "C28";
	p.rule = "histories of one producer replacing items of 1 to 4 keys and up to 3 consumers reading them, against a map of newest versions; consumers waiting in threads; a producer and consumers running at once; several threads that wait or work, stopped, moved, joined and destroyed in any order; non-trivial: replaced items and several consumers or threads";
	p.assumptions = {"a consumer may get a current item again", "a wait may end without an item"};
	p.facets = {{"reading", reading, 12}, {"waiting", waiting, 3}, {"together", together, 3}, {"stopping", stopping, 2}, {"racing", racing, 1}};
	p.quick = 60000; p.thorough = 2000000; p.batch = 100; p.timeout = 60;
	return pbt::harness_main(argc, argv, {p});
}
