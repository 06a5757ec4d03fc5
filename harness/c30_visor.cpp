// C30: the visualisation service (built with EDGE_RCD and RPC_RCD, the recorder and its server started per case)
#include "edges.hpp"
#include "edgeinfo/grpc_vis_record.hpp"
#include <atomic>
#include <thread>
#include <unistd.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
namespace rocnnet_record
{
std::unique_ptr<igraph_record> record_status::rec;
bool record_status::rec_good = false;
}
using namespace rocnnet_record;
typedef std::chrono::steady_clock Clock;
static const int PATIENCE = 30; // seconds

// an address of its own for every process
static std::string host_of (void)
{
	unsigned p = (unsigned) getpid(); std::ostringstream o;
	o << "127." << 1 + (p >> 16) % 250 << "." << (p >> 8) % 256 << "." << 1 + p % 254; return o.str();
}
static const size_t PORT = 50981;
static std::string address (void) { return host_of() + ":" + std::to_string(PORT); }
static void start (void) { record_status::rec.reset(new rpc_record(host_of(), PORT)); record_status::rec_good = true; }

struct EdgeKey
{
	std::string obs, sub; uint64_t idx;
	bool operator < (const EdgeKey& o) const { return std::tie(obs, sub, idx) < std::tie(o.obs, o.sub, o.idx); }
};
struct Client
{
	std::string id;
	std::shared_ptr<grpc::Channel> channel; std::unique_ptr<visor::GUINotifier::Stub> stub;
	grpc::ClientContext nctx, ectx;
	std::thread nt, et;
	mutable std::mutex m; std::condition_variable cv;
	std::map<std::string, bool> gone; std::map<EdgeKey, bool> there; std::set<std::string> news;
	size_t n_nodes = 0, n_edges = 0; bool ndone = false, edone = false, nok = false, eok = false;

	Client (std::string id, std::shared_ptr<grpc::Channel> ch = nullptr) : id(id)
	{
		channel = ch;
		if (!channel)
		{
			grpc::ChannelArguments args; args.SetInt("grpc.use_local_subchannel_pool", 1); args.SetInt("grpc.enable_http_proxy", 0);
			args.SetInt("grpc.initial_reconnect_backoff_ms", 20); args.SetInt("grpc.min_reconnect_backoff_ms", 20); args.SetInt("grpc.max_reconnect_backoff_ms", 100);
			channel = grpc::CreateCustomChannel(address(), grpc::InsecureChannelCredentials(), args);
		}
		stub = visor::GUINotifier::NewStub(channel);
	}
	bool connect (void) { return channel->WaitForConnected(std::chrono::system_clock::now() + std::chrono::seconds(PATIENCE)); }
	void subscribe (void)
	{
		nt = std::thread([this]
		{
			visor::StringId me; me.set_id(id); visor::NodeMessage msg;
			auto reader = stub->SubscribeNode(&nctx, me);
			while (reader->Read(&msg))
			{
				std::lock_guard<std::mutex> l(m); n_nodes++;
				gone[msg.id()] = msg.status() == visor::NodeMessage::REMOVE; if (msg.status() == visor::NodeMessage::UPDATE) news.insert(msg.id());
				cv.notify_all();
			}
			bool ok = reader->Finish().ok();
			std::lock_guard<std::mutex> l(m); ndone = true; nok = ok; cv.notify_all();
		});
		et = std::thread([this]
		{
			visor::StringId me; me.set_id(id); visor::EdgeMessage msg;
			auto reader = stub->SubscribeEdge(&ectx, me);
			while (reader->Read(&msg))
			{
				std::lock_guard<std::mutex> l(m); n_edges++;
				there[EdgeKey{msg.obsid(), msg.subid(), msg.idx()}] = msg.status() == visor::EdgeMessage::ADD;
				cv.notify_all();
			}
			bool ok = reader->Finish().ok();
			std::lock_guard<std::mutex> l(m); edone = true; eok = ok; cv.notify_all();
		});
	}
	template <typename F> bool await (F f, double seconds = PATIENCE)
	{
		std::unique_lock<std::mutex> l(m); return cv.wait_for(l, std::chrono::duration<double>(seconds), f);
	}
	bool end (void)
	{
		visor::StringId me; me.set_id(id); visor::Empty out; grpc::ClientContext ctx;
		ctx.set_deadline(std::chrono::system_clock::now() + std::chrono::seconds(PATIENCE));
		return stub->EndSubscription(&ctx, me, &out).ok();
	}
	bool ended (double seconds = PATIENCE) { return await([this] { return ndone && edone; }, seconds); }
	void join (void) { if (nt.joinable()) nt.join(); if (et.joinable()) et.join(); }
	~Client (void) { nctx.TryCancel(); ectx.TryCancel(); join(); }
};
typedef std::unique_ptr<Client> ClientP;

// what no later message can be mistaken for
struct Sentinel { std::string v, q; };
static Sentinel sentinel (void)
{
	Sentinel r; Var* v = make_var(Dims{1}, Vec{1}, "sentinel"); Vp q = identity<double>(Vp(v));
	r.v = v->get_uid(); r.q = q->get_uid(); delete v; return r;
}
static bool caught_up (Client& k, const Sentinel& s)
{
	EdgeKey e{s.q, s.v, 0};
	return k.await([&] { auto n = k.gone.find(s.v); auto o = k.gone.find(s.q); auto i = k.there.find(e); return n != k.gone.end() && n->second && o != k.gone.end() && o->second && i != k.there.end() && !i->second; });
}
static std::map<EdgeKey, bool> edges_of (const Graph& g)
{
	std::map<EdgeKey, bool> r;
	for (Node* n : g.live()) if (Con* k = dynamic_cast<Con*>(n)) { std::vector<Node*> args = k->get_arguments(); for (size_t i = 0; i < args.size(); ++i) r[EdgeKey{k->get_uid(), args[i]->get_uid(), i}] = true; }
	return r;
}
static std::string who (const Graph& g, const std::string& uid)
{
	for (Node* n : g.live()) if (n->get_uid() == uid) return n->get_label() + ":" + uid;
	return uid;
}
static void compare (Ctx& c, const Graph& g, Client& k, const std::set<std::string>& expect)
{
	std::lock_guard<std::mutex> l(k.m);
	std::map<EdgeKey, bool> want = edges_of(g);
	for (const auto& e : want) { auto i = k.there.find(e.first); P_CHECK(c, i != k.there.end() && i->second, "client " << k.id << " does not know argument " << e.first.idx << " of " << who(g, e.first.obs) << ", " << who(g, e.first.sub)); }
	for (const auto& e : k.there) if (e.second) P_CHECK(c, want.count(e.first), "client " << k.id << " was told that " << who(g, e.first.sub) << " is argument " << e.first.idx << " of " << who(g, e.first.obs));
	std::set<std::string> alive; for (Node* n : g.live()) alive.insert(n->get_uid());
	for (const std::string& u : g.uids)
	{
		auto i = k.gone.find(u);
		if (alive.count(u)) P_CHECK(c, i == k.gone.end() || !i->second, "client " << k.id << " was told that " << who(g, u) << " is gone");
		else P_CHECK(c, i != k.gone.end() && i->second, "client " << k.id << " was not told that " << u << " is gone");
	}
	for (const std::string& u : expect) if (alive.count(u)) P_CHECK(c, k.news.count(u), "client " << k.id << " was not told that " << who(g, u) << " changed");
	k.news.clear();
}

static void history (Ctx& c)
{
	Src& s = c.s;
	start();
	Graph g(c); std::set<std::string> expect;
	g.changed = [&] (Node* n)
	{
		expect.insert(n->get_uid());
		if (s.flip()) return;
		// what is computed from it is announced when it is evaluated
		for (Node* q : g.live()) if (Con* k = dynamic_cast<Con*>(q))
		{
			std::set<Node*> below; Graph::closure(k, below); bool ready = below.count(n);
			for (Node* b : below) if (!dynamic_cast<Con*>(b)) ready &= b->good_status();
			if (ready) { k->eval(); expect.insert(k->get_uid()); }
		}
	};
	g.leaves();
	std::vector<ClientP> clients; size_t joined = 0, compared = 0, ended = 0;
	std::vector<std::string> free_ids;
	auto sync = [&]
	{
		Sentinel t = sentinel();
		for (ClientP& k : clients) { P_CHECK(c, caught_up(*k, t), "client " << k->id << " gets no messages"); compare(c, g, *k, expect); compared++; }
		expect.clear();
	};
	for (size_t step = s.sz(2, 14); step > 0; --step)
	{
		switch ((int) s.weighted({12, 2, 2, 1}))
		{
			case 0: if (!g.step({5, 6, 4, 1, 1, 1, 1, 1})) step = 1; break;
			case 1:
			{
				if (joined >= 3) break;
				std::string id; if (!free_ids.empty() && s.flip()) { id = free_ids.back(); free_ids.pop_back(); } else id = "client" + std::to_string(joined);
				P_LOG(c, id << " subscribes"); joined++; clients.emplace_back(new Client(id));
				P_CHECK(c, clients.back()->connect(), "the service does not answer"); clients.back()->subscribe(); break;
			}
			case 2: P_LOG(c, "compare"); sync(); break;
			default:
			{
				if (clients.empty()) break;
				sync();
				size_t i = s.below(clients.size()); P_LOG(c, clients[i]->id << " ends its subscription"); ended++;
				P_CHECK(c, clients[i]->end(), "the end of a subscription is refused");
				P_CHECK(c, clients[i]->ended(), "a subscription goes on after its end"); P_CHECK(c, clients[i]->nok && clients[i]->eok, "a subscription ends by an error");
				free_ids.push_back(clients[i]->id); clients.erase(clients.begin() + i);
				for (ClientP& k : clients) P_CHECK(c, !k->ended(0), "the subscription of " << k->id << " ended with that of another");
			}
		}
	}
	if (clients.empty()) { clients.emplace_back(new Client("last")); P_CHECK(c, clients.back()->connect(), "the service does not answer"); clients.back()->subscribe(); }
	sync();
	P_LOG(c, "stop");
	record_status::rec.reset();
	for (ClientP& k : clients) P_CHECK(c, k->ended(), "a subscription goes on after the service stopped");
	if (clients.size() > 1) c.label("several clients"); clients.clear();
	if (g.changes && compared) c.nontrivial();
	if (ended) c.label("subscription ended");
}

// clients come and go at the same time as the graph changes
static void churn (Ctx& c)
{
	Src& s = c.s;
	start();
	Graph g(c); g.leaves(); sentinel(); // there are messages in both streams
	size_t nc = s.sz(1, 4), rounds = s.sz(1, 5); bool cancel = s.flip(1, 3); unsigned pause = (unsigned) s.below(300);
	P_LOG(c, nc << " clients subscribe and end " << rounds << " times" << (cancel ? ", some by leaving" : ""));
	std::atomic<int> bad(0); std::atomic<bool> over(false); std::vector<std::thread> ts;
	for (size_t k = 0; k < nc; ++k) ts.emplace_back([&, k]
	{
		for (size_t r = 0; r < rounds && !bad; ++r)
		{
			Client cl("c" + std::to_string(k) + (k % 2 ? "." + std::to_string(r) : std::string()));
			if (!cl.connect()) { bad = 1; return; }
			cl.subscribe();
			if (!cl.await([&] { return cl.n_nodes > 0 && cl.n_edges > 0; })) { bad = 2; return; }
			if (pause) std::this_thread::sleep_for(std::chrono::microseconds(pause * (k + 1)));
			if (cancel && k % 2) { cl.nctx.TryCancel(); cl.ectx.TryCancel(); if (!cl.ended()) { bad = 3; return; } continue; }
			if (!cl.end()) { bad = 4; return; }
			if (!cl.ended()) { bad = 5; return; }
		}
	});
	for (size_t i = s.sz(1, 12); i > 0 && g.step({5, 6, 4, 1, 1, 1, 0, 1}); --i) if (pause) std::this_thread::sleep_for(std::chrono::microseconds(pause));
	for (std::thread& t : ts) t.join();
	static const char* what[] = {"", "the service does not answer", "a client gets no messages", "a cancelled subscription goes on", "the end of a subscription is refused", "a subscription goes on after its end"};
	P_CHECK(c, bad == 0, what[bad]);
	Client last("last"); P_CHECK(c, last.connect(), "the service does not answer"); last.subscribe();
	Sentinel t = sentinel(); P_CHECK(c, caught_up(last, t), "a client gets no messages"); compare(c, g, last, {});
	record_status::rec.reset();
	P_CHECK(c, last.ended(), "a subscription goes on after the service stopped");
	if (nc > 1 && rounds > 1) c.nontrivial();
	c.label(cancel ? "some leave" : "all end");
}

// the service stops whatever its clients are doing
static void stops (Ctx& c)
{
	Src& s = c.s;
	start();
	Graph g(c); g.leaves(); sentinel();
	size_t nc = s.sz(0, 4); unsigned delay = (unsigned) s.below(4000); bool wait = s.flip(), end = s.flip(), act = s.flip();
	P_LOG(c, nc << " clients" << (wait ? " connect" : " try to connect") << (end ? ", some end" : "") << (act ? ", the graph changes" : "") << ", stop after " << delay << " us");
	std::vector<ClientP> clients;
	for (size_t k = 0; k < nc; ++k) { clients.emplace_back(new Client("c" + std::to_string(k))); if (wait) P_CHECK(c, clients.back()->connect(), "the service does not answer"); clients.back()->subscribe(); }
	std::thread t; if (end && nc) t = std::thread([&] { clients[0]->end(); });
	if (act) for (size_t i = s.sz(1, 6); i > 0 && g.step({5, 6, 4, 1, 1, 1, 0, 1}); --i) { }
	std::this_thread::sleep_for(std::chrono::microseconds(delay));
	record_status::rec.reset();
	if (t.joinable()) t.join();
	for (ClientP& k : clients) P_CHECK(c, k->ended(), "a subscription goes on after the service stopped");
	if (nc) c.nontrivial(); c.label(wait ? "connected" : "connecting");
}

// the address is in use: the program goes on without service
static void taken (Ctx& c)
{
	int fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(PORT); inet_pton(AF_INET, host_of().c_str(), &a.sin_addr);
	if (fd < 0 || bind(fd, (sockaddr*) &a, sizeof a) || listen(fd, 4)) { if (fd >= 0) close(fd); c.discard(); return; }
	start();
	Graph g(c); g.leaves();
	for (size_t i = c.s.sz(1, 8); i > 0 && g.step({5, 6, 4, 1, 1, 1, 0, 1}); --i) { }
	unsigned delay = (unsigned) c.s.below(3000); P_LOG(c, "stop after " << delay << " us"); std::this_thread::sleep_for(std::chrono::microseconds(delay));
	record_status::rec.reset(); close(fd);
	c.nontrivial();
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C30";
	p.rule = "history: a comparison of a client's picture with the graph after some node was copied, moved, assigned or destroyed; churn: several clients that come and go several times; stops: at least one client; taken: always";
	p.facets = {{"history", history, 3}, {"churn", churn, 1}, {"stops", stops, 1}, {"taken", taken, 1}};
	p.quick = 3000; p.thorough = 60000; p.batch = 8; p.timeout = 150;
	return pbt::harness_main(argc, argv, {p});
}
