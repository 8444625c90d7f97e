// Driver of the asynchronous TCP server over the simulated network. Events: see
// spec/aio/SrvTrace.tla.
#include "vrt.h"
#include "netsim.h"
#include "mg/aio/IOCore.h"
#include "mg/aio/TCPServer.h"
#include "mg/box/Error.h"
#include "mg/box/Thread.h"
#include "mg/box/Time.h"
#include "mg/net/Host.h"
#include <netinet/in.h>
#include <cerrno>
#include <cstring>
#include <memory>
#if MG_IOCORE_USE_IOURING
#include "uringsim.h"
#endif

using namespace mg::aio;
using netsim::Sock;

struct Node;
struct World {
	IOCore* core = nullptr;
	netsim::Net net;
	int gens = 0;                // servers made
	int maxGens = 0;
	int conns = 0;
	bool closing = false;
	int busy = 0;                // being made or closed from outside
	bool faults = false;
	std::vector<Node*> nodes;    // all, by number
	std::vector<int> got;        // accepted
	int ports[2] = {};
};
static World* W;

struct Node : TCPServerSubscription {
	int k;                       // number
	int slot;
	int port = 0;
	int fam = 0;
	TCPServer::Ptr srv;
	bool inCb = false;
	bool ready = false;          // can be closed by anybody
	bool closed = false;
	bool over = false;           // nobody needs it anymore
	Node(int aK, int aSlot) : k(aK), slot(aSlot) {}
	void drop() { TCPServer::Ptr s; { vrt::Quiet q; s = std::move(srv); } }
	void OnAccept(mg::net::Socket sock, const mg::net::Host& host) override;
	void OnClose() override;
};

static void doClose(Node& n)
{
	// The server may be gone by the end of the call.
	TCPServer::Ptr s;
	{ vrt::Quiet q; s = n.srv; }
	if (!s.IsSet()) return;
	vrt::ev("\"e\":\"cc\",\"k\":%d", n.k);
	s->PostClose();
	vrt::ev("\"e\":\"cr\",\"k\":%d", n.k);
}
static void query(Node& n)
{
	TCPServer::Ptr s;
	{ vrt::Quiet q; s = n.srv; }
	if (!s.IsSet()) return;
	bool was = n.closed;
	bool v = s->IsClosed();
	vrt::ev("\"e\":\"ic\",\"k\":%d,\"b\":%d,\"v\":%d", n.k, (int)was, (int)v);
}

static bool create(vrt::Rng& r, int slot, int port);

void Node::OnAccept(mg::net::Socket fd, const mg::net::Host& host)
{
	if (inCb) vrt::ev("\"e\":\"overlap\"");
	inCb = true;
	vrt::Rng& r = vrt::rng();
	{
		vrt::Quiet q;
		Sock* s = W->net.sock(fd);
		bool ok = s && s->nonblock && s->user == k;
		if (s) {
			sockaddr_storage a;
			memset(&a, 0, sizeof(a));
			socklen_t n = sizeof(a);
			netsim::Net::addr((sockaddr*)&a, &n, s->fam, s->peerPort);
			ok = ok && host == mg::net::Host((const mg::net::Sockaddr*)&a) && host.GetPort() == s->peerPort;
		}
		vrt::ev("\"e\":\"ac\",\"k\":%d,\"i\":%d,\"ok\":%d", k, s ? s->user2 : 0, (int)ok);
		if (s && r.chance(1, 3)) W->net.close(fd);
		else if (s) W->got.push_back(fd);
	}
	if (r.chance(1, 10)) doClose(*this);
	if (r.chance(1, 6)) vrt::stall();
	if (r.chance(1, 8)) query(*this);
	inCb = false;
}
void Node::OnClose()
{
	if (inCb) vrt::ev("\"e\":\"overlap\"");
	inCb = true;
	vrt::Rng& r = vrt::rng();
	vrt::ev("\"e\":\"cl\",\"k\":%d", k);
	closed = true;
	int mode = (int)r.below(4);
	if (mode == 0) doClose(*this);
	if (mode == 1) query(*this);
	if (mode == 2) drop();
	bool again;
	{ vrt::Quiet q; again = !W->closing && W->gens < W->maxGens && r.chance(1, 2); if (again) ++W->busy; }
	if (again) {
		bool ok = create(r, slot, port);
		vrt::ev("\"e\":\"rb\",\"k\":%d,\"ok\":%d", k, (int)ok);
		vrt::Quiet q;
		--W->busy;
		vrt::sysChanged();
	}
	inCb = false;
}

// Bind and listen.
// Port 0 - any.
static bool create(vrt::Rng& r, int slot, int port)
{
	Node* n;
	{
		vrt::Quiet q;
		n = new Node(++W->gens, slot);
		W->nodes.push_back(n);
		n->fam = r.chance(1, 2) ? AF_INET : AF_INET6;
	}
	n->srv = TCPServer::NewShared(*W->core);
	mg::net::Host host = n->fam == AF_INET ? mg::net::HostMakeLocalIPV4((uint16_t)port) : mg::net::HostMakeLocalIPV6((uint16_t)port);
	mg::box::Error::Ptr err;
	bool ok = n->srv->Bind(host, err);
	if (ok != !err.IsSet()) vrt::ev("\"e\":\"baderr\"");
	if (!ok) { n->over = true; return false; }
	int p = n->srv->GetPort();
	bool good = port == 0 || p == port;
	{
		vrt::Quiet q;
		W->ports[slot] = n->port = p;
		Sock* s = nullptr;
		for (auto& i : W->net.fds) if (i.second->kind == netsim::Obj::SOCK) {
			Sock* x = (Sock*)i.second.get();
			if (x->bound && x->port == p && x->st == Sock::NEW) s = x;
		}
		good = good && s && s->fam == n->fam;
		if (s) s->user = n->k;
	}
	vrt::ev("\"e\":\"bd\",\"k\":%d,\"ok\":%d", n->k, (int)good);
	if (r.chance(1, 10)) {
		// Another one can't have the same port.
		TCPServer::Ptr s2 = TCPServer::NewShared(*W->core);
		mg::box::Error::Ptr err2;
		bool ok2 = s2->Bind(n->fam == AF_INET ? mg::net::HostMakeLocalIPV4((uint16_t)p) : mg::net::HostMakeLocalIPV6((uint16_t)p), err2);
		if (ok2 || !err2.IsSet()) vrt::ev("\"e\":\"baderr\"");
		s2->PostClose();
		if (!s2->IsClosed()) vrt::ev("\"e\":\"baderr\"");
	}
	if (r.chance(1, 10)) {
		// Closed without having been used. Nobody is told.
		vrt::ev("\"e\":\"nu\",\"k\":%d", n->k);
		n->srv->PostClose();
		n->closed = true;
		query(*n);
		n->over = true;
		return true;
	}
	vrt::ev("\"e\":\"ls\",\"k\":%d", n->k);
	int k = n->k;
	ok = n->srv->Listen((uint32_t)r.range(1, 4), n, err);
	if (!ok) vrt::ev("\"e\":\"baderr\"");
	vrt::ev("\"e\":\"lr\",\"k\":%d", k);
	n->ready = true;
	return true;
}

static void client(int nops)
{
	vrt::Rng& r = vrt::rng();
	std::vector<int> fds;
	for (int i = 0; i < nops; ++i) {
		{
			vrt::Quiet q;
			int slot = (int)r.below(2);
			int port = W->ports[slot];
			if (port != 0 && r.chance(3, 4)) {
				int fd = W->net.socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
				sockaddr_in a;
				memset(&a, 0, sizeof(a));
				a.sin_family = AF_INET;
				a.sin_port = htons((uint16_t)port);
				W->net.connect(fd, (sockaddr*)&a, sizeof(a));
				fds.push_back(fd);
			} else if (!fds.empty()) {
				int n = (int)r.below(fds.size());
				if (r.chance(1, 2)) W->net.close(fds[n]); else W->net.abortConn(fds[n]);
				fds.erase(fds.begin() + n);
			}
		}
		if (r.chance(1, 5)) vrt::stall(); else if (r.chance(1, 4)) mg::box::Sleep(1 + r.below(3)); else vrt::yield();
	}
	// The rest is still to be accepted.
	vrt::Quiet q;
	for (int fd : fds) if (r.chance(1, 4)) W->net.close(fd); else W->got.push_back(fd);
}
static Node* any(vrt::Rng& r)
{
	vrt::Quiet q;
	std::vector<Node*> v;
	for (Node* n : W->nodes) if (n->ready) v.push_back(n);
	return v.empty() ? nullptr : v[r.below(v.size())];
}
static void user(int nops)
{
	vrt::Rng& r = vrt::rng();
	for (int i = 0; i < nops; ++i) {
		Node* n = any(r);
		switch (r.below(8)) {
		case 0: case 1: if (n) doClose(*n); break;
		case 2: if (n) query(*n); break;
		case 3: if (r.chance(1, 2)) mg::box::Sleep(1 + r.below(4)); break;
		case 4: vrt::stall(); break;
		case 5: if (r.chance(1, 3)) {
			int slot = -1;
			{
				vrt::Quiet q;
				if (W->gens < W->maxGens) {
					slot = (int)r.below(2);
					for (Node* x : W->nodes) if (x->slot == slot && !x->over && !x->closed) slot = -1;
				}
				if (slot >= 0) ++W->busy;
			}
			if (slot >= 0) {
				create(r, slot, 0);
				vrt::Quiet q;
				--W->busy;
				vrt::sysChanged();
			}
		} break;
		default: vrt::yield();
		}
	}
}
static void idle()
{
	vrt::waitIdle(true);
	vrt::Quiet q;
	for (Node* n : W->nodes) {
		int waiting = 0;
		for (auto& i : W->net.fds) if (i.second->kind == netsim::Obj::SOCK) {
			Sock* s = (Sock*)i.second.get();
			if (s->st == Sock::LISTEN && s->user == n->k) waiting = (int)s->queue.size();
		}
		vrt::ev("\"e\":\"idle\",\"k\":%d,\"q\":%d", n->k, waiting);
	}
}

static vrt::Scenario make(uint64_t seed, const std::vector<std::string>&)
{
	vrt::Rng g(seed * 67 + 5);
	int workers = g.range(1, 2);
	int nu = g.range(0, 2);
	int nc = g.range(1, 2);
	int nops = g.range(1, 6);
	bool faults = g.chance(1, 2);
	const int N = 4;
	vrt::Scenario s;
	s.cfgJson = "{\"n\":" + std::to_string(N) + "}";
	s.body = [=]() {
		World world;
		W = &world;
		W->maxGens = N;
		vrt::advanceMs(100);
		vrt::Rng& r = vrt::rng();
		netsim::Net& net = W->net;
#if MG_IOCORE_USE_IOURING
		uringsim::reset();
#endif
		net.connectPlan = [](Sock*, int) { return vrt::rng().chance(1, 2) ? 1000 : 0; };
		net.onEstablished = [](Sock* c, Sock* l) {
			c->user2 = c->peer->user2 = ++W->conns;
			c->peer->user = l->user;
			vrt::ev("\"e\":\"cq\",\"k\":%d,\"i\":%d", l->user, c->user2);
		};
		net.onEaten = [](Sock* c, Sock* l) { vrt::ev("\"e\":\"cx\",\"k\":%d,\"i\":%d", l->user, c->user2); };
		if (faults) net.acceptPlan = [](Sock* l, bool& eats) {
			vrt::Rng& r = vrt::rng();
			if (!r.chance(1, 5)) return 0;
			const int errs[] = {ECONNABORTED, EINTR, ENETDOWN, EPROTO, ENOPROTOOPT, EHOSTDOWN, ENONET, EHOSTUNREACH, EOPNOTSUPP, ENETUNREACH};
			eats = r.chance(1, 2);
			if (eats && l->queue.empty()) return 0;
			return errs[r.below(10)];
		};
		net.start();
		{
			IOCore core;
			W->core = &core;
			core.Start(workers);
			create(r, 0, 0);
			if (r.chance(1, 3)) create(r, 1, 0);
			std::vector<int> ths;
			for (int i = 0; i < nc; ++i) ths.push_back(vrt::spawn([=]() { client(nops); }));
			for (int i = 0; i < nu; ++i) ths.push_back(vrt::spawn([=]() { user(nops); }));
			for (int t : ths) vrt::join(t);
			if (r.chance(3, 4)) idle();
			W->closing = true;
			vrt::waitUntil([]() { return W->busy == 0; });
			for (size_t i = 0; i < W->nodes.size(); ++i) {
				Node* n = W->nodes[i];
				if (n->ready && r.chance(1, 2) && !n->closed) { doClose(*n); n->drop(); }
				else if (n->ready) { doClose(*n); if (r.chance(1, 3)) doClose(*n); }
			}
			core.WaitEmpty();
			idle();
			core.Stop();
			for (Node* n : W->nodes) n->drop();
		}
		for (int fd : W->got) net.close(fd);
		net.finish();
		vrt::ev("\"e\":\"fds\",\"n\":%d", (int)net.fds.size());
		for (Node* n : W->nodes) delete n;
	};
	return s;
}

int main(int argc, char** argv)
{
	return vrt::driverMain(argc, argv, make);
}
