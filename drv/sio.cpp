// Driver of the synchronous sockets and server over the simulated network, whose steps are made
// one at a time. Events: see spec/sio/SioTrace.tla.
#include "vrt.h"
#include "netsim.h"
#include "mg/box/Error.h"
#include "mg/net/Buffer.h"
#include "mg/net/Host.h"
#include "mg/sio/Socket.h"
#include "mg/sio/TCPServer.h"
#include "mg/sio/TCPSocket.h"
#include <netinet/in.h>
#include <cerrno>
#include <cstring>
#include <deque>
#include <memory>

using namespace mg::net;
using mg::box::Error;
using mg::sio::TCPServer;
using mg::sio::TCPSocket;
using netsim::Sock;

struct End {
	int i;
	TCPSocket s;
	Sock* sk = nullptr;      // in the kernel
	int conn = 0;            // the connection, 0 - none
	int side = 0;
	uint64_t acc = 0;        // given for sending
	uint64_t got = 0;        // received
	bool last = false;       // was it connected after the last operation
};
struct World {
	netsim::Net net;
	std::vector<std::unique_ptr<End>> ends;
	int clients = 0;
	int conns = 0;
	bool faults = false;
	bool calm = false;
	int fault = 0;           // happened during the operation
	int plan = 0;
	std::deque<std::vector<char>> mem;
	std::unique_ptr<TCPServer> srv;
	Sock* lsk = nullptr;     // of the server
	int sst = 0;             // of the server: 0 - closed, 1 - bound, 2 - listening
	uint16_t port = 0;
	bool v6 = false;
	int raw = -1;            // holds a port
};
static World* W;

static uint8_t byteOf(int conn, int side, uint64_t pos)
{
	uint64_t x = pos * 0x9E3779B97F4A7C15ull + conn * 77777 + side * 1234567 + 99;
	x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32;
	return (uint8_t)x;
}
static int code(int err) { return err == 0 ? 0 : (int)mg::box::ErrorCodeFromErrno(err); }
static int codeOf(Error::Ptr& e) { return e.IsSet() ? (int)e->myCode : 0; }

static bool isOpen(Sock* s)
{
	for (auto& i : W->net.fds) if (i.second.get() == s) return true;
	return false;
}
// The kernel's state of a socket: [0 none/1 connecting/2 connected/3 dead, error, bytes to read, end of stream, can send, sent, descriptor open].
static std::string snap(Sock* s)
{
	vrt::Quiet q;
	char b[160];
	if (!s) return "[0,0,0,0,0,0,0]";
	int k = s->st == Sock::SYN ? 1 : s->st == Sock::CONN ? 2 : s->st == Sock::DONE ? 3 : 0;
	bool room = k == 2 && !s->sndShut && !s->nospace && s->wire.size() + s->peer->rx.size() < W->net.cap;
	snprintf(b, sizeof(b), "[%d,%d,%d,%d,%d,%d,%d]", k, code(s->err), (int)s->rx.size(), (int)s->gotFin, (int)room, (int)s->sent, (int)isOpen(s));
	return b;
}
static int state(TCPSocket& s)
{
	int a = s.IsClosed(), b = s.IsConnecting(), c = s.IsConnected();
	if (a + b + c != 1) return 9;
	return a ? 0 : b ? 1 : 2;
}
static void after(End& e, const char* op, const std::string& extra, const std::string& before, int ret, Error::Ptr& err)
{
	int st = state(e.s);
	vrt::ev("\"e\":\"%s\",\"i\":%d%s,\"b\":%s,\"a\":%s,\"f\":%d,\"r\":%d,\"er\":%d,\"st\":%d", op, e.i, extra.c_str(), before.c_str(), snap(e.sk).c_str(),
		W->fault == EAGAIN ? -1 : code(W->fault), ret, codeOf(err), st);
	e.last = st == 2;
	W->fault = 0;
}

// The error given to a call may remain from an earlier one.
static void stale(Error::Ptr& e)
{
	vrt::Rng& r = vrt::rng();
	if (r.chance(1, 4)) e = mg::box::ErrorRaise(mg::box::ERR_BOX_UNKNOWN, "old");
}
static void clean(Error::Ptr& e, bool ok) { if (ok && e.IsSet() && e->myCode == mg::box::ERR_BOX_UNKNOWN) e.Clear(); }

static Host hostOf(bool v6, uint16_t port) { return v6 ? HostMakeLocalIPV6(port) : HostMakeLocalIPV4(port); }

static void doConnect(End& e)
{
	vrt::Rng& r = vrt::rng();
	e.conn = ++W->conns;
	e.side = 0;
	e.acc = e.got = 0;
	e.sk = nullptr;
	W->plan = 0;
	if (W->faults && r.chance(1, 12)) W->net.socketFault = r.chance(1, 2) ? EMFILE : ENOBUFS;
	int sf = W->net.socketFault;
	Error::Ptr err;
	Host h = hostOf(r.chance(1, 2), r.chance(1, 6) ? 4999 : W->port);
	bool ok = e.s.Connect(h, err);
	W->net.socketFault = 0;
	char x[100];
	snprintf(x, sizeof(x), ",\"c\":%d,\"sf\":%d,\"p\":%d,\"im\":%d", e.conn, code(sf), code(W->plan >= 1000 ? W->plan - 1000 : W->plan < 0 ? 0 : W->plan), (int)(W->plan >= 1000));
	after(e, "cn", x, snap(nullptr), ok, err);
}
static void doUpdate(End& e)
{
	std::string b = snap(e.sk);
	Error::Ptr err;
	stale(err);
	bool ok = e.s.Update(err);
	clean(err, ok);
	after(e, "up", "", b, ok, err);
}
static void doClose(End& e)
{
	std::string b = snap(e.sk);
	Error::Ptr err;
	e.s.Close();
	after(e, "cl", "", b, 1, err);
}

static Buffer::Ptr part(End& e, uint64_t& at, int n)
{
	vrt::Rng& r = vrt::rng();
	W->mem.emplace_back();
	std::vector<char>& m = W->mem.back();
	for (int k = 0; k < n; ++k) m.push_back((char)byteOf(e.conn, e.side, at + k));
	at += n;
	if (n > 0 && r.chance(1, 2)) return BuffersCopy(m.data(), (uint64_t)n);
	return Buffer::Ptr(BufferRaw::NewShared(m.data(), (uint32_t)n));
}
static void doSend(End& e)
{
	vrt::Rng& r = vrt::rng();
	int n = r.chance(1, 6) ? 0 : r.chance(1, 10) ? r.range(100, (int)W->net.cap * 12 + 100) : r.range(1, 30);
	if (e.acc > (e.sk ? e.sk->sent : 0) + W->net.cap * 20) n %= 10;
	std::string b = snap(e.sk);
	bool closed = e.s.IsClosed();
	uint64_t at = e.acc;
	int how = (int)r.below(e.s.IsConnected() ? 5 : 4);
	if (n == 0 && how >= 3) how = (int)r.below(2);
	if (how < 2) {
		Buffer::Ptr head;
		Buffer* tail = nullptr;
		int parts = r.range(1, 4), left = n;
		for (int k = 0; k < parts; ++k) {
			int m = k + 1 == parts ? left : (int)r.below(left + 1);
			left -= m;
			Buffer::Ptr p = part(e, at, m);
			Buffer* q = p.GetPointer();
			while (q->myNext.IsSet()) q = q->myNext.GetPointer();
			if (tail) tail->myNext = std::move(p); else head = std::move(p);
			tail = q;
		}
		if (how == 0) e.s.SendRef((const Buffer*)head.GetPointer()); else e.s.SendRef(std::move(head));
	} else {
		W->mem.emplace_back();
		std::vector<char>& m = W->mem.back();
		for (int k = 0; k < n; ++k) m.push_back((char)byteOf(e.conn, e.side, at + k));
		at += n;
		if (how < 4) e.s.SendRef(m.data(), (uint64_t)n);
		else { e.s.SendCopy(m.data(), (uint64_t)n); for (char& c : m) c = '#'; }
	}
	if (!closed) e.acc = at;
	char x[60];
	snprintf(x, sizeof(x), ",\"n\":%d", n);
	Error::Ptr err;
	after(e, "sd", x, b, 1, err);
}
static void doRecv(End& e)
{
	vrt::Rng& r = vrt::rng();
	if (!e.s.IsConnected()) return;
	std::string b = snap(e.sk);
	Error::Ptr err;
	stale(err);
	int room = r.chance(1, 8) ? r.range(200, 1000) : r.range(1, 40);
	std::string data((size_t)room, '@');
	int64_t rc;
	bool ok = true;
	if (r.chance(1, 2)) {
		rc = e.s.Recv(&data[0], (uint64_t)room, err);
	} else {
		Buffer::Ptr head;
		Buffer* tail = nullptr;
		int left = room;
		std::vector<Buffer*> all;
		std::vector<std::string> mem(8);
		for (int k = 0; k < 8 && left > 0; ++k) {
			// Only the first one can be partially used.
			int m = k == 7 ? left : r.range(1, left), used = k == 0 ? (int)r.below(4) : 0;
			left -= m;
			mem[k] = std::string((size_t)(used + m), '$');
			Buffer::Ptr p(BufferRaw::NewShared(mem[k].data(), (uint32_t)used, (uint32_t)(used + m)));
			Buffer* q = p.GetPointer();
			all.push_back(q);
			if (tail) tail->myNext = std::move(p); else head = std::move(p);
			tail = q;
		}
		rc = e.s.Recv(head.GetPointer(), err);
		size_t at = 0;
		for (Buffer* q : all) {
			for (uint32_t k = 0; k < q->myCapacity; ++k) {
				if (k < q->myPos) ok = ok && q->myRData[k] == '$';
				else data[at++] = (char)q->myRData[k];
			}
		}
		for (size_t k = rc > 0 ? (size_t)rc : 0; k < at; ++k) ok = ok && data[k] == '$';
	}
	for (int64_t k = 0; k < rc && k < room; ++k) ok = ok && (uint8_t)data[(size_t)k] == byteOf(e.conn, 1 - e.side, e.got + (uint64_t)k);
	if (rc > 0) e.got += (uint64_t)rc;
	clean(err, rc >= 0);
	char x[80];
	snprintf(x, sizeof(x), ",\"m\":%d,\"ok\":%d", room, (int)ok);
	after(e, "rc", x, b, (int)rc, err);
}

//////////////////////////////////////////////////////////////////////////////////////////
// The server.

static void doBind()
{
	vrt::Rng& r = vrt::rng();
	Error::Ptr err;
	bool busy = false;
	uint16_t want = r.chance(1, 2) ? 5000 : r.chance(1, 2) ? 0 : 5001;
	if (want == 5001) busy = W->raw >= 0;
	int sf = 0, bf = 0;
	if (W->faults && r.chance(1, 8)) W->net.socketFault = sf = EMFILE;
	else if (W->faults && r.chance(1, 8)) W->net.bindFault = bf = EACCES;
	W->v6 = r.chance(1, 2);
	bool ok = W->srv->Bind(hostOf(W->v6, want), err);
	W->net.socketFault = W->net.bindFault = 0;
	uint16_t got = 0;
	W->lsk = nullptr;
	if (ok) {
		got = W->srv->GetPort();
		W->sst = 1;
		W->port = got;
		for (auto& i : W->net.fds) {
			Sock* s = i.second->kind == netsim::Obj::SOCK ? (Sock*)i.second.get() : nullptr;
			if (s && s->bound && s->port == got && s->st == Sock::NEW && i.first != W->raw && !s->passive) W->lsk = s;
		}
	}
	vrt::ev("\"e\":\"sb\",\"w\":%d,\"g\":%d,\"nb\":%d,\"busy\":%d,\"x\":%d,\"r\":%d,\"er\":%d", want, got, W->lsk ? (int)(W->lsk->nonblock && W->lsk->port == got) : 0,
		(int)busy, code(sf ? sf : bf), (int)ok, codeOf(err));
}
static void doListen()
{
	vrt::Rng& r = vrt::rng();
	int lf = 0;
	if (W->faults && r.chance(1, 10)) W->net.listenFault = lf = EADDRINUSE;
	Error::Ptr err;
	bool ok = W->srv->Listen((uint32_t)r.range(1, 8), err);
	W->net.listenFault = 0;
	vrt::ev("\"e\":\"sl\",\"x\":%d,\"r\":%d,\"er\":%d,\"o\":%d", code(lf), (int)ok, codeOf(err), (int)isOpen(W->lsk));
	W->sst = ok ? 2 : 0;
}
static void doServerClose()
{
	W->srv->Close();
	vrt::ev("\"e\":\"sc\",\"o\":%d", (int)(W->lsk && isOpen(W->lsk)));
	W->sst = 0;
}
static void doAccept()
{
	vrt::Rng& r = vrt::rng();
	int q = (int)W->lsk->queue.size();
	int first = q > 0 ? W->lsk->queue.front()->peer->user2 : 0;
	int port = q > 0 ? W->lsk->queue.front()->peerPort : 0;
	Error::Ptr err;
	stale(err);
	Host peer;
	W->fault = 0;
	Socket fd = W->srv->Accept(peer, err);
	bool ok = true;
	int c = 0;
	Sock* s = nullptr;
	if (fd != theInvalidSocket) {
		s = W->net.sock(fd);
		c = s ? s->peer->user2 : 0;
		sockaddr_storage a;
		memset(&a, 0, sizeof(a));
		socklen_t n = sizeof(a);
		netsim::Net::addr((sockaddr*)&a, &n, s->fam, port);
		ok = s->nonblock && peer == Host((const Sockaddr*)&a) && peer.GetPort() == port;
		clean(err, true);
	}
	vrt::ev("\"e\":\"ac\",\"q\":%d,\"h\":%d,\"f\":%d,\"fc\":%d,\"r\":%d,\"c\":%d,\"ok\":%d,\"er\":%d,\"o\":%d", q, first, W->fault, code(W->fault), (int)(fd != theInvalidSocket), c,
		(int)ok, codeOf(err), (int)isOpen(W->lsk));
	W->fault = 0;
	if (!isOpen(W->lsk)) W->sst = 0;
	if (fd == theInvalidSocket) return;
	if (W->ends.size() >= 9 || r.chance(1, 10)) {
		// Nobody needs it.
		if (r.chance(1, 2)) W->net.close(fd); else W->net.abortConn(fd);
		return;
	}
	End* e = nullptr;
	for (size_t k = (size_t)W->clients; k < W->ends.size(); ++k) if (W->ends[k]->s.IsClosed()) e = W->ends[k].get();
	if (!e || r.chance(1, 2)) {
		W->ends.emplace_back(new End());
		e = W->ends.back().get();
		e->i = (int)W->ends.size();
	}
	e->conn = c;
	e->side = 1;
	e->acc = e->got = 0;
	e->sk = s;
	e->s.Wrap(fd);
	Error::Ptr no;
	char x[60];
	snprintf(x, sizeof(x), ",\"c\":%d", c);
	after(*e, "wr", x, snap(s), 1, no);
}

static void step() { if (W->net.pending()) W->net.step(false); }

static void one(vrt::Rng& r)
{
	switch (r.below(24)) {
	case 0: case 1: {
		End& e = *W->ends[r.below((uint64_t)W->clients)];
		if (e.s.IsClosed()) doConnect(e);
		break;
	}
	case 2: case 3: case 4: case 5: doUpdate(*W->ends[r.below(W->ends.size())]); break;
	case 6: case 7: case 8: case 9: doSend(*W->ends[r.below(W->ends.size())]); break;
	case 10: case 11: case 12: case 13: doRecv(*W->ends[r.below(W->ends.size())]); break;
	case 14: if (r.chance(1, 4)) doClose(*W->ends[r.below(W->ends.size())]); break;
	case 15: case 16: if (W->sst == 2) doAccept(); break;
	case 17:
		if (W->sst == 0) doBind();
		else if (W->sst == 1) { if (r.chance(1, 8)) doServerClose(); else doListen(); }
		else if (r.chance(1, 8)) doServerClose();
		break;
	default: step();
	}
}

static vrt::Scenario make(uint64_t seed, const std::vector<std::string>& args)
{
	vrt::Rng g(seed * 71 + 3);
	int ops = g.chance(1, 3) ? g.range(10, 40) : g.range(40, 160);
	int clients = g.range(1, 3);
	bool faults = g.chance(1, 2);
	vrt::Scenario s;
	s.cfg.tickable = false;
	s.cfg.maxSteps = 20000000;
	s.cfgJson = "{}";
	s.body = [=]() {
		World world;
		W = &world;
		W->faults = faults;
		W->clients = clients;
		W->srv.reset(new TCPServer());
		vrt::Rng& r = vrt::rng();
		netsim::Net& net = W->net;
		net.cap = (size_t)r.range(8, 80);
		net.cutDen = r.chance(1, 2) ? 3 : 0;
		net.lazyDen = r.range(1, 3);
		net.connectPlan = [](Sock* s, int p) {
			vrt::Rng& r = vrt::rng();
			End* e = nullptr;
			for (auto& x : W->ends) if (x->conn == W->conns && x->sk == nullptr) e = x.get();
			if (!e) abort();
			e->sk = s;
			s->user = e->i;
			s->user2 = e->conn;
			int plan = r.chance(1, 4) ? 1000 : 0;
			bool up = W->sst == 2 && p == W->port;
			if (!up) plan += ECONNREFUSED;
			else if (W->faults && r.chance(1, 6)) {
				const int errs[] = {ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EHOSTUNREACH};
				plan += errs[r.below(4)];
			} else if (W->faults && plan == 0 && r.chance(1, 20)) plan = -1;
			W->plan = plan;
			return plan;
		};
		if (faults) net.sendFault = [](Sock*, int op) {
			vrt::Rng& r = vrt::rng();
			if (W->calm) return 0;
			int e = 0;
			if (r.chance(1, 40)) { const int errs[] = {ETIMEDOUT, EPIPE, ENOBUFS, EHOSTUNREACH}; e = errs[r.below(4)]; }
			else if (op == 0 && r.chance(1, 10)) e = EAGAIN;
			if (e) W->fault = e;
			return e;
		};
		if (faults) net.acceptPlan = [](Sock* l, bool& eats) {
			vrt::Rng& r = vrt::rng();
			if (!r.chance(1, 5)) return 0;
			const int errs[] = {ECONNABORTED, EINTR, ENETDOWN, EPROTO, ENOPROTOOPT, EHOSTDOWN, ENONET, EHOSTUNREACH, EOPNOTSUPP, ENETUNREACH,
				EMFILE, ENFILE, ENOBUFS, ENOMEM};
			eats = r.chance(1, 2) && !l->queue.empty();
			W->fault = errs[r.below(r.chance(1, 3) ? 14 : 10)];
			return W->fault;
		};
		if (r.chance(1, 3)) {
			W->raw = net.socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
			sockaddr_in a;
			memset(&a, 0, sizeof(a));
			a.sin_family = AF_INET;
			a.sin_port = htons(5001);
			a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
			net.bind(W->raw, (sockaddr*)&a, sizeof(a));
		}
		W->port = 5000;
		for (int i = 0; i < clients; ++i) { W->ends.emplace_back(new End()); W->ends.back()->i = i + 1; }
		for (int i = 0; i < ops; ++i) one(r);
		// Everything gets where it should.
		W->calm = true;
		bool more = true;
		for (int k = 0; k < 1500 && more; ++k) {
			more = net.pending() || k < 6;
			step();
			for (size_t i = 0; i < W->ends.size(); ++i) {
				End& e = *W->ends[i];
				if (!e.sk || e.s.IsClosed()) continue;
				Sock* q = e.sk;
				bool can = q->st == Sock::DONE || (q->st == Sock::CONN && !q->nospace && q->wire.size() + q->peer->rx.size() < net.cap);
				more = more || (e.acc > q->sent && can) || !q->rx.empty() || (q->gotFin && e.s.IsConnected());
				if (r.chance(1, 2)) doUpdate(e);
				if (r.chance(1, 2)) doRecv(e);
			}
		}
		for (auto& e : W->ends) {
			End* o = nullptr;
			for (auto& x : W->ends) if (x->conn == e->conn && x->side != e->side) o = x.get();
			int both = !more && e->s.IsConnected() && o && o->s.IsConnected();
			vrt::ev("\"e\":\"end\",\"i\":%d,\"o\":%d,\"both\":%d", e->i, o ? o->i : 0, both);
		}
		for (auto& e : W->ends) e.reset();
		W->srv.reset();
		if (W->raw >= 0) net.close(W->raw);
		vrt::ev("\"e\":\"fds\",\"n\":%d", (int)net.fds.size());
	};
	return s;
}

int main(int argc, char** argv)
{
	return vrt::driverMain(argc, argv, make);
}
