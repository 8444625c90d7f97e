// Driver of the IO core. Events: see spec/aio/IocTrace.tla.
#include "vrt.h"
#include "mg/aio/IOCore.h"
#include "mg/aio/IOTask.h"
#include "mg/box/Time.h"
#include "mg/box/Error.h"
#include "mg/box/Thread.h"
#include <sys/socket.h>
#include <sys/stat.h>
#include <poll.h>
#include <unistd.h>
#include <cstring>
#include <memory>
#if MG_IOCORE_USE_IOURING
#include "uringsim.h"
#endif

using namespace mg::aio;
using mg::box::TimeDuration;

static constexpr long long INF = 1000000000;

struct Node;
using NodePtr = mg::box::SharedPtrIntrusive<Node>;
struct World {
	IOCore* core = nullptr;
	int K = 0;
	bool closing = false;
	bool ticks = false;
	bool small = false;     // small socket buffers
	Node* raw[8] = {};      // who exists
	mg::box::SharedPtrIntrusive<Node> slot[8];
	int lives = 0;
	int calls = 0;
};
static World* W;

static void pairOf(int& a, int& b)
{
	int fd[2];
	if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, fd) != 0) abort();
	int sz = 1;
	setsockopt(fd[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof(sz));
	a = fd[0];
	b = fd[1];
}

static ino_t inodeOf(int fd)
{
	struct stat st;
	if (fd < 0 || fstat(fd, &st) != 0) return 0;
	return st.st_ino;
}

struct Node : IOSubscription {
	SHARED_PTR_RENEW_API(Node)
public:
	IOTask task;
	IOEvent in, out;
	int k;
	int fd = -1, peer = -1;      // of the present life
	bool inPend = false, outPend = false;
	bool wantRead = false, wantSend = false;
	bool fresh = true;           // never posted
	bool broken = false;
	bool renew = false;          // is being posted again
	ino_t ino = 0;
	bool lateSock = false;       // the socket is to be attached by the first execution
	uint8_t wr = 0, rd = 0;      // running counters: peer's writes, our reads
	char rbuf[64];
	char sbuf[4096];
	mg::box::IOVec rv, sv;

	Node(int aK) : task(*W->core), k(aK) { W->raw[k] = this; }
	~Node() override
	{
		vrt::ev("\"e\":\"del\",\"k\":%d", k + 1);
		W->raw[k] = nullptr;
		if (peer >= 0) vrt::realClose(peer);
	}
	void OnEvent(const IOArgs& args) override;
	void issue(vrt::Rng& r);
	void sideOps(vrt::Rng& r, bool last);
	void post(vrt::Rng& r);
	void open(vrt::Rng& r);
	void failed() { vrt::ev("\"e\":\"er\",\"k\":%d", k + 1); wantRead = wantSend = inPend = outPend = false; broken = true; }
	void gotRead(IOEvent& e, const char* what);
	void gotSent(IOEvent& e, const char* what);
};

static int callId() { return ++W->calls; }

static void doWake(Node& n)
{
	int c = callId();
	vrt::ev("\"e\":\"wk\",\"k\":%d,\"c\":%d", n.k + 1, c);
	n.task.PostWakeup();
	vrt::ev("\"e\":\"wkr\",\"k\":%d,\"c\":%d", n.k + 1, c);
}
static void doClose(Node& n)
{
	int c = callId();
	vrt::ev("\"e\":\"cl\",\"k\":%d,\"c\":%d", n.k + 1, c);
	n.task.PostClose();
	vrt::ev("\"e\":\"clr\",\"k\":%d,\"c\":%d", n.k + 1, c);
}

// Take a reference without any interference.
static NodePtr get(int k)
{
	vrt::Quiet q;
	return W->slot[k];
}
static void put(NodePtr& p)
{
	// The last reference must be dropped with switches allowed.
	p.Clear();
}

static void deadline(Node& n, int v)
{
	// Many things at the same moment.
	if (vrt::rng().chance(1, 2)) v = (v + 4) / 5 * 5;
	vrt::ev("\"e\":\"sd\",\"k\":%d,\"v\":%d", n.k + 1, v);
	n.task.SetDeadline(vrt::baseMs() + (uint64_t)v);
}

void Node::open(vrt::Rng& r)
{
	if (peer >= 0) { vrt::realClose(peer); peer = -1; }
	fd = -1;
	wr = rd = 0;
	inPend = outPend = false;
	lateSock = false;
	switch (r.below(6)) {
	case 0: case 1: break;
	case 2: lateSock = true; break;
	default: pairOf(fd, peer);
	}
	wantRead = r.chance(3, 4);
	wantSend = r.chance(1, 4);
	broken = false;
	ino = inodeOf(fd);
}

// Give to the core. Nothing of the node may be touched by this thread afterwards without a reference.
void Node::post(vrt::Rng& r)
{
	if (r.chance(1, 5)) deadline(*this, (int)vrt::nowMs() + (int)r.below(12));
	int kk = k, c = callId(), f;
	{
	vrt::Quiet q;
	open(r);
	f = fd;
	vrt::ev("\"e\":\"po\",\"k\":%d,\"c\":%d,\"s\":%d", kk + 1, c, (int)(f >= 0));
	}
	if (f >= 0) task.Post((mg::net::Socket)f, this); else task.Post(this);
	vrt::ev("\"e\":\"pr\",\"k\":%d,\"c\":%d", kk + 1, c);
}

void Node::gotRead(IOEvent& e, const char* what)
{
	if (e.IsEmpty()) { vrt::ev("\"e\":\"ru\",\"k\":%d", k + 1); return; }
	if (e.IsError()) {
		e.PopError();
		vrt::ev("\"e\":\"rx\",\"k\":%d", k + 1);
		wantRead = false;
		return;
	}
	int n = (int)e.PopBytes();
	bool ok = true;
	for (int i = 0; i < n; ++i) ok = ok && (uint8_t)rbuf[i] == rd++;
	vrt::ev("\"e\":\"%s\",\"k\":%d,\"n\":%d,\"ok\":%d", what, k + 1, n, (int)ok);
	if (n == 0) wantRead = false;
}
void Node::gotSent(IOEvent& e, const char* what)
{
	if (e.IsEmpty()) { vrt::ev("\"e\":\"su\",\"k\":%d", k + 1); return; }
	if (e.IsError()) {
		e.PopError();
		vrt::ev("\"e\":\"sx\",\"k\":%d", k + 1);
		wantSend = false;
		return;
	}
	int n = (int)e.PopBytes();
	vrt::ev("\"e\":\"%s\",\"k\":%d,\"n\":%d", what, k + 1, n);
}

void Node::issue(vrt::Rng& r)
{
	int budget = r.range(0, 3);
	while (wantRead && !inPend) {
		if (budget-- <= 0) {
			// Come back later.
			if (r.chance(1, 2)) { vrt::ev("\"e\":\"rs\",\"k\":%d", k + 1); task.Reschedule(); }
			else doWake(*this);
			break;
		}
		rv.myData = rbuf;
		rv.mySize = 1 + r.below(sizeof(rbuf));
		task.Recv(&rv, 1, in);
		if (in.IsLocked()) { inPend = true; vrt::ev("\"e\":\"rl\",\"k\":%d", k + 1); }
		else gotRead(in, "rd");
		if (r.chance(1, 6)) { if (r.chance(1, 2)) wantRead = false; }
	}
	budget = r.range(0, 2);
	while (wantSend && !outPend) {
		if (budget-- <= 0) {
			if (r.chance(1, 2)) { vrt::ev("\"e\":\"rs\",\"k\":%d", k + 1); task.Reschedule(); }
			else doWake(*this);
			break;
		}
		memset(sbuf, 1, sizeof(sbuf));
		sv.myData = sbuf;
		sv.mySize = sizeof(sbuf);
		task.Send(&sv, 1, out);
		if (out.IsLocked()) { outPend = true; vrt::ev("\"e\":\"sl\",\"k\":%d", k + 1); }
		else gotSent(out, "ss");
	}
}

static void postFresh(vrt::Rng& r);

void Node::sideOps(vrt::Rng& r, bool inEvent)
{
	if (inEvent && r.chance(1, 6)) deadline(*this, (int)vrt::nowMs() + (int)r.below(14) - 1);
	if (inEvent && r.chance(1, 24)) { vrt::ev("\"e\":\"rs\",\"k\":%d", k + 1); task.Reschedule(); }
	if (r.chance(1, 10)) doWake(*this);
	if (r.chance(1, 16)) doClose(*this);
	if (r.chance(1, 10)) {
		NodePtr p = get((int)r.below(W->K));
		if (p.IsSet()) { if (r.chance(2, 3)) doWake(*p); else doClose(*p); }
		put(p);
	}
	if (r.chance(1, 16)) postFresh(r);
	if (r.chance(1, 10)) vrt::yield();
	if (r.chance(1, 12)) vrt::stall();
	if (W->ticks && r.chance(1, 8)) vrt::advanceMs(1 + r.below(5));
}

void Node::OnEvent(const IOArgs& args)
{
	vrt::Rng& r = vrt::rng();
	bool c = task.IsClosed();
	int gone = 1, kp = 0;
	if (c && fd >= 0) {
		gone = inodeOf(fd) != ino;
#if MG_IOCORE_USE_IOURING
		kp = uringsim::pendingOf(&in) + uringsim::pendingOf(&out);
#endif
	}
	vrt::ev("\"e\":\"in\",\"k\":%d,\"c\":%d,\"x\":%d,\"t\":%d,\"s\":%d,\"g\":%d,\"kp\":%d", k + 1, (int)c, (int)task.IsExpired(),
		(int)vrt::nowMs(), (int)task.HasSocket(), gone, kp);
	if (c) {
		// Release the operations.
		in.UnlockForced();
		out.UnlockForced();
		in.Reset();
		out.Reset();
		{ vrt::Quiet q; if (peer >= 0) { vrt::realClose(peer); } peer = -1; fd = -1; }
		if (r.chance(1, 6)) doWake(*this);
		if (r.chance(1, 8)) doClose(*this);
		if (r.chance(1, 8)) vrt::yield();
		if (r.chance(1, 12)) vrt::stall();
		{
			vrt::Quiet q;
			renew = !W->closing && W->lives > 0 && W->slot[k].IsSet() && r.chance(1, 2);
			if (renew) --W->lives;
		}
		if (renew) {
			post(r);
			renew = false;
			return;
		}
		vrt::ev("\"e\":\"end\",\"k\":%d", k + 1);
		return;
	}
	mg::box::Error::Ptr err;
	if (task.HasSocket() && !broken) {
		if (!task.ProcessArgs(args, err)) {
			failed();
			doClose(*this);
		} else {
			if (inPend && !in.IsLocked()) { inPend = false; gotRead(in, "rd"); }
			if (outPend && !out.IsLocked()) { outPend = false; gotSent(out, "ss"); }
		}
	}
	if (lateSock) {
		lateSock = false;
		int a, b;
		pairOf(a, b);
		vrt::ev("\"e\":\"at\",\"k\":%d", k + 1);
		{ vrt::Quiet q; fd = a; peer = b; ino = inodeOf(a); }
		task.AttachSocket(a);
	}
	sideOps(r, true);
	if (task.HasSocket() && !broken) issue(r);
	if (r.chance(1, 4)) sideOps(r, true);
	vrt::ev("\"e\":\"out\",\"k\":%d", k + 1);
}

// A task which was never posted.
static void postFresh(vrt::Rng& r)
{
	for (int k = 0; k < W->K; ++k) {
		NodePtr p = get(k);
		if (!p.IsSet()) continue;
		if (vrt::take(p->fresh)) {
			p->post(r);
			put(p);
			return;
		}
		put(p);
	}
}

static void peerOp(Node& n, vrt::Rng& r)
{
	vrt::Quiet q;
	if (n.peer < 0) return;
	char buf[4096];
	switch (r.below(8)) {
	case 0: case 1: case 2: case 3: {
		int cnt = 1 + (int)r.below(100);
		for (int i = 0; i < cnt; ++i) buf[i] = (char)(n.wr + i);
		iovec v = {buf, (size_t)cnt};
		msghdr m = {};
		m.msg_iov = &v;
		m.msg_iovlen = 1;
		ssize_t rc = sendmsg(n.peer, &m, MSG_NOSIGNAL | MSG_DONTWAIT);
		if (rc > 0) { n.wr += (uint8_t)rc; vrt::ev("\"e\":\"pw\",\"k\":%d,\"n\":%d", n.k + 1, (int)rc); }
		break;
	}
	case 4: case 5: {
		int sum = 0;
		while (true) {
			iovec v = {buf, sizeof(buf)};
			msghdr m = {};
			m.msg_iov = &v;
			m.msg_iovlen = 1;
			ssize_t rc = recvmsg(n.peer, &m, MSG_DONTWAIT);
			if (rc <= 0) break;
			sum += (int)rc;
		}
		if (sum > 0) vrt::ev("\"e\":\"pq\",\"k\":%d,\"n\":%d", n.k + 1, sum);
		break;
	}
	case 6:
		if (r.chance(1, 2)) break;
		shutdown(n.peer, SHUT_WR);
		vrt::ev("\"e\":\"ps\",\"k\":%d", n.k + 1);
		break;
	default:
		if (r.chance(2, 3)) break;
		vrt::ev("\"e\":\"px\",\"k\":%d", n.k + 1);
		shutdown(n.peer, SHUT_RDWR);
	}
}

static void start(int n)
{
	vrt::ev("\"e\":\"gs\",\"n\":%d", n);
	W->core->Start(n);
}
static void stop()
{
	vrt::ev("\"e\":\"tc\"");
	W->core->Stop();
	vrt::ev("\"e\":\"tr\"");
}
static void waitEmpty(long long lim)
{
	int h = vrt::self();
	vrt::ev("\"e\":\"we\",\"h\":%d,\"t\":%d,\"lim\":%lld", h, (int)vrt::nowMs(), lim);
	uint32_t v = lim < 0 ? W->core->WaitEmpty() : W->core->WaitEmpty(TimeDuration((uint64_t)lim));
	vrt::ev("\"e\":\"wr\",\"h\":%d,\"v\":%d,\"t\":%d", h, (int)v, (int)vrt::nowMs());
}

static void user(int nops)
{
	vrt::Rng& r = vrt::rng();
	for (int i = 0; i < nops; ++i) {
		int k = (int)r.below(W->K);
		switch (r.below(16)) {
		case 0: case 1: postFresh(r); break;
		case 2: case 3: case 4: case 5: { NodePtr p = get(k); if (p.IsSet()) doWake(*p); put(p); break; }
		case 6: case 7: { NodePtr p = get(k); if (p.IsSet()) doClose(*p); put(p); break; }
		case 8: case 9: case 10: case 11: { NodePtr p = get(k); if (p.IsSet()) peerOp(*p, r); put(p); break; }
		case 12: if (r.chance(1, 2)) mg::box::Sleep(r.chance(1, 2) ? 5 - vrt::nowMs() % 5 : 1 + r.below(12)); break;
		case 13: if (r.chance(1, 3)) waitEmpty(0); else vrt::yield(); break;
		case 14: if (r.chance(1, 2)) vrt::stall(); break;
		default: {
			if (r.chance(2, 3)) break;
			NodePtr p;
			// It must be closed to go away.
			{ vrt::Quiet q; if (W->slot[k].IsSet() && !W->slot[k]->renew) p = std::move(W->slot[k]); }
			if (p.IsSet()) {
				if (vrt::take(p->fresh)) p->post(r);
				doClose(*p);
			}
			put(p);
		}
		}
	}
}

static vrt::Scenario make(uint64_t seed, const std::vector<std::string>& args)
{
	vrt::Rng g(seed * 53 + 7);
	int workers = g.range(1, 3);
	int K = g.range(1, 4);
	int np = g.range(1, 3);
	int nops = g.range(2, 9);
	bool tk = g.chance(1, 5);
	int mode = g.range(0, 5);
	bool tiny = g.chance(1, 3) || (!args.empty() && args[0] == "tiny");
	if (tiny) { workers = g.range(1, 2); K = 1; np = g.range(1, 2); nops = g.range(1, 4); tk = false; mode = g.range(0, 1); }
	vrt::Scenario s;
	s.cfg.tickable = tk;
	s.cfgJson = "{\"n\":" + std::to_string(K) + ",\"tk\":" + (tk ? "1" : "0") + "}";
	s.body = [=]() {
		World world;
		W = &world;
		W->K = K;
		W->ticks = tk;
		vrt::advanceMs(100);
		{
			IOCore core;
			W->core = &core;
			vrt::Rng& r = vrt::rng();
			W->lives = (int)r.below(4);
			for (int k = 0; k < K; ++k) W->slot[k] = NodePtr::Wrap(new Node(k));
			if (r.chance(1, 3)) postFresh(r);
			bool early = r.chance(3, 4);
			if (early) start(workers);
			std::vector<int> ths;
			for (int p = 0; p < np; ++p) ths.push_back(vrt::spawn([=]() { user(nops); }));
			if (!early) { if (r.chance(1, 2)) vrt::yield(); start(workers); }
			if (mode == 1) waitEmpty((long long)r.below(25));
			if (mode == 2) {
				if (r.chance(1, 2)) vrt::yield();
				stop();
				if (r.chance(1, 2)) mg::box::Sleep(r.below(15));
				if (r.chance(1, 2)) vrt::waitIdle(true);
				start(r.range(1, 3));
			}
			for (int t : ths) vrt::join(t);
			vrt::waitIdle(true);
			vrt::ev("\"e\":\"idle\"");
			// Everybody who can may continue.
			if (mode >= 3) {
				for (int i = 0; i < 4; ++i) {
					NodePtr p = get((int)r.below(K));
					if (p.IsSet()) peerOp(*p, r);
					put(p);
					if (r.chance(1, 2)) { vrt::waitIdle(true); vrt::ev("\"e\":\"idle\""); }
				}
			}
			W->closing = true;
			// A call during a repeated post may do nothing.
			vrt::waitUntil([&]() { for (int k = 0; k < K; ++k) if (W->raw[k] && W->raw[k]->renew) return false; return true; });
			if (r.chance(1, 4)) { stop(); start(r.range(1, 2)); }
			for (int k = 0; k < K; ++k) {
				NodePtr p = get(k);
				if (p.IsSet()) {
					if (vrt::take(p->fresh)) p->post(r);
					doClose(*p);
					if (r.chance(1, 3)) { if (r.chance(1, 2)) doClose(*p); else doWake(*p); }
				}
				put(p);
			}
			if (r.chance(1, 2)) { vrt::waitIdle(true); vrt::ev("\"e\":\"idle\""); waitEmpty(r.chance(1, 2) ? 0 : -1); }
			else waitEmpty(-1);
			if (r.chance(1, 2)) stop();
			for (int k = 0; k < K; ++k) { NodePtr p; { vrt::Quiet q; p = std::move(W->slot[k]); } put(p); }
		}
		for (int k = 0; k < K; ++k) if (W->raw[k]) vrt::ev("\"e\":\"leak\",\"k\":%d", k + 1);
	};
	return s;
}

int main(int argc, char** argv)
{
	return vrt::driverMain(argc, argv, make);
}
