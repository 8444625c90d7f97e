// Driver of the asynchronous sockets (plain or, with DRV_SSL, encrypted) over the simulated network.
// Events: see spec/aio/TcpTrace.tla.
#include "vrt.h"
#include "netsim.h"
#include "mg/aio/IOCore.h"
#include "mg/aio/TCPSocket.h"
#ifdef DRV_SSL
#include "mg/aio/SSLSocket.h"
#include "mg/net/SSLContext.h"
#include "mg/net/SSLStream.h"
#include "certs.h"
#include <map>
#include <openssl/rand.h>
#include <openssl/ssl.h>
#endif
#include "mg/aio/TCPSocketSubscription.h"
#include "mg/box/Error.h"
#include "mg/box/Time.h"
#include "mg/net/Buffer.h"
#include "mg/net/DomainToIP.h"
#include <netdb.h>
#include <netinet/in.h>
#include <cerrno>
#include <cstring>
#include <memory>
#if MG_IOCORE_USE_IOURING
#include "uringsim.h"
#endif

using namespace mg::aio;
using mg::net::Buffer;
using mg::net::BufferLink;
using mg::net::BufferRaw;

struct Node;
#ifdef DRV_SSL
struct Plan {
	int mode = 0;            // 0 - in clear, 1 - encrypted, 2 - gets encrypted on the way
	int clear = 0;           // so many bytes come in clear at first
	bool server = false;     // the role of the socket
	bool doom = false;       // the handshake can't succeed
	bool host = false;       // the client tells the name it wants
	mg::net::SSLContext* mine = nullptr;
	mg::net::SSLContext* theirs = nullptr;
};
static Plan planOf(int k, int life);
#endif
struct Conn {                // the remote end of a connection
	int k, life;
	int fd;
	int policy;              // 0 - talks, 1 - never reads before the end, 2 - silent
	int wr = 0;              // written
	bool shut = false;
#ifdef DRV_SSL
	Plan plan;
	std::unique_ptr<mg::net::SSLStream> ssl;
	std::deque<uint8_t> out; // to be sent
	bool bad = false;        // something was damaged
	bool greeted = false;
	bool spoil = false;      // is going to damage something
#endif
};
struct World {
	IOCore* core = nullptr;
	netsim::Net net;
	int K = 0;
	int calls = 0;
	int lives = 0;           // how many more times somebody may be reopened
	bool closing = false;    // no new lives
	int starting = 0;        // are being reopened
	bool drain = false;      // the remote ends only read
	bool stopPeers = false;
	bool faults = false;
	bool easy = false;       // the next connect goes well
	bool ticks = false;
	bool names = false;      // some endpoints are domain names
	bool near = false;
	int asked = 0;           // the resolver
	bool stuck = false;      // the resolver can't go on now
	bool waits = false;      // and does wait
	int lfd[4] = {-1, -1, -1, -1};
	Node* node[4] = {};
	std::vector<Conn*> conns;
};
static World* W;

#ifdef DRV_SSL
enum { MARK = 0x10 };        // the last byte in clear; nothing else looks so
static int call() { vrt::Quiet q; if ((++W->calls & 15) == 1) ++W->calls; return W->calls; }
static int markCall() { vrt::Quiet q; do ++W->calls; while ((W->calls & 15) != 1); return W->calls; }
#else
static int call() { vrt::Quiet q; return ++W->calls; }
#endif
static int port(int k) { return 5000 + k; }
static uint8_t inByte(int life, int pos) { return (uint8_t)(life * 53 + pos); }
static uint8_t outByte(int c, int pos) { return (uint8_t)((c & 15) << 4 | (pos & 15)); }

struct Node : TCPSocketSubscription {
	int k;
	TCPSocketIFace* sock = nullptr;
#ifdef DRV_SSL
	SSLSocket* tcp = nullptr;
	std::vector<Plan> plans; // by lives
	int inClear = 0;         // received so far
	bool enc = false;
	void encrypt(vrt::Rng& r);
	const Plan& plan() { return plans[life - 1]; }
#else
	TCPSocket* tcp = nullptr;
#endif
	int life = 0;            // given to the core so many times
	int pos = 0, left = 0;   // received bytes
	bool inCb = false;
	int where = 0;           // now: 0 - outside, 1 - in a callback, 2 - in the closing one
	bool dead = false;
	int budget = 0;
	bool task = false;       // may be connected later
	bool lazy = false;       // doesn't ask for data on its own
	bool named = false;      // connects to a name

	Node(int aK) : k(aK) {}
	void begin(const char* e) { if (inCb) vrt::ev("\"e\":\"overlap\""); inCb = true; where = *e == 'c' && e[1] == 'l' ? 2 : 1; }
	void end() { inCb = false; where = 0; }
	void OnConnect() override;
	void OnConnectError(mg::box::Error* e) override;
	void OnRecv(mg::net::BufferReadStream& s) override;
	void OnRecvError(mg::box::Error* e) override;
	void OnSend(uint32_t n) override;
	void OnSendError(mg::box::Error* e) override;
	void OnError(mg::box::Error* e) override;
	void OnClose() override;
	void OnEvent() override;
	void ops(vrt::Rng& r, int den, int inside);
	void start(vrt::Rng& r);
	TCPSocketConnectParams params(vrt::Rng& r);
};

//////////////////////////////////////////////////////////////////////////////////////////
// Calls.

// Memory for the bytes: must not be changed until sent.
static char pool[16][2048];
static Buffer::Ptr piece(vrt::Rng& r, int c, int& at, int n, bool copy)
{
	Buffer::Ptr b;
	if (copy) {
		char tmp[2048];
		for (int i = 0; i < n; ++i) tmp[i] = (char)outByte(c, at + i);
		b = n > 0 ? mg::net::BuffersCopy(tmp, (uint64_t)n) : Buffer::Ptr(BufferRaw::NewShared());
	} else {
		// A part of the read-only memory with all the values.
		b = Buffer::Ptr(BufferRaw::NewShared(pool[c & 15] + (at & 15), (uint32_t)n));
	}
	at += n;
	(void)r;
	return b;
}
static Buffer::Ptr chain(vrt::Rng& r, int c, int& at, int n)
{
	Buffer::Ptr head;
	Buffer* tail = nullptr;
	int parts = r.range(1, 3);
	for (int i = 0; i < parts; ++i) {
		int m = i + 1 == parts ? n : (int)r.below(n + 1);
		n -= m;
		Buffer::Ptr b = piece(r, c, at, m, r.chance(1, 3));
		Buffer* p = b.GetPointer();
		if (tail) tail->myNext = std::move(b); else head = std::move(b);
		while (p->myNext.IsSet()) p = p->myNext.GetPointer();
		tail = p;
	}
	return head;
}
static void doSend(Node& n, vrt::Rng& r, int inside, bool direct)
{
	int c = call();
	int size = r.chance(1, 10) ? 0 : r.chance(1, 5) ? r.range(16, 48) : r.range(1, 12);
#ifdef DRV_SSL
	if (r.chance(1, 25)) size = r.range(900, 1900);
#endif
	int at = 0;
	vrt::ev("\"e\":\"sc\",\"k\":%d,\"c\":%d,\"n\":%d,\"w\":%d", n.k + 1, c, size, inside);
	switch (r.below(6)) {
	case 0: case 1: {
		BufferLink* head = nullptr;
		BufferLink** tail = &head;
		int links = r.range(1, 3);
		int left = size;
		for (int i = 0; i < links; ++i) {
			int m = i + 1 == links ? left : (int)r.below(left + 1);
			left -= m;
			*tail = new BufferLink(chain(r, c, at, m));
			tail = &(*tail)->myNext;
		}
		if (direct) n.sock->SendMove(head); else n.sock->PostSendMove(head);
		break;
	}
	case 2: {
		Buffer::Ptr b = chain(r, c, at, size);
		if (r.chance(1, 2)) { if (direct) n.sock->SendRef(b.GetPointer()); else n.sock->PostSendRef(b.GetPointer()); }
		else { if (direct) n.sock->SendRef(std::move(b)); else n.sock->PostSendRef(std::move(b)); }
		break;
	}
	case 3:
		if (direct) n.sock->SendRef(pool[c & 15], (uint64_t)size); else n.sock->PostSendRef(pool[c & 15], (uint64_t)size);
		break;
	case 4: {
		char tmp[2048];
		for (int i = 0; i < size; ++i) tmp[i] = (char)outByte(c, i);
		if (direct) n.sock->SendCopy(tmp, (uint64_t)size); else n.sock->PostSendCopy(tmp, (uint64_t)size);
		memset(tmp, 1, sizeof(tmp));
		break;
	}
	default: {
		Buffer::Ptr b = chain(r, c, at, size);
		if (r.chance(1, 2)) {
			if (direct) n.sock->SendCopy(b.GetPointer()); else n.sock->PostSendCopy(b.GetPointer());
		} else {
			BufferLink l(std::move(b));
			if (direct) n.sock->SendCopy(&l); else n.sock->PostSendCopy(&l);
		}
	}
	}
	int x = inside ? 0 : (int)n.sock->IsClosed();
	vrt::ev("\"e\":\"sr\",\"k\":%d,\"c\":%d,\"x\":%d", n.k + 1, c, x);
}
static void doRecv(Node& n, vrt::Rng& r, int inside, bool direct)
{
	int c = call();
	uint64_t size = r.chance(1, 8) ? 1 + r.below(3000) : 1 + r.below(16);
	vrt::ev("\"e\":\"qc\",\"k\":%d,\"c\":%d,\"w\":%d", n.k + 1, c, inside);
	if (direct) n.sock->Recv(size); else n.sock->PostRecv(size);
	int x = inside ? 0 : (int)n.sock->IsClosed();
	vrt::ev("\"e\":\"qr\",\"k\":%d,\"c\":%d,\"x\":%d", n.k + 1, c, x);
}
static void doClose(Node& n)
{
	int c = call();
	vrt::ev("\"e\":\"cc\",\"k\":%d,\"c\":%d", n.k + 1, c);
	n.sock->PostClose();
	vrt::ev("\"e\":\"cr\",\"k\":%d,\"c\":%d", n.k + 1, c);
}
static void doShutdown(Node& n)
{
	int c = call();
	vrt::ev("\"e\":\"hc\",\"k\":%d,\"c\":%d", n.k + 1, c);
	n.sock->PostShutdown();
	vrt::ev("\"e\":\"hr\",\"k\":%d,\"c\":%d", n.k + 1, c);
}

//////////////////////////////////////////////////////////////////////////////////////////
// Lives.
#ifdef DRV_SSL

static vrt::Rng* rnd;
static int rndBytes(unsigned char* b, int n)
{
	static vrt::Rng dflt(1);
	vrt::Rng& r = rnd ? *rnd : dflt;
	for (int i = 0; i < n; ++i) b[i] = (unsigned char)(r.next() >> 13);
	return 1;
}
static int rndStatus() { return 1; }
static RAND_METHOD rndMethod = {nullptr, rndBytes, nullptr, nullptr, rndBytes, rndStatus};

// lo and hi are 2 or 3; the client may demand a trusted certificate, which is not there.
static mg::net::SSLContext* context(bool server, int lo, int hi, bool strict)
{
	using namespace mg::net;
	static const SSLVersion vers[] = {SSL_VERSION_TLSv1_2, SSL_VERSION_TLSv1_3};
	static std::map<int, SSLContext::Ptr> all;
	int key = server * 1000 + lo * 100 + hi * 10 + strict;
	SSLContext::Ptr& p = all[key];
	if (!p.IsSet()) {
		p = SSLContext::NewShared(server);
		p->SetTrust(strict && !server ? SSL_TRUST_STRICT : SSL_TRUST_BYPASS_VERIFICATION);
		if (server) p->AddLocalCert(theCert, sizeof(theCert), theKey, sizeof(theKey));
		p->SetMinVersion(vers[lo - 2]);
		p->SetMaxVersion(vers[hi - 2]);
	}
	return p.GetPointer();
}
static void contexts()
{
	for (int s = 0; s < 2; ++s) for (int st = 0; st < 2; ++st) for (int lo = 2; lo <= 3; ++lo) for (int hi = lo; hi <= 3; ++hi) context(s, lo, hi, st);
}
static Plan planOf(int k, int life) { return W->node[k]->plans[life - 1]; }
static Plan newPlan(vrt::Rng& r)
{
	Plan p;
	int x = (int)r.below(8);
	p.mode = x == 0 ? 0 : x < 6 ? 1 : 2;
	p.server = r.chance(1, 2);
	p.clear = r.chance(1, 3) ? 0 : (int)r.below(30);
	bool strict = false;
	int lo[2], hi[2];
	for (int i = 0; i < 2; ++i) { lo[i] = r.range(2, 3); hi[i] = r.range(lo[i], 3); }
	if (hi[0] < lo[1] || hi[1] < lo[0]) p.doom = true;
	else if (r.chance(1, 10)) p.doom = strict = true;
	if (p.doom && (p.mode != 1 || r.chance(1, 2))) {
		p.doom = strict = false;
		lo[0] = lo[1] = 2;
		hi[0] = r.range(2, 3);
		hi[1] = r.range(2, 3);
	}
	p.mine = context(p.server, lo[0], hi[0], strict);
	p.theirs = context(!p.server, lo[1], hi[1], strict);
	return p;
}
// From now on everything is encrypted.
void Node::encrypt(vrt::Rng& r)
{
	(void)r;
	int c = markCall();
	vrt::ev("\"e\":\"sc\",\"k\":%d,\"c\":%d,\"n\":1,\"w\":1", k + 1, c);
	char m = (char)MARK;
	sock->SendCopy(&m, 1);
	vrt::ev("\"e\":\"sr\",\"k\":%d,\"c\":%d,\"x\":0", k + 1, c);
	enc = true;
	tcp->Encrypt();
	vrt::ev("\"e\":\"en\",\"k\":%d", k + 1);
}
#endif

static sockaddr_in6 addrOf(int k)
{
	sockaddr_in6 a;
	memset(&a, 0, sizeof(a));
	a.sin6_family = AF_INET6;
	a.sin6_port = htons((uint16_t)port(k));
	a.sin6_addr = in6addr_loopback;
	return a;
}

//////////////////////////////////////////////////////////////////////////////////////////
// Names. Addresses: > 0 IPv4, < 0 IPv6, 0 something else.

struct Name {
	std::string text;
	int rc;
	std::vector<int> addrs;
	int cost = 0;
	bool slow = false;       // waits while the resolver is stuck
};
static std::vector<Name> names;

static addrinfo* makeInfo(int a)
{
	addrinfo* r = (addrinfo*)calloc(1, sizeof(addrinfo));
	r->ai_family = a == 0 ? AF_UNIX : a > 0 ? AF_INET : AF_INET6;
	sockaddr_storage* s = (sockaddr_storage*)calloc(1, sizeof(sockaddr_storage));
	s->ss_family = r->ai_family;
	if (a > 0) { ((sockaddr_in*)s)->sin_addr.s_addr = htonl(0x0a000000u + a); r->ai_addrlen = sizeof(sockaddr_in); }
	if (a < 0) { ((sockaddr_in6*)s)->sin6_addr.s6_addr[0] = 0xfd; ((sockaddr_in6*)s)->sin6_addr.s6_addr[15] = (uint8_t)-a; r->ai_addrlen = sizeof(sockaddr_in6); }
	r->ai_addr = (sockaddr*)s;
	return r;
}
// The loopback ones are 100.
static int addrCode(const sockaddr* s)
{
	if (s->sa_family == AF_INET) {
		uint32_t x = ntohl(((const sockaddr_in*)s)->sin_addr.s_addr);
		return x == 0x7f000001 ? 100 : (int)(x - 0x0a000000u);
	}
	if (s->sa_family != AF_INET6) return 0;
	const in6_addr& x = ((const sockaddr_in6*)s)->sin6_addr;
	if (memcmp(&x, &in6addr_loopback, sizeof(x)) == 0) return -100;
	return x.s6_addr[0] == 0xfd ? -(int)x.s6_addr[15] : 0;
}
static int resolve(const char* n, const char*, const addrinfo*, addrinfo** out)
{
	*out = nullptr;
	for (Name& x : names) {
		if (x.text != n) continue;
		{ vrt::Quiet q; ++W->asked; }
		vrt::yield();
		if (x.slow) {
			{ vrt::Quiet q; W->waits = true; }
			vrt::waitUntil([]() { return !W->stuck; });
			{ vrt::Quiet q; W->waits = false; }
		}
		if (x.cost) vrt::advanceMs(x.cost);
		vrt::yield();
		addrinfo* head = nullptr;
		for (size_t i = x.addrs.size(); i-- > 0;) {
			addrinfo* a = makeInfo(x.addrs[i]);
			a->ai_next = head;
			head = a;
		}
		*out = head;
		if (x.rc == EAI_SYSTEM) errno = EACCES;
		return x.rc;
	}
	return EAI_NONAME;
}
static void release(addrinfo* a)
{
	while (a) {
		addrinfo* n = a->ai_next;
		free(a->ai_addr);
		free(a);
		a = n;
	}
}
static void makeNames(vrt::Rng& r)
{
	names.clear();
	int n = r.range(1, 4);
	for (int i = 0; i < n; ++i) {
		Name x;
		x.text = "name" + std::to_string(i) + ".test";
		x.rc = 0;
		x.cost = r.chance(1, 3) ? r.range(1, 6) : 0;
		x.slow = r.chance(1, 4);
		if (r.chance(1, 6)) x.rc = r.chance(1, 2) ? EAI_NONAME : EAI_SYSTEM;
		else for (int k = r.range(0, 4); k > 0; --k) x.addrs.push_back(r.range(-3, 3));
		names.push_back(x);
	}
	// The resolver is started by the first user.
	std::vector<mg::net::DomainEndpoint> eps;
	mg::box::Error::Ptr err;
	mg::net::DomainToIPBlocking("first", mg::box::theTimePointInf, eps, err);
}

TCPSocketConnectParams Node::params(vrt::Rng& r)
{
	TCPSocketConnectParams p;
	int to = r.chance(1, 2) ? 100 : -100; // is to be connected to; 0 - can't be resolved
	std::string host = to > 0 ? "127.0.0.1" : "[::1]";
	{ vrt::Quiet q; named = false; }
	if (W->names && r.chance(W->near ? 7 : 2, W->near ? 8 : 3)) {
		const Name& x = names[r.below(names.size())];
		host = x.text;
		int fam = (int)r.below(4);
		if (fam == 2) p.myAddrFamily = mg::net::ADDR_FAMILY_IPV4;
		if (fam == 3) p.myAddrFamily = mg::net::ADDR_FAMILY_IPV6;
		to = 0;
		if (x.rc == 0) for (int a : x.addrs) if (to == 0 && a != 0 && (fam < 2 || (fam == 2) == (a > 0))) to = a;
		vrt::Quiet q;
		named = true;
	}
	p.myEndpoint = host + ":" + std::to_string(port(k));
	int delay = 0;
	if (r.chance(1, 4)) {
		delay = 1 + (int)r.below(10);
		if (r.chance(1, 2)) p.myDelay = mg::box::TimeDuration((uint64_t)delay);
		else p.myDelay = mg::box::TimePoint((uint64_t)(vrt::baseMs() + vrt::nowMs() + delay));
	}
	if (r.chance(1, 5)) p.mySocket = W->net.socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
	vrt::ev("\"e\":\"pa\",\"k\":%d,\"t\":%d,\"a\":%d", k + 1, (int)vrt::nowMs() + delay, to);
	return p;
}

// Open and give to the core.
void Node::start(vrt::Rng& r)
{
#ifdef DRV_SSL
	{ vrt::Quiet q; plans.push_back(newPlan(r)); enc = false; inClear = 0; }
	SSLSocketParams op;
	op.mySSL = plans.back().mine;
	op.myDoEncrypt = plans.back().mode == 1;
	if (!plans.back().server && r.chance(1, 3)) { op.myHostName = "name.test"; plans.back().host = true; }
	tcp->Open(op);
#else
	tcp->Open({});
#endif
	int kind = W->near && r.chance(2, 3) ? 0 : r.chance(1, 5) ? 2 : r.chance(1, 5) ? 1 : 0;
	const char* name = kind == 0 ? "connect" : kind == 1 ? "wrap" : "task";
	int c = call();
	// Sending or asking for data is fine in advance.
	if (r.chance(1, 4)) ops(r, 4, where);
	int myLife;
	where = 0;
	{ vrt::Quiet q; myLife = ++life; named = false; pos = left = 0; task = kind == 2; budget = r.range(2, 12); lazy = r.chance(1, life > 1 ? 2 : 6); }
	int kk = k;
	vrt::ev("\"e\":\"po\",\"k\":%d,\"c\":%d,\"h\":\"%s\"", kk + 1, c, name);
#ifdef DRV_SSL
	if (plan().mode == 2) lazy = false;
	vrt::ev("\"e\":\"md\",\"k\":%d,\"m\":%d,\"d\":%d", kk + 1, plan().mode, (int)plan().doom);
#endif
	if (kind == 0) {
		TCPSocketConnectParams p = params(r);
		sock->PostConnect(p, this);
	} else if (kind == 1) {
		int fd = W->net.socket(AF_INET6, SOCK_STREAM | SOCK_NONBLOCK, 0);
		sockaddr_in6 a = addrOf(k);
		{
			vrt::Quiet q;
			vrt::ev("\"e\":\"pa\",\"k\":%d,\"t\":%d,\"a\":-100", k + 1, (int)vrt::nowMs());
			W->easy = true;
			int rc = W->net.connect(fd, (sockaddr*)&a, sizeof(a));
			W->easy = false;
			if (rc != 0) vrt::ev("\"e\":\"badwrap\"");
		}
		sock->PostWrap(fd, this);
	} else {
		sock->PostTask(this);
	}
	vrt::ev("\"e\":\"pr\",\"k\":%d,\"c\":%d,\"l\":%d", kk + 1, c, myLife);
}

// Something to be done from a callback.
void Node::ops(vrt::Rng& r, int den, int inside)
{
	while (r.chance(1, den)) {
		{ vrt::Quiet q; if (budget <= 0) return; --budget; }
		switch (r.below(12)) {
		case 0: case 1: case 2: case 3: case 4: doSend(*this, r, inside, inside && r.chance(2, 3)); break;
		case 5: case 6: case 7: doRecv(*this, r, inside, inside && r.chance(2, 3)); break;
		case 8: if (inside == 2) break; if (inside) { if (r.chance(1, 2)) sock->Reschedule(); else sock->SetDeadline(vrt::baseMs() + vrt::nowMs() + r.below(8)); } else sock->PostWakeup(); break;
		case 9: if (r.chance(1, 3)) doClose(*this); break;
		case 10: if (life > 0 && r.chance(1, 3)) doShutdown(*this); break;
		default: vrt::yield();
		}
	}
}

void Node::OnConnect()
{
	begin("co");
	vrt::Rng& r = vrt::rng();
	vrt::ev("\"e\":\"co\",\"k\":%d", k + 1);
	int q = sock->IsConnected();
	vrt::ev("\"e\":\"ic\",\"k\":%d,\"v\":%d", k + 1, q);
	if (r.chance(1, 4)) {
		mg::box::Error::Ptr e;
		int v = (int)r.below(2);
		bool ok = sock->SetNoDelay(v == 1, e);
		vrt::Quiet q2;
		for (auto& i : W->net.fds) {
			netsim::Sock* s = i.second->kind == netsim::Obj::SOCK ? (netsim::Sock*)i.second.get() : nullptr;
			if (ok && s && s->user == k + 1 && s->user2 == life) vrt::ev("\"e\":\"nd\",\"v\":%d,\"x\":%d", v, s->nodelay);
		}
	}
	ops(r, 3, 1);
	bool must = false;
#ifdef DRV_SSL
	must = plan().mode == 2;
	if (must && plan().clear == 0) {
		encrypt(r);
		ops(r, 3, 1);
	}
#endif
	if (must || (!lazy && r.chance(3, 4))) doRecv(*this, r, true, true);
	end();
}
void Node::OnConnectError(mg::box::Error* e)
{
	begin("ce");
	vrt::ev("\"e\":\"ce\",\"k\":%d,\"ok\":%d", k + 1, (int)(e != nullptr));
	ops(vrt::rng(), 8, 1);
	end();
}
void Node::OnRecv(mg::net::BufferReadStream& s)
{
	begin("rc");
	vrt::Rng& r = vrt::rng();
	int n = (int)s.GetReadSize();
	int take = r.chance(1, 4) ? (int)r.below(n + 1) : n;
	bool ok = true;
	std::vector<uint8_t> buf(take + 1);
	if (take > 0) s.ReadData(buf.data(), (uint64_t)take);
	for (int i = 0; i < take; ++i) ok = ok && buf[i] == inByte(life, pos++);
	ok = ok && (int)s.GetReadSize() == n - take;
	vrt::ev("\"e\":\"rc\",\"k\":%d,\"n\":%d,\"ok\":%d", k + 1, n - left, (int)ok);
	bool must = false;
#ifdef DRV_SSL
	must = plan().mode == 2;
	inClear += n - left;
#endif
	left = n - take;
	ops(r, 4, 1);
#ifdef DRV_SSL
	if (must && !enc && inClear >= plan().clear) {
		encrypt(r);
		ops(r, 3, 1);
	}
#endif
	if (must || (!lazy && r.chance(5, 6))) doRecv(*this, r, true, r.chance(1, 2));
	end();
}
void Node::OnRecvError(mg::box::Error* e)
{
	begin("re");
	vrt::ev("\"e\":\"re\",\"k\":%d,\"ok\":%d", k + 1, (int)(e != nullptr));
	ops(vrt::rng(), 8, 1);
	end();
}
void Node::OnSend(uint32_t n)
{
	begin("se");
	vrt::ev("\"e\":\"se\",\"k\":%d,\"n\":%d", k + 1, (int)n);
	ops(vrt::rng(), 6, 1);
	end();
}
void Node::OnSendError(mg::box::Error* e)
{
	begin("sx");
	vrt::ev("\"e\":\"sx\",\"k\":%d,\"ok\":%d", k + 1, (int)(e != nullptr));
	ops(vrt::rng(), 8, 1);
	end();
}
void Node::OnError(mg::box::Error* e)
{
	begin("er");
	vrt::ev("\"e\":\"er\",\"k\":%d,\"ok\":%d", k + 1, (int)(e != nullptr));
	ops(vrt::rng(), 8, 1);
	end();
}
void Node::OnEvent()
{
	begin("ev");
	vrt::Rng& r = vrt::rng();
	vrt::ev("\"e\":\"ev\",\"k\":%d", k + 1);
	// An empty task may be connected later.
	int want;
	{ vrt::Quiet q; want = task; if (task && r.chance(1, 2)) task = false; else want = false; }
	if (want) {
		TCPSocketConnectParams p = params(r);
		sock->Connect(p);
		vrt::ev("\"e\":\"tc\",\"k\":%d", k + 1);
	}
	ops(r, 8, 1);
	end();
}
void Node::OnClose()
{
	begin("cl");
	vrt::Rng& r = vrt::rng();
	int q = sock->IsClosed();
	vrt::ev("\"e\":\"cl\",\"k\":%d,\"v\":%d", k + 1, q);
	if (r.chance(1, 8)) ops(r, 2, 2);
	bool again;
	{ vrt::Quiet q2; again = !W->closing && !dead && W->lives > 0 && r.chance(1, 2); if (again) { --W->lives; ++W->starting; } }
	if (again) {
		// Nobody calls back until it is given to the core. And it may happen before the end of this function.
		inCb = false;
		start(r);
		// Already not in the callback.
		if (r.chance(1, 3)) ops(r, 2, 0);
		{ vrt::Quiet q2; --W->starting; }
		vrt::sysChanged();
		return;
	}
	end();
}

//////////////////////////////////////////////////////////////////////////////////////////

#ifdef DRV_SSL
// What the stream has for the network.
static void peerPull(Conn& c)
{
	Buffer::Ptr h;
	c.ssl->PopNetOutput(h);
	for (Buffer* b = h.GetPointer(); b; b = b->myNext.GetPointer()) c.out.insert(c.out.end(), b->myRData, b->myRData + b->myPos);
}
static void peerPump(Conn& c)
{
	vrt::Quiet q;
	while (c.fd >= 0 && !c.shut && !c.out.empty() && (W->net.mask(c.fd) & POLLOUT)) {
		char buf[4096];
		size_t n = c.out.size() < sizeof(buf) ? c.out.size() : sizeof(buf);
		for (size_t i = 0; i < n; ++i) buf[i] = (char)c.out[i];
		iovec v = {buf, n};
		msghdr m = {};
		m.msg_iov = &v;
		m.msg_iovlen = 1;
		ssize_t rc = W->net.sendmsg(c.fd, &m, 0);
		if (rc <= 0) {
			if (errno != EAGAIN) { c.shut = true; c.out.clear(); }
			break;
		}
		c.out.erase(c.out.begin(), c.out.begin() + rc);
	}
}
static void peerStart(Conn& c)
{
	c.ssl.reset(new mg::net::SSLStream(c.plan.theirs));
	c.ssl->Connect();
	c.ssl->Update();
	peerPull(c);
}
#endif
struct Segs {
	std::string segs;
	int segC = -1, segO = 0, segN = 0, got = 0;
	void flush() {
		if (segN == 0) return;
		segs += (segs.empty() ? "[" : ",[") + std::to_string(segC) + "," + std::to_string(segO) + "," + std::to_string(segN) + "]";
		segN = 0;
	}
	void add(uint8_t b) {
		++got;
		// The offsets repeat: 16 bytes at most may be one segment.
		if (segN > 0 && (b & 15) != 0 && segC == b >> 4 && ((segO + segN) & 15) == (b & 15)) { ++segN; return; }
		flush();
		segC = b >> 4;
		segO = b & 15;
		segN = 1;
	}
	void done(Conn& c) {
		flush();
		if (got > 0) vrt::ev("\"e\":\"gt\",\"k\":%d,\"l\":%d,\"n\":%d,\"s\":[%s]", c.k + 1, c.life, got, segs.c_str());
	}
};
static void peerEnd(Conn& c, int how);
static void peerWrite(Conn& c, int n, bool spoil = false);
static void peerRead(Conn& c, int max)
{
	vrt::Quiet q;
	if (c.fd < 0) return;
	char buf[512];
	Segs sg;
	iovec v = {buf, (size_t)(max < 512 ? max : 512)};
	msghdr m = {};
	m.msg_iov = &v;
	m.msg_iovlen = 1;
	ssize_t rc = W->net.recvmsg(c.fd, &m, 0);
	int err = errno;
	bool end = false;
#ifdef DRV_SSL
	ssize_t at = 0;
	// In clear up to the mark.
	while (!c.ssl && at < rc) {
		uint8_t b = (uint8_t)buf[at++];
		sg.add(b);
		if (b == MARK && c.plan.mode == 2) peerStart(c);
	}
	if (c.ssl && at < rc) {
		c.ssl->AppendNetInputCopy(buf + at, (uint64_t)(rc - at));
		Buffer::Ptr h;
		c.ssl->PopAppOutput(h);
		for (Buffer* b = h.GetPointer(); b; b = b->myNext.GetPointer()) for (uint32_t i = 0; i < b->myPos; ++i) sg.add(b->myRData[i]);
		end = !c.ssl->Update() || c.ssl->HasError();
		bool first = !c.greeted && c.ssl->IsConnected();
		if (first) {
			c.greeted = true;
			std::string host = c.ssl->GetHostName();
			if (!c.plan.server) vrt::ev("\"e\":\"sn\",\"k\":%d,\"x\":%d,\"v\":%d", c.k + 1, (int)c.plan.host, host == "name.test" ? 1 : host.empty() ? 0 : 2);
		}
		peerPull(c);
		if (first) for (int i = c.policy == 2 || vrt::rng().chance(1, 2) ? 0 : vrt::rng().range(1, 3); i > 0; --i) peerWrite(c, 1 + (int)vrt::rng().below(40));
	}
#else
	for (ssize_t i = 0; i < rc; ++i) sg.add((uint8_t)buf[i]);
#endif
	sg.done(c);
	if (end) {
#ifdef DRV_SSL
		vrt::ev("\"e\":\"badtls\",\"k\":%d,\"l\":%d", c.k + 1, c.life);
		peerPump(c);
#endif
		peerEnd(c, 1);
	} else if (rc == 0 || (rc < 0 && err != EAGAIN)) {
		vrt::ev("\"e\":\"pe\",\"k\":%d,\"l\":%d,\"w\":\"%s\"", c.k + 1, c.life, rc == 0 ? "eof" : "err");
		W->net.close(c.fd);
		c.fd = -1;
	}
}
static void peerWrite(Conn& c, int n, bool spoil)
{
	vrt::Quiet q;
	if (c.fd < 0 || c.shut) return;
	uint8_t buf[3000];
	if (n > (int)sizeof(buf)) n = (int)sizeof(buf);
#ifdef DRV_SSL
	if (c.ssl && !spoil && vrt::rng().chance(1, 15)) n = 600 + (int)vrt::rng().below(2400);
	if (c.out.size() > 4000) return;
	// All what should be in clear, and not a byte more.
	if (c.plan.mode == 2 && !c.ssl && n > c.plan.clear - c.wr) n = c.plan.clear - c.wr;
	if (n <= 0) return;
	if (spoil) c.spoil = false;
#endif
	for (int i = 0; i < n; ++i) buf[i] = inByte(c.life, c.wr + i);
#ifdef DRV_SSL
	if (c.ssl) {
		if (spoil) vrt::ev("\"e\":\"pc\",\"k\":%d,\"l\":%d", c.k + 1, c.life);
		else if (!c.bad) { c.wr += n; vrt::ev("\"e\":\"pw\",\"k\":%d,\"l\":%d,\"n\":%d", c.k + 1, c.life, n); }
		c.ssl->AppendAppInputCopy(buf, (uint64_t)n);
		peerPull(c);
		if (spoil) { c.bad = true; c.out.back() ^= 0x41; }
	} else {
		c.out.insert(c.out.end(), buf, buf + n);
		c.wr += n;
		vrt::ev("\"e\":\"pw\",\"k\":%d,\"l\":%d,\"n\":%d", c.k + 1, c.life, n);
	}
	peerPump(c);
#else
	iovec v = {buf, (size_t)n};
	msghdr m = {};
	m.msg_iov = &v;
	m.msg_iovlen = 1;
	ssize_t rc = W->net.sendmsg(c.fd, &m, 0);
	if (rc > 0) { c.wr += (int)rc; vrt::ev("\"e\":\"pw\",\"k\":%d,\"l\":%d,\"n\":%d", c.k + 1, c.life, (int)rc); }
#endif
}
static void peerEnd(Conn& c, int how)
{
	vrt::Quiet q;
	if (c.fd < 0) return;
#ifdef DRV_SSL
	if (c.bad && c.out.empty()) vrt::ev("\"e\":\"pz\",\"k\":%d,\"l\":%d", c.k + 1, c.life);
#endif
	vrt::ev("\"e\":\"px\",\"k\":%d,\"l\":%d,\"w\":\"%s\"", c.k + 1, c.life, how == 0 ? "shut" : how == 1 ? "close" : "abort");
	if (how == 0) { W->net.shutdown(c.fd, SHUT_WR); c.shut = true; return; }
	if (how == 1) W->net.close(c.fd); else W->net.abortConn(c.fd);
	c.fd = -1;
}

#ifdef DRV_SSL
static bool spoils(const Conn& c) { return c.spoil && c.fd >= 0 && !c.shut && c.ssl && c.ssl->IsConnected(); }
#endif
static bool peersHave()
{
	for (int k = 0; k < W->K; ++k) if (W->lfd[k] >= 0 && W->net.mask(W->lfd[k])) return true;
#ifdef DRV_SSL
	for (Conn* c : W->conns) if (c->fd >= 0 && !c->shut && !c->out.empty() && (W->net.mask(c->fd) & POLLOUT)) return true;
	if (W->drain) for (Conn* c : W->conns) if (spoils(*c) && c->out.size() <= 4000) return true;
	// What is expected in clear must come.
	if (W->drain) for (Conn* c : W->conns) if (c->fd >= 0 && !c->shut && c->plan.mode == 2 && !c->ssl && c->wr < c->plan.clear) return true;
#endif
	for (Conn* c : W->conns) if (c->fd >= 0 && (W->drain || c->policy != 1) && (W->net.mask(c->fd) & (POLLIN | POLLERR | POLLHUP))) return true;
	return false;
}
static void peers(int nops)
{
	vrt::Rng& r = vrt::rng();
	while (true) {
		vrt::waitUntil([&]() {
			vrt::Quiet q;
			bool open = false;
			for (Conn* c : W->conns) open = open || c->fd >= 0;
			return W->stopPeers || peersHave() || (!W->drain && nops > 0 && open);
		});
		if (W->stopPeers) break;
		vrt::yield();
		for (int k = 0; k < W->K; ++k) {
			vrt::Quiet q;
			if (W->lfd[k] < 0 || !W->net.mask(W->lfd[k])) continue;
			int fd = W->net.accept4(W->lfd[k], nullptr, nullptr, SOCK_NONBLOCK);
			if (fd < 0) continue;
			Conn* c = new Conn();
			c->k = k;
			c->life = W->net.sock(fd)->peer->user2;
			c->fd = fd;
			c->policy = (int)r.below(4);
#ifdef DRV_SSL
			c->plan = planOf(k, c->life);
			if (c->plan.mode == 1) peerStart(*c);
			c->spoil = r.chance(1, 8);
#endif
			W->conns.push_back(c);
		}
		for (size_t i = 0; i < W->conns.size(); ++i) {
			Conn& c = *W->conns[i];
			if (c.fd < 0) continue;
			if (!W->drain && nops > 0) {
				--nops;
				switch (r.below(8)) {
				case 0: case 1: case 2: if (c.policy != 2) peerWrite(c, 1 + (int)r.below(r.chance(1, 4) ? 200 : 40)); break;
				case 3: if (r.chance(1, 6)) { peerEnd(c, (int)r.below(3)); continue; } break;
				case 4: vrt::yield(); break;
				case 5: if (r.chance(1, 3)) vrt::stall(); break;
				default: break;
				}
			}
#ifdef DRV_SSL
			if (W->drain && c.plan.mode == 2 && !c.ssl) peerWrite(c, c.plan.clear - c.wr);
			if (spoils(c) && r.chance(1, 3)) peerWrite(c, 1 + (int)r.below(40), true);
			peerPump(c);
#endif
			bool rd;
			{ vrt::Quiet q; rd = c.fd >= 0 && (W->net.mask(c.fd) & (POLLIN | POLLERR | POLLHUP)); }
			if (rd && (W->drain || (c.policy != 1 && r.chance(1, 2)))) peerRead(c, W->drain ? 512 : 1 + (int)r.below(60));
			vrt::yield();
		}
	}
}

static void user(std::vector<int> own, int nops)
{
	vrt::Rng& r = vrt::rng();
	if (W->near && r.chance(1, 2)) {
		for (int i = 0; i < 40 && !W->asked; ++i) vrt::yield();
		doClose(*W->node[0]);
	}
	for (int i = 0; i < nops; ++i) {
		Node& n = *W->node[own[r.below(own.size())]];
		if (n.dead) continue;
		switch (r.below(16)) {
		case 0: case 1: case 2: case 3: case 4: case 5: doSend(n, r, false, false); break;
		case 6: case 7: case 8: doRecv(n, r, false, false); break;
		case 9: n.sock->PostWakeup(); break;
		case 10:
			if (!r.chance(1, 3)) break;
			// The last wishes.
			if (r.chance(1, 3)) doRecv(n, r, false, false);
			if (r.chance(1, 3)) doSend(n, r, false, false);
			doClose(n);
			break;
		case 11: if (r.chance(1, 3)) doShutdown(n); break;
		case 12: if (r.chance(1, 2)) mg::box::Sleep(1 + r.below(8)); break;
		case 13: if (r.chance(1, 3)) vrt::stall(); break;
		case 14: if (W->ticks && r.chance(1, 2)) vrt::advanceMs(1 + r.below(6)); break;
		default: vrt::yield();
		}
	}
}

static void idle()
{
	vrt::waitIdle(true);
	vrt::Quiet q;
	for (int k = 0; k < W->K; ++k) {
		// The client's end.
		int cs = 0, rx = 0, fin = 0, rst = 0;
		for (auto& i : W->net.fds) {
			if (i.second->kind != netsim::Obj::SOCK) continue;
			netsim::Sock* s = (netsim::Sock*)i.second.get();
			if (s->user != k + 1) continue;
			cs = s->st == netsim::Sock::SYN ? 1 : s->st == netsim::Sock::CONN ? 2 : s->st == netsim::Sock::DONE ? 3 : 0;
			rx = (int)s->rx.size();
			fin = s->gotFin;
			rst = s->wasReset;
		}
		if (cs == 0 && W->node[k]->named && W->waits) cs = 4;
		int pa = 0; // the remote end is there
		int fl = 1; // and has sent all
		for (Conn* c : W->conns) if (c->k == k && c->life == W->node[k]->life && c->fd >= 0) {
			pa = 1;
#ifdef DRV_SSL
			fl = c->out.empty() && (c->plan.mode == 0 || (c->ssl && c->ssl->IsConnected()));
#endif
		}
		vrt::ev("\"e\":\"idle\",\"k\":%d,\"cs\":%d,\"rx\":%d,\"fin\":%d,\"rst\":%d,\"pa\":%d,\"dr\":%d,\"fl\":%d", k + 1, cs, rx, fin, rst, pa, (int)W->drain, fl);
	}
}

// In the mode "dns" the endpoints are names mostly, and closings often come near the end of their resolution.
static vrt::Scenario make(uint64_t seed, const std::vector<std::string>& args)
{
	vrt::Rng g(seed * 71 + 3);
	int workers = g.range(1, 2);
	int K = g.chance(1, 4) ? 2 : 1;
	int np = g.range(1, 2);
	int nops = g.range(1, 6);
	bool tk = g.chance(1, 6);
	bool faults = g.chance(1, 2);
	bool calm = g.chance(1, 3);
	vrt::Scenario s;
	s.cfg.tickable = tk;
	// The resolver never ends.
	bool dns = !args.empty() && args[0] == "dns";
	bool near = dns && g.chance(2, 3);
	if (near) { K = 1; np = 1; nops = g.range(0, 3); }
	s.cfg.forked = dns;
	s.cfgJson = "{\"n\":" + std::to_string(K) + ",\"ur\":" + std::to_string((int)MG_IOCORE_USE_IOURING) + "}";
	s.body = [=]() {
		World world;
		W = &world;
		for (int c = 0; c < 16; ++c) for (int i = 0; i < 2048; ++i) pool[c][i] = (char)outByte(c, i);
		W->K = K;
		W->ticks = tk;
		W->faults = faults;
		vrt::advanceMs(100);
		vrt::Rng& r = vrt::rng();
		netsim::Net& net = W->net;
#ifdef DRV_SSL
		vrt::Rng secret(seed * 7 + 1);
		rnd = &secret;
		net.cap = r.chance(1, 2) ? (size_t)r.range(3000, 9000) : (size_t)r.range(300, 2000);
#else
		net.cap = (size_t)r.range(8, 80);
#endif
		net.cutDen = r.chance(1, 2) ? 3 : 0;
		net.lazyDen = r.range(1, 3);
#ifdef DRV_SSL
		net.onEof = [](netsim::Sock* x) { if (x->user > 0) vrt::ev("\"e\":\"ef\",\"k\":%d", x->user); };
#endif
#if MG_IOCORE_USE_IOURING
		uringsim::reset();
#endif
		for (int k = 0; k < K; ++k) {
			W->lfd[k] = net.socket(AF_INET6, SOCK_STREAM | SOCK_NONBLOCK, 0);
			sockaddr_in6 a = addrOf(k);
			net.bind(W->lfd[k], (sockaddr*)&a, sizeof(a));
			net.listen(W->lfd[k], 8);
		}
		net.connectPlan = [](netsim::Sock* s, int p) {
			int k = p - 5000;
			if (k < 0 || k >= W->K) abort();
			s->user = k + 1;
			s->user2 = W->node[k]->life;
			vrt::Rng& r = vrt::rng();
			int plan = r.chance(1, 4) ? 1000 : 0;
			if (W->easy) plan = 1000;
			else if (W->faults && r.chance(1, 6)) {
				const int errs[] = {ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EHOSTUNREACH};
				plan += errs[r.below(4)];
				if (plan < 1000 && r.chance(1, 6)) plan = -1;
			}
			vrt::ev("\"e\":\"cn\",\"k\":%d,\"t\":%d,\"p\":%d,\"a\":%d", k + 1, (int)vrt::nowMs(), plan >= 1000 ? plan - 1000 : plan, addrCode(W->net.target));
			return plan;
		};
		if (faults) net.sendFault = [](netsim::Sock* s, int op) {
			vrt::Rng& r = vrt::rng();
			if (!r.chance(1, 60)) return op == 0 && r.chance(1, 10) ? EAGAIN : 0;
			const int errs[] = {ETIMEDOUT, EPIPE, ENOBUFS, EHOSTUNREACH};
			if (!s->user) s = s->peer;
			if (s && s->user) vrt::ev("\"e\":\"px\",\"k\":%d,\"l\":%d,\"w\":\"fault\"", s->user, s->user2);
			return errs[r.below(4)];
		};
		W->names = dns;
		W->near = near;
		if (dns) { makeNames(r); W->stuck = r.chance(1, near ? 8 : 3); }
		net.start();
		{
			IOCore core;
			W->core = &core;
			W->lives = (int)r.below(3);
			std::vector<std::unique_ptr<Node>> nodes;
			for (int k = 0; k < K; ++k) {
				nodes.emplace_back(new Node(k));
				W->node[k] = nodes.back().get();
#ifdef DRV_SSL
				nodes.back()->tcp = new SSLSocket(core);
#else
				nodes.back()->tcp = new TCPSocket(core);
#endif
				nodes.back()->sock = nodes.back()->tcp;
			}
			core.Start(workers);
			for (auto& n : nodes) n->start(r);
			std::vector<int> ths;
			int pt = vrt::spawn([=]() { peers(near ? 0 : calm ? 4 : 16); });
			for (int p = 0; p < np; ++p) {
				std::vector<int> own;
				for (int k = 0; k < K; ++k) own.push_back(k);
				ths.push_back(vrt::spawn([=]() { user(own, nops); }));
			}
			for (int t : ths) vrt::join(t);
			if (r.chance(1, 2)) idle();
			W->drain = true;
			if (r.chance(2, 3)) W->stuck = false;
			vrt::sysChanged();
			if (r.chance(3, 4)) idle();
			W->closing = true;
			vrt::waitUntil([]() { return W->starting == 0; });
			for (auto& n : nodes) {
				int c = call();
				vrt::ev("\"e\":\"cc\",\"k\":%d,\"c\":%d", n->k + 1, c);
				n->dead = true;
				n->sock->Delete();
				vrt::ev("\"e\":\"cr\",\"k\":%d,\"c\":%d", n->k + 1, c);
			}
			core.WaitEmpty();
			idle();
			W->stopPeers = true;
			bool late = r.chance(1, 2);
			if (!late) W->stuck = false;
			vrt::sysChanged();
			vrt::join(pt);
			core.Stop();
			if (late) { nodes.clear(); W->stuck = false; vrt::sysChanged(); }
			if (dns) vrt::waitIdle(true);
		}
		for (Conn* c : W->conns) { if (c->fd >= 0) net.close(c->fd); delete c; }
		for (int k = 0; k < K; ++k) net.close(W->lfd[k]);
		net.finish();
		vrt::ev("\"e\":\"fds\",\"n\":%d", (int)net.fds.size());
#ifdef DRV_SSL
		rnd = nullptr;
#endif
	};
	return s;
}

int main(int argc, char** argv)
{
#ifdef DRV_SSL
	RAND_set_rand_method(&rndMethod);
	OPENSSL_init_ssl(0, nullptr);
	contexts();
#endif
	vrt::hookGetaddrinfo = resolve;
	vrt::hookFreeaddrinfo = release;
	return vrt::driverMain(argc, argv, make);
}
