// Driver of domain resolution. The resolver's thread never ends, hence every run has its own
// process. Time moves only in the resolver and when all the threads are blocked. Events: see
// spec/net/DnsTrace.tla.
#include "vrt.h"
#include "mg/net/DomainToIP.h"
#include <arpa/inet.h>
#include <atomic>
#include <cstring>
#include <memory>
#include <netdb.h>

using namespace mg::net;
using namespace mg::box;

// What the names resolve to.
struct Name {
	std::string text;
	int rc = 0;              // of getaddrinfo
	int err = 0;             // errno if it is EAI_SYSTEM
	std::vector<int> addrs;  // > 0 IPv4, < 0 IPv6, 0 something else
	int cost = 0;            // how long it takes
};
static std::vector<Name> names;

static addrinfo* makeInfo(int a)
{
	addrinfo* r = (addrinfo*)calloc(1, sizeof(addrinfo));
	r->ai_family = a == 0 ? AF_UNIX : a > 0 ? AF_INET : AF_INET6;
	sockaddr_storage* s = (sockaddr_storage*)calloc(1, sizeof(sockaddr_storage));
	s->ss_family = r->ai_family;
	if (a > 0) { ((sockaddr_in*)s)->sin_addr.s_addr = htonl(0x0a000000u + a); r->ai_addrlen = sizeof(sockaddr_in); }
	if (a < 0) { ((sockaddr_in6*)s)->sin6_addr.s6_addr[0] = 0xfd; ((sockaddr_in6*)s)->sin6_addr.s6_addr[15] = (uint8_t)-a; r->ai_addrlen = sizeof(sockaddr_in6); }
	r->ai_addr = (sockaddr*)s;
	return r;
}
static int addrOf(const Host& h)
{
	if (h.IsIPV4()) return (int)(ntohl(h.myAddrIn.sin_addr.s_addr) - 0x0a000000u);
	if (h.IsIPV6()) return h.myAddrIn6.sin6_addr.s6_addr[0] == 0xfd ? -(int)h.myAddrIn6.sin6_addr.s6_addr[15] : 99;
	return 0;
}
static int infos = 0;
static int nameOf(const char* n)
{
	for (size_t i = 0; i < names.size(); ++i) if (names[i].text == n) return (int)i + 1;
	return 0;
}
static int resolve(const char* n, const char*, const addrinfo*, addrinfo** out)
{
	int id = nameOf(n);
	vrt::ev("\"e\":\"rs\",\"nm\":%d,\"t\":%d", id, (int)vrt::nowMs());
	if (id == 0) return EAI_NONAME;
	const Name& x = names[id - 1];
	vrt::yield();
	if (x.cost) vrt::advanceMs(x.cost);
	vrt::yield();
	addrinfo* head = nullptr;
	for (size_t i = x.addrs.size(); i-- > 0;) {
		addrinfo* a = makeInfo(x.addrs[i]);
		a->ai_next = head;
		head = a;
	}
	if (head) ++infos;
	*out = head;
	if (x.rc == EAI_SYSTEM) errno = x.err;
	return x.rc;
}
static void release(addrinfo* a)
{
	if (a) --infos;
	while (a) {
		addrinfo* n = a->ai_next;
		free(a->ai_addr);
		free(a);
		a = n;
	}
}

struct World;
struct Req { DomainToIPRequest r; int k = 0; bool cancelled = false; };
struct World {
	int nReq = 0;
	int limit = 0;
	std::vector<std::vector<Req*>> inner; // requests made by callbacks: [k] are owned by the resolver's thread
};
static World* W;

static void request(Req& q, vrt::Rng& r, int depth);

static void cancel(Req& q)
{
	vrt::ev("\"e\":\"ca\",\"k\":%d", q.k);
	DomainToIPCancel(q.r);
	vrt::ev("\"e\":\"cr\",\"k\":%d", q.k);
	q.k = 0;
}
static void drop(Req& q)
{
	q.r = DomainToIPRequest();
	q.k = 0;
}

static std::string text(const std::vector<int>& v)
{
	std::string s = "[";
	for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
	return s + "]";
}

static void answered(int k, const char* dom, const std::vector<DomainEndpoint>& eps, Error* err)
{
	std::vector<int> a;
	for (auto& e : eps) a.push_back(addrOf(e.myHost));
	const char* res = err == nullptr ? "ok" : err->myCode == ERR_BOX_CANCEL ? "cancel" : err->myCode == ERR_BOX_TIMEOUT ? "timeout" : "err";
	vrt::ev("\"e\":\"cb\",\"k\":%d,\"nm\":%d,\"r\":\"%s\",\"a\":%s,\"t\":%d", k, nameOf(dom), res, text(a).c_str(), (int)vrt::nowMs());
}

static TimeLimit limitOf(int lim)
{
	if (lim < 0) return TimeDuration(MG_TIME_INFINITE);
	return TimeDuration(lim);
}

static int pickLimit(vrt::Rng& r)
{
	static const int v[] = {-1, -1, 0, 1, 5, 10, 10, 50, 1000000};
	return v[r.below(9)];
}

static std::atomic<int> totalReq{0};
static void request(Req& q, vrt::Rng& r, int depth)
{
	if (totalReq >= 24) return;
	int k = ++totalReq;
	int lim = pickLimit(r), nm = (int)r.below(names.size());
	vrt::ev("\"e\":\"rq\",\"k\":%d,\"nm\":%d,\"lim\":%d,\"t\":%d", k, nm + 1, lim, (int)vrt::nowMs());
	q.k = k;
	uint64_t what = r.below(8);
	DomainToIPAsync(q.r, names[nm].text.c_str(), limitOf(lim), [k, depth, what](const char* dom, const std::vector<DomainEndpoint>& eps, Error* err) {
		answered(k, dom, eps, err);
		if (depth >= 2) return;
		vrt::Rng& cr = vrt::rng();
		static std::vector<std::unique_ptr<Req>> mine;
		if (what == 0) {
			// A request from a callback.
			mine.emplace_back(new Req());
			request(*mine.back(), cr, depth + 1);
		} else if (what == 1 && !mine.empty()) {
			Req& x = *mine[cr.below(mine.size())];
			if (x.k != 0) { if (cr.chance(1, 2)) cancel(x); else drop(x); }
		}
		vrt::yield();
	});
	vrt::ev("\"e\":\"rr\",\"k\":%d", k);
}

static void blocking(vrt::Rng& r)
{
	if (totalReq >= 24) return;
	int k = ++totalReq;
	int lim = pickLimit(r), nm = (int)r.below(names.size());
	std::vector<DomainEndpoint> eps;
	Error::Ptr err;
	vrt::ev("\"e\":\"rq\",\"k\":%d,\"nm\":%d,\"lim\":%d,\"t\":%d", k, nm + 1, lim, (int)vrt::nowMs());
	bool ok = DomainToIPBlocking(names[nm].text, limitOf(lim), eps, err);
	std::vector<int> a;
	for (auto& e : eps) a.push_back(addrOf(e.myHost));
	Error* e = err.GetPointer();
	const char* res = e == nullptr ? "ok" : e->myCode == ERR_BOX_CANCEL ? "cancel" : e->myCode == ERR_BOX_TIMEOUT ? "timeout" : "err";
	vrt::ev("\"e\":\"bl\",\"k\":%d,\"ok\":%d,\"r\":\"%s\",\"a\":%s,\"t\":%d", k, (int)ok, res, text(a).c_str(), (int)vrt::nowMs());
}

static void client(uint64_t seed, int nops)
{
	vrt::Rng r(seed);
	std::vector<std::unique_ptr<Req>> qs;
	int nq = r.range(1, 6);
	for (int i = 0; i < nq; ++i) qs.emplace_back(new Req());
	for (int i = 0; i < nops; ++i) {
		Req& q = *qs[r.below(nq)];
		uint64_t z = r.below(16);
		// Over an old one drops the latter.
		if (z < 7) request(q, r, 0);
		else if (z < 10) { if (q.k != 0) cancel(q); }
		else if (z == 10) drop(q);
		else if (z == 11) {
			Req& o = *qs[r.below(nq)];
			if (&o != &q) { o.r = std::move(q.r); o.k = q.k; q.k = 0; }
		}
		else if (z == 12 && r.chance(1, 2)) blocking(r);
		else if (z == 13) vrt::stall();
		else vrt::yield();
	}
	if (r.chance(1, 2)) vrt::stall();
}

static vrt::Scenario make(uint64_t seed, const std::vector<std::string>&)
{
	vrt::Rng g(seed * 43 + 7);
	vrt::Scenario s;
	std::vector<Name> ns;
	int nn = g.range(1, 5);
	s.cfgJson = "{\"names\":[";
	for (int i = 0; i < nn; ++i) {
		Name n;
		n.text = g.chance(1, 6) ? std::string(g.range(20, 300), 'a' + i) : "name" + std::to_string(i);
		switch (g.range(0, 9)) {
		case 0: n.rc = EAI_NONAME; break;
		case 1: n.rc = EAI_SYSTEM; n.err = g.chance(1, 2) ? ENFILE : EACCES; break;
		case 2: break;  // nothing
		case 3: n.rc = EAI_AGAIN; n.addrs = {1}; break;
		default:
			for (int k = g.range(1, 5); k > 0; --k) n.addrs.push_back(g.range(-3, 3));
		}
		n.cost = g.chance(1, 3) ? g.range(1, 12) : 0;
		s.cfgJson += std::string(i ? "," : "") + "{\"rc\":" + std::to_string(n.rc) + ",\"a\":" + text(n.addrs) + "}";
		ns.push_back(n);
	}
	s.cfgJson += "]}";
	int nt = g.range(0, 3);
	std::vector<int> ops;
	for (int i = 0; i <= nt; ++i) ops.push_back(g.range(1, 10));
	s.cfg.forked = true;
	s.body = [=]() {
		names = ns;
		totalReq = 0;
		{
			// The resolver is created by the first user.
			vrt::Rng r(seed * 3);
			Req q;
			request(q, r, 0);
			vrt::waitIdle(false);
			std::vector<int> ts;
			for (int i = 1; i <= nt; ++i) ts.push_back(vrt::spawn([=]() { client(seed * 100 + i, ops[i]); }));
			client(seed * 100, ops[0]);
			for (int t : ts) vrt::join(t);
			vrt::waitIdle(false);
			vrt::ev("\"e\":\"idle\",\"inf\":%d", infos);
		}
		vrt::ev("\"e\":\"end\"");
	};
	return s;
}

int main(int argc, char** argv)
{
	vrt::hookGetaddrinfo = resolve;
	vrt::hookFreeaddrinfo = release;
	return vrt::driverMain(argc, argv, make);
}
