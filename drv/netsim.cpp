#include "netsim.h"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>

namespace netsim {

using vrt::Quiet;

static int fail(int e) { errno = e; return -1; }

//////////////////////////////////////////////////////////////////////////////////////////
// Polling.

void Obj::wake(unsigned keys)
{
	for (Item* i : items) {
		if (((i->events | EPOLLERR | EPOLLHUP) & keys) == 0 || i->ready) continue;
		i->ready = true;
		i->ep->ready.push_back(i);
		i->ep->wake(EPOLLIN);
	}
	vrt::sysChanged();
}
unsigned Event::mask() { return (value > 0 ? EPOLLIN : 0) | EPOLLOUT; }
unsigned Epoll::mask()
{
	for (Item* i : ready) if (i->obj->mask() & (i->events | EPOLLERR | EPOLLHUP)) return EPOLLIN;
	return 0;
}
unsigned Sock::mask()
{
	unsigned m = 0;
	switch (st) {
	case LISTEN: return queue.empty() ? 0 : EPOLLIN;
	case SYN: return 0;
	case NEW: return EPOLLHUP | EPOLLOUT;
	default: break;
	}
	if ((rcvShut && sndShut) || st == DONE) m |= EPOLLHUP;
	if (rcvShut) m |= EPOLLIN | EPOLLRDHUP;
	if (!rx.empty()) m |= EPOLLIN;
	if (sndShut) m |= EPOLLOUT;
	else if (!nospace) m |= EPOLLOUT;
	if (err) m |= EPOLLERR;
	return m;
}

//////////////////////////////////////////////////////////////////////////////////////////
// Network.

Net::Net() { vrt::sys = this; }
Net::~Net() { vrt::sys = nullptr; }

void Net::start()
{
	thread = vrt::spawn([this]() {
		while (true) {
			vrt::waitUntil([this]() { Quiet q; return stop || pending(); });
			vrt::yield();
			Quiet q;
			if (stop) return;
			step(false);
		}
	});
}
void Net::finish()
{
	stop = true;
	vrt::sysChanged();
	vrt::join(thread);
}

static bool canDeliver(Sock* s)
{
	return (s->st == Sock::CONN) && (!s->wire.empty() || (s->sndShut && !s->finSent));
}
static bool canUnblock(Net& n, Sock* s)
{
	return s->st == Sock::CONN && s->nospace && s->open && s->wire.size() + s->peer->rx.size() < n.cap;
}
bool Net::pending()
{
	for (auto& o : all) {
		if (o->kind != Obj::SOCK) continue;
		Sock* s = (Sock*)o.get();
		if (canDeliver(s) || canUnblock(*this, s)) return true;
		if (s->st == Sock::SYN && s->plan >= 0) return true;
	}
	return false;
}
void Net::step(bool)
{
	std::vector<Sock*> v;
	for (auto& o : all) {
		if (o->kind != Obj::SOCK) continue;
		Sock* s = (Sock*)o.get();
		if (canDeliver(s) || canUnblock(*this, s) || (s->st == Sock::SYN && s->plan >= 0)) v.push_back(s);
	}
	if (v.empty()) return;
	vrt::Rng& g = vrt::rng();
	if (againDen && g.chance(1, againDen)) return;
	Sock* s = v[v.size() == 1 ? 0 : g.below(v.size())];
	if (s->st == Sock::SYN) { endConnect(s); return; }
	if (canUnblock(*this, s) && (!canDeliver(s) || g.chance(1, 2))) { s->nospace = false; s->wake(EPOLLOUT); return; }
	size_t n = s->wire.size();
	if (n > 1 && g.chance(1, 3)) n = 1 + g.below(n - 1);
	if (n > 0) deliver(s, n);
	else deliver(s, 0);
}

void Net::reset(Sock* s)
{
	if (s->st != Sock::CONN) return;
	s->st = Sock::DONE;
	s->wasReset = true;
	s->err = s->gotFin ? EPIPE : ECONNRESET;
	s->rcvShut = s->sndShut = true;
	s->wire.clear();
	s->wake(EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP);
}

// Give to the other side: n bytes, or the end of stream if n is 0.
void Net::deliver(Sock* a, size_t n)
{
	if (a->st != Sock::CONN) return;
	Sock* b = a->peer;
	if (n > 0) {
		if (!b->open || b->st != Sock::CONN || (b->rcvShut && b->sndShut && !b->gotFin)) {
			// Nobody is going to read it.
			a->wire.clear();
			if (b->st == Sock::CONN) {
				b->wire.clear();
				if (b->open) reset(b); else b->st = Sock::DONE;
			}
			reset(a);
			return;
		}
		for (size_t i = 0; i < n && !a->wire.empty(); ++i) { b->rx.push_back(a->wire.front()); a->wire.pop_front(); }
		b->wake(EPOLLIN);
	}
	if (a->wire.empty() && a->sndShut && !a->finSent) {
		a->finSent = true;
		b->gotFin = true;
		b->rcvShut = true;
		if (b->open) b->wake(EPOLLIN | EPOLLRDHUP | (b->sndShut ? EPOLLHUP : 0));
	}
}
void Net::deliverAll(Sock* a) { while (canDeliver(a)) deliver(a, a->wire.size()); }

void Net::established(Sock* c, Sock* l)
{
	auto s = std::make_shared<Sock>();
	s->id = ++nextId;
	all.push_back(s);
	s->st = Sock::CONN;
	s->fam = l->fam;
	s->port = l->port;
	s->peerPort = c->port;
	s->peer = c;
	s->queued = true;
	s->passive = true;
	c->peer = s.get();
	c->peerPort = l->port;
	c->st = Sock::CONN;
	l->queue.push_back(s.get());
	if (onEstablished) onEstablished(c, l);
	l->wake(EPOLLIN);
	c->wake(EPOLLOUT);
}

void Net::endConnect(Sock* c)
{
	int plan = c->plan;
	Sock* l = c->target;
	if (plan == 0 && (!l->open || l->st != Sock::LISTEN)) plan = ECONNREFUSED;
	if (plan == 0 && l->queue.size() > l->backlog) return; // later
	if (plan != 0) {
		c->st = Sock::DONE;
		c->err = plan;
		c->rcvShut = c->sndShut = true;
		c->wake(EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP);
		return;
	}
	established(c, l);
}

// Space became available for the other side.
void Net::freed(Sock* s)
{
	Sock* p = s->peer;
	if (!p || !p->nospace) return;
	if (p->wire.size() + s->rx.size() >= cap) return;
	p->nospace = false;
	p->wake(EPOLLOUT);
}

//////////////////////////////////////////////////////////////////////////////////////////
// Descriptors.

int Net::alloc(std::shared_ptr<Obj> o)
{
	for (int i = BASE; i < MAXFD; ++i)
		if (!fds.count(i)) { fds[i] = o; all.push_back(o); return i; }
	return fail(EMFILE);
}
template<typename T> T* Net::get(int fd, Obj::Kind k)
{
	auto i = fds.find(fd);
	if (i == fds.end()) { vrt::ev("\"e\":\"ebadf\""); errno = EBADF; return nullptr; }
	if (i->second->kind != k) { vrt::ev("\"e\":\"ebadf\""); errno = EINVAL; return nullptr; }
	return (T*)i->second.get();
}
Sock* Net::sock(int fd) { return get<Sock>(fd, Obj::SOCK); }
int Net::openCount(Obj::Kind k)
{
	Quiet q;
	int n = 0;
	for (auto& i : fds) n += i.second->kind == k;
	return n;
}
unsigned Net::mask(int fd)
{
	Quiet q;
	auto i = fds.find(fd);
	return i == fds.end() ? (unsigned)POLLNVAL : i->second->mask();
}

int Net::socket(int fam, int type, int)
{
	Quiet q;
	if (socketFault) { int e = socketFault; socketFault = 0; return fail(e); }
	auto s = std::make_shared<Sock>();
	s->id = ++nextId;
	s->fam = fam;
	s->nonblock = (type & SOCK_NONBLOCK) != 0;
	return alloc(s);
}
static int portOf(const sockaddr* a)
{
	return a->sa_family == AF_INET ? ntohs(((const sockaddr_in*)a)->sin_port) : ntohs(((const sockaddr_in6*)a)->sin6_port);
}
int Net::bind(int fd, const sockaddr* a, socklen_t)
{
	Quiet q;
	Sock* s = sock(fd);
	if (!s) return -1;
	if (bindFault) { int e = bindFault; bindFault = 0; return fail(e); }
	int p = portOf(a);
	if (p == 0) p = ++nextPort;
	// Connections stay in the way for long after they are closed.
	for (auto& i : all) {
		if (i->kind != Obj::SOCK) continue;
		Sock* o = (Sock*)i.get();
		if (o == s || o->port != p) continue;
		if ((o->open && o->bound && o->st <= Sock::LISTEN) || (o->passive && !s->reuse)) return fail(EADDRINUSE);
	}
	if (s->bound || s->st != Sock::NEW) return fail(EINVAL);
	s->bound = true;
	s->port = p;
	return 0;
}
int Net::listen(int fd, int n)
{
	Quiet q;
	Sock* s = sock(fd);
	if (!s) return -1;
	if (listenFault) { int e = listenFault; listenFault = 0; return fail(e); }
	if (s->st != Sock::NEW && s->st != Sock::LISTEN) return fail(EINVAL);
	s->st = Sock::LISTEN;
	s->backlog = n < 0 ? 0 : (size_t)n;
	return 0;
}
void Net::addr(sockaddr* a, socklen_t* n, int fam, int port)
{
	if (!a) return;
	sockaddr_storage st;
	memset(&st, 0, sizeof(st));
	socklen_t len;
	if (fam == AF_INET6) {
		sockaddr_in6* x = (sockaddr_in6*)&st;
		x->sin6_family = AF_INET6;
		x->sin6_port = htons(port);
		x->sin6_addr = in6addr_loopback;
		x->sin6_addr.s6_addr[4] = (uint8_t)(port >> 8);
		x->sin6_addr.s6_addr[5] = (uint8_t)port;
		len = sizeof(*x);
	} else {
		sockaddr_in* x = (sockaddr_in*)&st;
		x->sin_family = AF_INET;
		x->sin_port = htons(port);
		x->sin_addr.s_addr = htonl(0x7f000000u | (unsigned)port);
		len = sizeof(*x);
	}
	memcpy(a, &st, *n < len ? *n : len);
	*n = len;
}
int Net::accept4(int fd, sockaddr* a, socklen_t* n, int fl)
{
	Quiet q;
	Sock* s = sock(fd);
	if (!s) return -1;
	if (s->st != Sock::LISTEN) return fail(EINVAL);
	bool eats = false;
	int e = acceptPlan ? acceptPlan(s, eats) : 0;
	if (e == EAGAIN) e = 0;
	if (e != 0 && eats && !s->queue.empty()) {
		Sock* c = s->queue.front();
		s->queue.pop_front();
		c->queued = false;
		c->open = false;
		if (onEaten) onEaten(c->peer, s);
		reset(c->peer);
		c->st = Sock::DONE;
	}
	if (e != 0) return fail(e);
	if (s->queue.empty()) {
		if (!s->nonblock) vrt::ev("\"e\":\"blocked\"");
		return fail(EAGAIN);
	}
	Sock* c = s->queue.front();
	std::shared_ptr<Obj> sp;
	for (auto& o : all) if (o.get() == c) sp = o;
	int res = BASE;
	while (fds.count(res)) ++res;
	fds[res] = sp;
	s->queue.pop_front();
	c->queued = false;
	c->nonblock = (fl & SOCK_NONBLOCK) != 0;
	if (a && n) addr(a, n, c->fam, c->peerPort);
	return res;
}
int Net::connect(int fd, const sockaddr* a, socklen_t)
{
	Quiet q;
	Sock* s = sock(fd);
	if (!s) return -1;
	if (s->st == Sock::SYN) return fail(EALREADY);
	if (s->st != Sock::NEW) return fail(EISCONN);
	if (!s->nonblock) vrt::ev("\"e\":\"blocked\"");
	int p = portOf(a);
	Sock* l = nullptr;
	for (auto& i : fds) {
		if (i.second->kind != Obj::SOCK) continue;
		Sock* o = (Sock*)i.second.get();
		if (o->st == Sock::LISTEN && o->port == p) l = o;
	}
	target = a;
	int plan = connectPlan ? connectPlan(s, p) : 0;
	bool now = plan >= 1000;
	if (now) plan -= 1000;
	if (!l && plan == 0) plan = ECONNREFUSED;
	if (!s->bound) { s->bound = true; s->port = ++nextPort; }
	if (now && plan == 0 && l->queue.size() > l->backlog) now = false;
	if (now && plan != 0) return fail(plan);
	s->plan = plan;
	s->target = l;
	s->st = Sock::SYN;
	if (now) { endConnect(s); return 0; }
	vrt::sysChanged();
	return fail(EINPROGRESS);
}
static size_t total(const msghdr* m)
{
	size_t n = 0;
	for (size_t i = 0; i < m->msg_iovlen; ++i) n += m->msg_iov[i].iov_len;
	return n;
}
ssize_t Net::sendmsg(int fd, const msghdr* m, int)
{
	Quiet q;
	Sock* s = sock(fd);
	if (!s) return -1;
	vrt::Rng& g = vrt::rng();
	if (m->msg_iovlen > 1024) return fail(EMSGSIZE);
	if (sendFault && s->st == Sock::CONN && !s->sndShut && s->err == 0) {
		int e = sendFault(s, 0);
		if (e == EAGAIN) { s->nospace = true; return fail(EAGAIN); }
		if (e) {
			// The connection dies.
			if (s->peer->open) reset(s->peer); else s->peer->st = Sock::DONE;
			reset(s);
			s->err = e;
		}
	}
	if (s->err) { int e = s->err; s->err = 0; return fail(e); }
	if (s->sndShut || s->st == Sock::NEW || s->st == Sock::DONE) return fail(EPIPE);
	if (s->st == Sock::SYN) return fail(EAGAIN);
	if (s->st != Sock::CONN) return fail(EINVAL);
	size_t want = total(m);
	if (want == 0) return 0;
	size_t used = s->wire.size() + s->peer->rx.size();
	if (used >= cap || s->nospace) {
		if (used >= cap) s->nospace = true;
		else s->nospace = false;
	}
	if (s->nospace) {
		if (!s->nonblock) vrt::ev("\"e\":\"blocked\"");
		return fail(EAGAIN);
	}
	size_t n = want;
	if (n > cap - used) n = cap - used;
	if (cutDen && n > 1 && g.chance(1, cutDen)) n = 1 + g.below(n - 1);
	size_t left = n;
	s->sent += n;
	for (size_t i = 0; i < m->msg_iovlen && left > 0; ++i) {
		size_t k = m->msg_iov[i].iov_len < left ? m->msg_iov[i].iov_len : left;
		const uint8_t* b = (const uint8_t*)m->msg_iov[i].iov_base;
		for (size_t j = 0; j < k; ++j) { if (j == 0 || j == k - 1) { if (vrt::isFreed(b + j)) vrt::ev("\"e\":\"uaf\",\"w\":\"send\""); } s->wire.push_back(b[j]); }
		left -= k;
	}
	if (n < want) s->nospace = used + n >= cap;
	if (!g.chance(1, lazyDen)) deliverAll(s);
	vrt::sysChanged();
	return (ssize_t)n;
}
ssize_t Net::recvmsg(int fd, msghdr* m, int)
{
	Quiet q;
	Sock* s = sock(fd);
	if (!s) return -1;
	vrt::Rng& g = vrt::rng();
	size_t want = total(m);
	if (sendFault && s->st == Sock::CONN && s->err == 0 && s->rx.empty() && !s->gotFin) {
		int e = sendFault(s, 1);
		if (e && e != EAGAIN) {
			if (s->peer->open) reset(s->peer); else s->peer->st = Sock::DONE;
			reset(s);
			s->err = e;
		}
	}
	if (s->st == Sock::NEW || s->st == Sock::LISTEN) return fail(ENOTCONN);
	if (want == 0) return 0;
	if (!s->rx.empty()) {
		size_t n = want < s->rx.size() ? want : s->rx.size();
		if (cutDen && n > 1 && g.chance(1, cutDen)) n = 1 + g.below(n - 1);
		size_t left = n;
		for (size_t i = 0; i < m->msg_iovlen && left > 0; ++i) {
			size_t k = m->msg_iov[i].iov_len < left ? m->msg_iov[i].iov_len : left;
			uint8_t* b = (uint8_t*)m->msg_iov[i].iov_base;
			if (vrt::isFreed(b) || vrt::isFreed(b + k - 1)) vrt::ev("\"e\":\"uaf\",\"w\":\"recv\"");
			for (size_t j = 0; j < k; ++j) { b[j] = s->rx.front(); s->rx.pop_front(); }
			left -= k;
		}
		freed(s);
		return (ssize_t)n;
	}
	if (s->gotFin) {
		if (onEof && !s->wasReset) onEof(s);
		return 0;
	}
	if (s->err) { int e = s->err; s->err = 0; return fail(e); }
	if (s->rcvShut) return 0;
	if (s->st == Sock::DONE) return fail(ENOTCONN);
	if (!s->nonblock) vrt::ev("\"e\":\"blocked\"");
	return fail(EAGAIN);
}
int Net::shutdown(int fd, int how)
{
	Quiet q;
	Sock* s = sock(fd);
	if (!s) return -1;
	if (s->st == Sock::LISTEN || s->st == Sock::SYN || s->st == Sock::NEW || s->st == Sock::DONE) {
		if (s->st == Sock::SYN) {
			s->st = Sock::DONE;
			s->rcvShut = s->sndShut = true;
			s->wake(EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP);
		}
		return fail(ENOTCONN);
	}
	if (how != SHUT_RD) s->sndShut = true;
	if (how != SHUT_WR) s->rcvShut = true;
	s->wake(EPOLLIN | EPOLLOUT | EPOLLRDHUP | EPOLLHUP);
	if (!vrt::rng().chance(1, lazyDen)) deliverAll(s);
	return 0;
}
int Net::close(int fd)
{
	Quiet q;
	auto it = fds.find(fd);
	if (it == fds.end()) { vrt::ev("\"e\":\"ebadf\""); return fail(EBADF); }
	std::shared_ptr<Obj> o = it->second;
	fds.erase(it);
	o->open = false;
	while (!o->items.empty()) {
		Item* i = o->items.front();
		o->items.pop_front();
		if (i->ready) i->ep->ready.remove(i);
		i->ep->regs.remove_if([i](const Item& x) { return &x == i; });
	}
	if (o->kind == Obj::EPOLL) {
		Epoll* e = (Epoll*)o.get();
		for (auto& r : e->regs) r.obj->items.remove(&r);
		e->regs.clear();
		e->ready.clear();
	} else if (o->kind == Obj::SOCK) {
		Sock* s = (Sock*)o.get();
		if (s->st == Sock::LISTEN) {
			for (Sock* c : s->queue) { c->open = false; c->st = Sock::DONE; reset(c->peer); }
			s->queue.clear();
		} else if (s->st == Sock::CONN) {
			if (!s->rx.empty()) {
				s->st = Sock::DONE;
				s->wire.clear();
				if (s->peer->open || s->peer->queued) reset(s->peer); else s->peer->st = Sock::DONE;
			} else {
				s->sndShut = true;
				if (!vrt::rng().chance(1, lazyDen)) deliverAll(s);
			}
		}
		if (s->st == Sock::SYN || s->st == Sock::NEW || s->st == Sock::LISTEN) s->st = Sock::DONE;
	}
	vrt::sysChanged();
	return 0;
}
void Net::abortConn(int fd)
{
	Quiet q;
	Sock* s = sock(fd);
	if (!s) return;
	if (s->st == Sock::CONN) {
		s->st = Sock::DONE;
		s->wire.clear();
		if (s->peer->open || s->peer->queued) reset(s->peer); else s->peer->st = Sock::DONE;
	}
	close(fd);
}
int Net::getsockopt(int fd, int a, int b, void* v, socklen_t* n)
{
	Quiet q;
	Sock* s = sock(fd);
	if (!s) return -1;
	int x = 0;
	if (a == SOL_SOCKET && b == SO_ERROR) { x = s->err; s->err = 0; }
	else if (a == IPPROTO_TCP && b == TCP_NODELAY) x = s->nodelay;
	else if (a == SOL_SOCKET && b == SO_KEEPALIVE) x = s->keepalive;
	memcpy(v, &x, sizeof(x));
	*n = sizeof(x);
	return 0;
}
int Net::setsockopt(int fd, int a, int b, const void* v, socklen_t)
{
	Quiet q;
	Sock* s = sock(fd);
	if (!s) return -1;
	if (a == IPPROTO_TCP && b == TCP_NODELAY) s->nodelay = *(const int*)v;
	if (a == SOL_SOCKET && b == SO_KEEPALIVE) s->keepalive = *(const int*)v;
	if (a == SOL_SOCKET && b == SO_REUSEADDR) s->reuse = *(const int*)v != 0;
	return 0;
}
int Net::getsockname(int fd, sockaddr* a, socklen_t* n)
{
	Quiet q;
	Sock* s = sock(fd);
	if (!s) return -1;
	addr(a, n, s->fam, s->port);
	return 0;
}
int Net::getpeername(int fd, sockaddr* a, socklen_t* n)
{
	Quiet q;
	Sock* s = sock(fd);
	if (!s) return -1;
	if (s->st != Sock::CONN) return fail(ENOTCONN);
	addr(a, n, s->fam, s->peerPort);
	return 0;
}
int Net::fcntl(int fd, int op, long arg)
{
	Quiet q;
	auto i = fds.find(fd);
	if (i == fds.end()) { vrt::ev("\"e\":\"ebadf\""); return fail(EBADF); }
	if (op == F_GETFL) return i->second->nonblock ? O_NONBLOCK : 0;
	if (op == F_SETFL) { i->second->nonblock = (arg & O_NONBLOCK) != 0; return 0; }
	return 0;
}
int Net::eventfd(unsigned v, int fl)
{
	Quiet q;
	auto e = std::make_shared<Event>();
	e->value = v;
	e->nonblock = (fl & EFD_NONBLOCK) != 0;
	return alloc(e);
}
ssize_t Net::read(int fd, void* b, size_t n)
{
	Quiet q;
	Event* e = get<Event>(fd, Obj::EVENT);
	if (!e) return -1;
	if (n < 8) return fail(EINVAL);
	if (e->value == 0) {
		if (!e->nonblock) vrt::ev("\"e\":\"blocked\"");
		return fail(EAGAIN);
	}
	memcpy(b, &e->value, 8);
	e->value = 0;
	e->wake(EPOLLOUT);
	return 8;
}
ssize_t Net::write(int fd, const void* b, size_t n)
{
	Quiet q;
	Event* e = get<Event>(fd, Obj::EVENT);
	if (!e) return -1;
	if (n < 8) return fail(EINVAL);
	uint64_t v;
	memcpy(&v, b, 8);
	e->value += v;
	e->wake(EPOLLIN);
	return 8;
}
int Net::epollCreate()
{
	Quiet q;
	return alloc(std::make_shared<Epoll>());
}
int Net::epollCtl(int ep, int op, int fd, void* evp)
{
	Quiet q;
	Epoll* e = get<Epoll>(ep, Obj::EPOLL);
	if (!e) return -1;
	auto f = fds.find(fd);
	if (f == fds.end()) { vrt::ev("\"e\":\"ebadf\""); return fail(EBADF); }
	Obj* o = f->second.get();
	Item* it = nullptr;
	for (auto& r : e->regs) if (r.fd == fd && r.obj == o) it = &r;
	if (op == EPOLL_CTL_DEL) {
		if (!it) return fail(ENOENT);
		if (it->ready) e->ready.remove(it);
		o->items.remove(it);
		e->regs.remove_if([it](const Item& x) { return &x == it; });
		return 0;
	}
	epoll_event* ev = (epoll_event*)evp;
	if (op == EPOLL_CTL_ADD) {
		if (it) return fail(EEXIST);
		e->regs.push_back(Item{e, o, fd, 0, 0});
		it = &e->regs.back();
		o->items.push_back(it);
	} else if (!it) return fail(ENOENT);
	it->events = ev->events;
	it->data = ev->data.u64;
	unsigned m = o->mask() & (it->events | EPOLLERR | EPOLLHUP);
	if (m && !it->ready) { it->ready = true; e->ready.push_back(it); e->wake(EPOLLIN); }
	vrt::sysChanged();
	return 0;
}
int Net::epollWait(int ep, void* evs, int n)
{
	Quiet q;
	Epoll* e = get<Epoll>(ep, Obj::EPOLL);
	if (!e) return -1;
	epoll_event* out = (epoll_event*)evs;
	int k = 0;
	std::list<Item*> again;
	while (!e->ready.empty() && k < n) {
		Item* i = e->ready.front();
		e->ready.pop_front();
		i->ready = false;
		unsigned m = i->obj->mask() & (i->events | EPOLLERR | EPOLLHUP);
		if (!m) continue;
		out[k].events = m;
		out[k].data.u64 = i->data;
		++k;
		if (!(i->events & EPOLLET)) again.push_back(i);
	}
	for (Item* i : again) { i->ready = true; e->ready.push_back(i); }
	return k;
}

}
