#include "uringsim.h"
#include "vrt.h"
#include <liburing.h>
#include <cerrno>
#include <cstring>
#include <list>
#include <map>
#include <sys/eventfd.h>
#include <unistd.h>
#include <vector>

namespace uringsim {

struct Op { io_uring_sqe sqe; int started = 0; };
struct Ring {
	std::vector<io_uring_sqe> sq;
	unsigned sqHead = 0, sqTail = 0; // Head - what the kernel took, tail - not used.
	std::vector<io_uring_cqe> cq;
	unsigned cqTail = 0;
	unsigned khead = 0;
	int eventFd = -1;
	std::list<Op> ops;
	bool stop = false;
	int thread = -1;
};
static std::map<io_uring*, Ring*> rings;
int cutDen = 0;
std::function<bool(int, int, int&)> hook;

int pendingOf(const void* u)
{
	vrt::Quiet q;
	int n = 0;
	for (auto& r : rings) for (auto& o : r.second->ops) n += o.sqe.user_data == (uint64_t)u;
	return n;
}
int pendingAll()
{
	int n = 0;
	for (auto& r : rings) n += (int)r.second->ops.size();
	return n;
}
void reset() { cutDen = 0; hook = nullptr; }

static bool pollFd(int fd, short ev)
{
	if (vrt::sys && vrt::sys->owns(fd)) return (vrt::sys->mask(fd) & (unsigned)(ev | POLLERR | POLLHUP)) != 0;
	pollfd p;
	p.fd = fd;
	p.events = ev;
	p.revents = 0;
	return vrt::realPoll(&p, 1, 0) > 0;
}

static bool ready(Op& o)
{
	switch (o.sqe.opcode) {
	case IORING_OP_RECVMSG: case IORING_OP_ACCEPT: case IORING_OP_READ: return pollFd(o.sqe.fd, POLLIN);
	case IORING_OP_SENDMSG: return pollFd(o.sqe.fd, POLLOUT);
	case IORING_OP_CONNECT: return o.started == 0 || pollFd(o.sqe.fd, POLLOUT);
	default: return true;
	}
}

static void complete(Ring& r, uint64_t data, int res)
{
	io_uring_cqe c;
	memset(&c, 0, sizeof(c));
	c.user_data = data;
	c.res = res;
	if (r.cqTail - r.khead >= r.cq.size()) abort();
	r.cq[r.cqTail++ % r.cq.size()] = c;
	uint64_t one = 1;
	if (r.eventFd >= 0) { ssize_t rc = write(r.eventFd, &one, sizeof(one)); (void)rc; }
}

// Returns false if it must wait.
static bool execute(Ring& r, std::list<Op>::iterator it)
{
	Op& o = *it;
	int res = 0;
	vrt::Rng& g = vrt::rng();
	if (hook && hook(o.sqe.opcode, o.sqe.fd, res)) { complete(r, o.sqe.user_data, res); r.ops.erase(it); return true; }
	switch (o.sqe.opcode) {
	case IORING_OP_READ: res = (int)::read(o.sqe.fd, (void*)o.sqe.addr, o.sqe.len); break;
	case IORING_OP_RECVMSG: case IORING_OP_SENDMSG: {
		msghdr m = *(msghdr*)o.sqe.addr;
		iovec v[128];
		size_t n = m.msg_iovlen, sum = 0;
		if (n > 128) n = 128;
		memcpy(v, m.msg_iov, n * sizeof(iovec));
		for (size_t i = 0; i < n; ++i) sum += v[i].iov_len;
		if (cutDen && sum > 1 && g.chance(1, cutDen)) {
			size_t left = 1 + g.below(sum - 1);
			for (size_t i = 0; i < n; ++i) {
				if (v[i].iov_len >= left) { v[i].iov_len = left; n = i + 1; break; }
				left -= v[i].iov_len;
			}
		}
		m.msg_iov = v;
		m.msg_iovlen = n;
		if (vrt::sys) res = o.sqe.opcode == IORING_OP_RECVMSG ? (int)vrt::sys->recvmsg(o.sqe.fd, &m, MSG_DONTWAIT) :
			(int)vrt::sys->sendmsg(o.sqe.fd, &m, MSG_DONTWAIT | MSG_NOSIGNAL);
		else res = o.sqe.opcode == IORING_OP_RECVMSG ? (int)vrt::realRecvmsg(o.sqe.fd, &m, MSG_DONTWAIT) :
			(int)vrt::realSendmsg(o.sqe.fd, &m, MSG_DONTWAIT | MSG_NOSIGNAL);
		break;
	}
	case IORING_OP_ACCEPT: res = vrt::sys ? vrt::sys->accept4(o.sqe.fd, (sockaddr*)o.sqe.addr, (socklen_t*)o.sqe.addr2, o.sqe.accept_flags) :
		vrt::realAccept4(o.sqe.fd, (sockaddr*)o.sqe.addr, (socklen_t*)o.sqe.addr2, o.sqe.accept_flags); break;
	case IORING_OP_CONNECT:
		if (o.started == 0) {
			o.started = 1;
			res = vrt::sys ? vrt::sys->connect(o.sqe.fd, (const sockaddr*)o.sqe.addr, (socklen_t)o.sqe.off) :
				vrt::realConnect(o.sqe.fd, (const sockaddr*)o.sqe.addr, (socklen_t)o.sqe.off);
			if (res < 0 && errno == EINPROGRESS) return false;
		} else {
			int e = 0;
			socklen_t l = sizeof(e);
			getsockopt(o.sqe.fd, SOL_SOCKET, SO_ERROR, &e, &l);
			res = e == 0 ? 0 : -1;
			errno = e;
		}
		break;
	case IORING_OP_ASYNC_CANCEL: {
		// By the descriptor, all of them. Some may be too late to be cancelled: they go on.
		int found = 0, late = 0;
		for (auto i = r.ops.begin(); i != r.ops.end();) {
			if (i != it && i->sqe.opcode != IORING_OP_ASYNC_CANCEL && i->sqe.fd == o.sqe.fd) {
				++found;
				complete(r, i->sqe.user_data, g.chance(1, 8) ? -EINTR : -ECANCELED);
				i = r.ops.erase(i);
			} else ++i;
		}
		(void)late;
		res = found > 0 ? found : -1;
		errno = ENOENT;
		break;
	}
	default: abort();
	}
	if (res < 0) {
		if (errno == EAGAIN || errno == EWOULDBLOCK) return false;
		res = -errno;
	}
	complete(r, o.sqe.user_data, res);
	r.ops.erase(it);
	return true;
}

static void kernel(Ring* r)
{
	while (true) {
		vrt::waitUntil([r]() {
			vrt::Quiet q;
			if (r->stop) return true;
			for (auto& o : r->ops) if (ready(o)) return true;
			return false;
		});
		vrt::yield();
		vrt::Quiet q;
		if (r->stop) return;
		std::vector<std::list<Op>::iterator> v;
		for (auto i = r->ops.begin(); i != r->ops.end(); ++i) if (ready(*i)) v.push_back(i);
		if (v.empty()) continue;
		size_t at = v.size() == 1 ? 0 : vrt::rng().below(v.size());
		execute(*r, v[at]);
	}
}

}

using namespace uringsim;

extern "C" {

int io_uring_queue_init_params(unsigned n, io_uring* ring, io_uring_params* p)
{
	vrt::Quiet q;
	memset(ring, 0, sizeof(*ring));
	Ring* r = new Ring();
	r->sq.resize(n);
	r->cq.resize(2 * n);
	ring->ring_fd = 1000000;
	ring->cq.khead = &r->khead;
	// io_uring_get_sqe() is an inline, it works with the fields.
	ring->sq.khead = &r->sqHead;
	ring->sq.ktail = &r->sqTail;
	ring->sq.sqes = r->sq.data();
	ring->sq.ring_entries = n;
	ring->sq.ring_mask = n - 1;
	p->features = IORING_FEAT_NODROP;
	rings[ring] = r;
	r->thread = vrt::spawn([r]() { kernel(r); });
	return 0;
}
int io_uring_register_eventfd(io_uring* ring, int fd) { rings[ring]->eventFd = fd; return 0; }
int io_uring_unregister_eventfd(io_uring* ring) { rings[ring]->eventFd = -1; return 0; }
void io_uring_queue_exit(io_uring* ring)
{
	Ring* r = rings[ring];
	r->stop = true;
	vrt::join(r->thread);
	vrt::Quiet q;
	rings.erase(ring);
	if (rings.empty()) { std::map<io_uring*, Ring*>().swap(rings); }
	delete r;
}
int io_uring_submit(io_uring* ring)
{
	vrt::yield();
	vrt::Quiet q;
	Ring* r = rings[ring];
	int n = 0;
	while (r->sqHead != ring->sq.sqe_tail) {
		Op o;
		o.sqe = r->sq[r->sqHead++ % r->sq.size()];
		r->ops.push_back(o);
		++n;
	}
	// The kernel tries at once.
	if (vrt::rng().chance(1, 2))
		for (auto i = r->ops.begin(); i != r->ops.end();) {
			auto x = i++;
			if (x->sqe.opcode != IORING_OP_ASYNC_CANCEL && vrt::rng().chance(3, 4) && ready(*x)) execute(*r, x);
		}
	return n;
}
unsigned io_uring_peek_batch_cqe(io_uring* ring, io_uring_cqe** out, unsigned n)
{
	vrt::yield();
	vrt::Quiet q;
	Ring* r = rings[ring];
	unsigned k = 0;
	for (unsigned i = r->khead; i != r->cqTail && k < n; ++i) out[k++] = &r->cq[i % r->cq.size()];
	return k;
}

}
