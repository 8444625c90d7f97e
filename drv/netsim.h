// A stand-in for the kernel's descriptors: TCP over a network inside of the process, epoll and
// eventfd. The network delivers bytes, connections and failures at any time, in pieces of any
// size, as the run's random stream tells.
#pragma once
#include "vrt.h"
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <vector>

namespace netsim {

enum { BASE = 1000, MAXFD = 1200 };
struct Epoll;
struct Obj;
struct Item { Epoll* ep; Obj* obj; int fd; unsigned events; uint64_t data; bool ready = false; };
struct Obj {
	enum Kind { EVENT, EPOLL, SOCK } kind;
	std::list<Item*> items;
	bool nonblock = false;
	bool open = true;
	Obj(Kind k) : kind(k) {}
	virtual ~Obj() {}
	virtual unsigned mask() = 0;
	void wake(unsigned keys);
};
struct Event : Obj { uint64_t value = 0; Event() : Obj(EVENT) {} unsigned mask() override; };
struct Epoll : Obj {
	std::list<Item> regs;
	std::list<Item*> ready;
	Epoll() : Obj(EPOLL) {}
	unsigned mask() override;
};
struct Sock : Obj {
	enum St { NEW, LISTEN, SYN, CONN, DONE } st = NEW;
	int id = 0, fam = 0, port = 0, peerPort = 0;
	bool bound = false;
	Sock* peer = nullptr;
	std::deque<uint8_t> wire, rx;   // sent and not delivered; delivered and not read
	bool rcvShut = false, sndShut = false, finSent = false, gotFin = false;
	bool nospace = false;
	bool reuse = false;
	bool passive = false;           // came from a listening one
	bool wasReset = false;
	int err = 0;
	int nodelay = 0, keepalive = 0;
	size_t backlog = 0;
	std::deque<Sock*> queue;        // of a listening one
	bool queued = false;            // waits for accept
	Sock* target = nullptr;         // being connected
	int user = 0, user2 = 0;        // for the driver
	uint64_t sent = 0;              // bytes taken for sending
	int plan = 0;                   // how a connect ends: 0 - well, an errno, -1 - never
	Sock() : Obj(SOCK) {}
	unsigned mask() override;
};

struct Net : vrt::Sys {
	std::map<int, std::shared_ptr<Obj>> fds;
	std::vector<std::shared_ptr<Obj>> all;
	int nextPort = 40000, nextId = 0;
	bool stop = false;
	int thread = -1;

	// Behaviour.
	size_t cap = 64;          // bytes under way in one direction
	int cutDen = 0;           // 1/cutDen - chance of a partial transfer
	int lazyDen = 2;          // 1/lazyDen - chance of a late delivery
	int againDen = 0;         // 1/againDen - a delivery is delayed even more
	const sockaddr* target = nullptr; // of the connect being planned
	std::function<int(Sock*, int port)> connectPlan;  // 0 - ok; errno - fails; -1 hangs; +1000 - at once (also with an errno)
	std::function<int(Sock*, bool& eats)> acceptPlan; // errno
	std::function<void(Sock*)> onEof;                // the end of the stream was read
	std::function<int(Sock*, int op)> sendFault;   // errno, op: 0 - send, 1 - recv
	std::function<void(Sock* c, Sock* l)> onEstablished;
	std::function<void(Sock* c, Sock* l)> onEaten; // accept() failed and dropped it
	int socketFault = 0;      // the next socket() fails with it
	int bindFault = 0, listenFault = 0;

	Net();
	~Net() override;
	void start();
	void finish();
	int openCount(Obj::Kind k);
	Sock* sock(int fd);
	bool pending();
	void step(bool all);       // the network does something
	void reset(Sock* s);
	void established(Sock* c, Sock* l);
	void deliver(Sock* a, size_t n);
	void deliverAll(Sock* a);
	void endConnect(Sock* c);
	static void addr(sockaddr* a, socklen_t* n, int fam, int port);
	void abortConn(int fd);   // RST from the owner of the descriptor, which is closed

	bool owns(int fd) override { return fd >= BASE && fd < MAXFD; }
	unsigned mask(int fd) override;
	int socket(int, int, int) override;
	int bind(int, const sockaddr*, socklen_t) override;
	int listen(int, int) override;
	int accept4(int, sockaddr*, socklen_t*, int) override;
	int connect(int, const sockaddr*, socklen_t) override;
	ssize_t sendmsg(int, const msghdr*, int) override;
	ssize_t recvmsg(int, msghdr*, int) override;
	int shutdown(int, int) override;
	int close(int) override;
	int getsockopt(int, int, int, void*, socklen_t*) override;
	int setsockopt(int, int, int, const void*, socklen_t) override;
	int getsockname(int, sockaddr*, socklen_t*) override;
	int getpeername(int, sockaddr*, socklen_t*) override;
	int fcntl(int, int, long) override;
	int eventfd(unsigned, int) override;
	ssize_t read(int, void*, size_t) override;
	ssize_t write(int, const void*, size_t) override;
	int epollCreate() override;
	int epollCtl(int, int, int, void*) override;
	int epollWait(int, void*, int) override;
private:
	int alloc(std::shared_ptr<Obj> o);
	template<typename T> T* get(int fd, Obj::Kind k);
	void freed(Sock* s);
};

}
