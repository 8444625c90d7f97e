// Driver of the thread-safe objects of mg/box. The first argument selects the object; the
// events are described in spec/box/*Trace.tla.
#include "vrt.h"
#include "mg/box/InterruptibleMutex.h"
#include "mg/box/MultiConsumerQueue.h"
#include "mg/box/MultiProducerQueueIntrusive.h"
#include "mg/box/SharedPtr.h"
#include "mg/box/Signal.h"
#include "mg/box/Thread.h"
#include "mg/box/ThreadLocalPool.h"
#include <cstring>
#include <memory>
#include <vector>

using vrt::Rng;
using mg::box::TimeDuration;
using mg::box::TimeLimit;
typedef std::vector<int> Ints;
static int self() { return vrt::self(); }
static long long now() { return (long long)vrt::nowMs(); }
static void ce(const char* op, long long x = 0) { vrt::ev("\"e\":\"c\",\"h\":%d,\"op\":\"%s\",\"x\":%lld", self(), op, x); }
static void re(long long v) { vrt::ev("\"e\":\"r\",\"h\":%d,\"v\":%lld", self(), v); }
static void end() { vrt::ev("\"e\":\"end\""); }

//////////////////////////////////////////////////////////////////////////////////////////
namespace mcq {
struct Item { int id; };
static std::vector<Item>* items;
static mg::box::MultiConsumerQueue<Item>* q;
typedef mg::box::MultiConsumerQueueConsumer<Item> Cons;
static int res, nc, attached;

static void count()
{
	ce("count");
	re(q->Count());
	vrt::ev("\"e\":\"blocks\",\"v\":%u,\"c\":%d,\"res\":%d", q->SubQueueCount(), nc + 1, res);
}
static int pop(Cons& c)
{
	ce("pop");
	Item* i = c.Pop();
	re(i ? i->id : 0);
	return i ? i->id : 0;
}
static void body(int sub, int cons, int n, bool reserve)
{
	Rng& r = vrt::rng();
	std::vector<Item> its(n + 1);
	items = &its;
	q = new mg::box::MultiConsumerQueue<Item>(sub);
	nc = cons;
	res = 0;
	if (reserve) {
		int k = r.range(1, n);
		q->Reserve(k);
		res = (k + sub - 1) / sub;
		vrt::ev("\"e\":\"blocks\",\"v\":%u,\"c\":%d,\"res\":%d", q->SubQueueCount(), nc + 1, res);
	}
	Ints th;
	bool done = false;
	auto producer = [&]() {
		Rng& r = vrt::rng();
		int burst = 0;
		for (int i = 1; i <= n; ++i) {
			its[i].id = i;
			uint64_t a = r.below(10);
			if (burst == 0) burst = r.chance(1, 4) ? r.range(1, 2 * sub) : 0;
			if (burst > 0 || a < 4) {
				if (burst > 0) --burst;
				ce("pend", i);
				re(q->PushPending(&its[i]));
			} else {
				ce("push", i);
				re(q->Push(&its[i]));
			}
			if (r.chance(1, 6)) { ce("flush"); re(q->FlushPending()); }
			if (r.chance(1, 10)) count();
			if (r.chance(1, 8)) vrt::yield();
			if (r.chance(1, 20)) vrt::stall();
		}
		ce("flush");
		re(q->FlushPending());
		done = true;
	};
	th.push_back(vrt::spawn(producer));
	for (int k = 0; k < cons; ++k)
		th.push_back(vrt::spawn([&, k]() {
			Rng& r = vrt::rng();
			Cons c(q);
			int empty = 0;
			int limit = r.chance(1, 3) ? r.range(1, n) : 1000;
			for (int i = 0; i < limit && empty < 3; ++i) {
				if (pop(c) == 0) { ++empty; vrt::yield(); }
				if (r.chance(1, 12)) { c.Detach(); if (r.chance(1, 2)) vrt::yield(); c.Attach(q); }
				if (r.chance(1, 15)) vrt::stall();
				if (r.chance(1, 15)) count();
			}
		}));
	for (int t : th) vrt::join(t);
	{
		Cons c;
		c.Attach(q);
		vrt::ev("\"e\":\"cons\",\"v\":%u,\"x\":1", q->ConsumerCount());
		while (pop(c) != 0);
		count();
		c.Detach();
		vrt::ev("\"e\":\"cons\",\"v\":%u,\"x\":0", q->ConsumerCount());
	}
	end();
	delete q;
}
static vrt::Scenario make(Rng& g)
{
	vrt::Scenario s;
	int sub = g.range(1, 4), cons = g.range(1, 3), n = g.range(1, 10);
	if (g.chance(1, 3)) { sub = g.range(1, 2); n = g.range(6, 24); }
	bool rsv = g.chance(1, 4);
	s.cfgJson = "{\"s\":" + std::to_string(sub) + "}";
	s.body = [=]() { body(sub, cons, n, rsv); };
	return s;
}
}

//////////////////////////////////////////////////////////////////////////////////////////
namespace mpq {
struct Item { Item* myNext = nullptr; int id = 0; };
typedef mg::box::MultiProducerQueueIntrusive<Item> Q;

static std::string list(const Ints& v)
{
	std::string s = "[";
	for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
	return s + "]";
}
static void c(const char* op, const Ints& v) { vrt::ev("\"e\":\"c\",\"h\":%d,\"op\":\"%s\",\"x\":%s", self(), op, list(v).c_str()); }
static void r(long long v, const Ints& l, int t) { vrt::ev("\"e\":\"r\",\"h\":%d,\"v\":%lld,\"l\":%s,\"t\":%d", self(), v, list(l).c_str(), t); }

static int pop(Q& q, int how)
{
	Ints l;
	Item* tail = nullptr;
	c(how == 2 ? "poprev" : "pop", {});
	Item* h = how == 0 ? q.PopAll() : how == 1 ? q.PopAll(tail) : q.PopAllFastReversed();
	for (Item* i = h; i; i = i->myNext) l.push_back(i->id);
	r(0, l, how != 1 ? -1 : tail ? tail->id : 0);
	return (int)l.size();
}
static void body(int np, int n)
{
	Q q;
	std::vector<Item> its(np * n + 1);
	Ints th;
	int left = np;
	for (int p = 0; p < np; ++p)
		th.push_back(vrt::spawn([&, p]() {
			Rng& g = vrt::rng();
			int i = p * n + 1, e = (p + 1) * n;
			while (i <= e) {
				int k = g.chance(1, 2) ? 1 : g.range(1, std::min(3, e - i + 1));
				Ints ids;
				for (int j = 0; j < k; ++j) {
					its[i + j].id = i + j;
					its[i + j].myNext = j + 1 < k ? &its[i + j + 1] : nullptr;
					ids.push_back(i + j);
				}
				Item* f = &its[i];
				Item* la = &its[i + k - 1];
				int how = (int)g.below(4);
				if (k == 1 && how < 2) { c("push", ids); r(q.Push(f), {}, -1); }
				else if (how < 2) { c("many", ids); r(q.PushMany(f), {}, -1); }
				else if (how == 2) { c("rev", ids); r(q.PushManyFastReversed(f), {}, -1); }
				else { c("rev", ids); la->myNext = g.chance(1, 2) ? f : nullptr; r(q.PushManyFastReversed(f, la), {}, -1); }
				i += k;
				if (g.chance(1, 5)) { c("empty", {}); r(q.IsEmpty(), {}, -1); }
				if (g.chance(1, 5)) vrt::yield();
				if (g.chance(1, 10)) { c("empty", {}); r(q.PushMany(nullptr), {}, -1); }
				if (g.chance(1, 10)) { c("empty", {}); r(g.chance(1, 2) ? q.PushManyFastReversed(nullptr) : q.PushManyFastReversed(nullptr, nullptr), {}, -1); }
			}
			{ vrt::Quiet q; --left; }
		}));
	Rng& g = vrt::rng();
	for (int i = 0, m = g.range(0, 5); i < m; ++i) {
		pop(q, (int)g.below(3));
		if (g.chance(1, 2)) vrt::yield();
		if (g.chance(1, 4)) vrt::stall();
	}
	for (int t : th) vrt::join(t);
	pop(q, (int)g.below(3));
	c("empty", {});
	r(q.IsEmpty(), {}, -1);
	end();
}
static vrt::Scenario make(Rng& g)
{
	vrt::Scenario s;
	int np = g.range(1, 3), n = g.range(1, 4);
	s.body = [=]() { body(np, n); };
	return s;
}
}

//////////////////////////////////////////////////////////////////////////////////////////
namespace sig {
static void c(const char* op, long long lim) { vrt::ev("\"e\":\"c\",\"h\":%d,\"op\":\"%s\",\"t\":%lld,\"lim\":%lld", self(), op, now(), lim); }
static void r(int v) { vrt::ev("\"e\":\"r\",\"h\":%d,\"v\":%d,\"t\":%lld", self(), v, now()); }
static void send(mg::box::Signal* s) { c("send", 0); s->Send(); r(0); }
static bool recv(mg::box::Signal* s, int how)
{
	Rng& g = vrt::rng();
	bool v = true;
	if (how == 0) { c("recv", 0); v = s->Receive(); }
	else if (how == 1) { c("block", -1); s->ReceiveBlocking(); }
	else {
		long long lim = how == 3 ? -1 : g.range(0, 6);
		c("timed", lim);
		if (lim < 0) v = s->ReceiveTimed(mg::box::theTimeDurationInf);
		else if (g.chance(1, 2)) v = s->ReceiveTimed(TimeDuration((uint64_t)lim));
		else v = s->ReceiveTimed(mg::box::TimePoint(vrt::baseMs() + vrt::nowMs() + lim));
	}
	r(v);
	return v;
}
// Many senders and receivers of one object.
static void many(int ns, int nr, int k)
{
	mg::box::Signal s;
	Ints th, rt;
	int rleft = nr, sleft = ns;
	for (int i = 0; i < ns; ++i)
		th.push_back(vrt::spawn([&]() {
			Rng& g = vrt::rng();
			for (int j = 0; j < k; ++j) {
				if (g.chance(1, 5)) mg::box::Sleep(g.range(1, 6)); else if (g.chance(1, 3)) vrt::yield();
				send(&s);
			}
			{ vrt::Quiet q; --sleft; }
		}));
	for (int i = 0; i < nr; ++i)
		rt.push_back(vrt::spawn([&]() {
			Rng& g = vrt::rng();
			for (int j = 0; j < k; ++j) {
				recv(&s, (int)g.below(4));
				if (g.chance(1, 5)) mg::box::Sleep(g.range(1, 6)); else if (g.chance(1, 5)) vrt::stall();
			}
			{ vrt::Quiet q; --rleft; }
		}));
	for (int t : th) vrt::join(t);
	// Let everybody out.
	for (;;) {
		vrt::waitIdle(false);
		if (rleft == 0) break;
		vrt::waitIdle(true);
		vrt::ev("\"e\":\"idle\"");
		if (rleft == 0) break;
		send(&s);
	}
	for (int t : rt) vrt::join(t);
	end();
}
// The receiver destroys the object at once.
static void destroy(int ns)
{
	mg::box::Signal* s = new mg::box::Signal();
	int th = vrt::spawn([&]() { send(s); });
	Rng& g = vrt::rng();
	if (g.chance(1, 2)) vrt::yield();
	for (;;) {
		if (recv(s, (int)g.below(4))) break;
		if (g.chance(1, 3)) vrt::stall(); else vrt::yield();
	}
	vrt::ev("\"e\":\"free\"");
	delete s;
	if (g.chance(1, 2)) {
		// Reuse the memory.
		char* p = new char[sizeof(mg::box::Signal)];
		memset(p, 0x5a, sizeof(mg::box::Signal));
		vrt::yield();
		delete[] p;
	}
	vrt::join(th);
	end();
}
static vrt::Scenario make(Rng& g)
{
	vrt::Scenario s;
	int ns = g.range(1, 3), nr = g.range(1, 2), k = g.range(1, 3);
	bool d = g.chance(1, 3);
	s.cfg.spurious = g.chance(1, 3);
	s.cfgJson = "{\"sp\":" + std::to_string((int)s.cfg.spurious) + "}";
	if (d) s.body = [=]() { vrt::advanceMs(100); destroy(1); };
	else s.body = [=]() { vrt::advanceMs(100); many(ns, nr, k); };
	return s;
}
}

//////////////////////////////////////////////////////////////////////////////////////////
namespace imx {
static void body(int nw, int no, int k)
{
	mg::box::InterruptibleMutex m;
	mg::box::Signal s;
	Ints th, wt;
	int wleft = nw;
	bool stop = false;
	auto unlock = [&]() { ce("unlock"); m.Unlock(); re(0); };
	for (int i = 0; i < nw; ++i)
		wt.push_back(vrt::spawn([&]() {
			Rng& g = vrt::rng();
			for (int j = 0; j < k && !stop; ++j) {
				ce("try");
				bool v = m.TryLock();
				re(v);
				if (v) {
					if (g.chance(1, 2)) {
						if (g.chance(1, 2)) s.ReceiveBlocking();
						else s.ReceiveTimed(TimeDuration(g.below(10)));
					} else if (g.chance(1, 2)) vrt::yield();
					if (g.chance(1, 6)) vrt::stall();
					unlock();
				}
				if (g.chance(1, 3)) vrt::yield();
			}
			{ vrt::Quiet q; --wleft; }
		}));
	for (int i = 0; i < no; ++i)
		th.push_back(vrt::spawn([&]() {
			Rng& g = vrt::rng();
			for (int j = 0; j < k; ++j) {
				if (g.chance(1, 4)) mg::box::Sleep(g.range(1, 8)); else if (g.chance(1, 3)) vrt::yield();
				ce("lock");
				int h = self();
				m.Lock([&s, h]() { vrt::ev("\"e\":\"wk\",\"h\":%d", h); s.Send(); });
				re(1);
				if (g.chance(1, 2)) vrt::yield();
				if (g.chance(1, 6)) vrt::stall();
				unlock();
			}
		}));
	for (int t : th) vrt::join(t);
	for (;;) {
		vrt::waitIdle(true);
		vrt::ev("\"e\":\"idle\"");
		if (wleft == 0) break;
		s.Send();
	}
	for (int t : wt) vrt::join(t);
	if (vrt::rng().chance(1, 2)) { ce("try"); bool v = m.TryLock(); re(v); if (v) unlock(); }
	end();
}
static vrt::Scenario make(Rng& g)
{
	vrt::Scenario s;
	int nw = g.range(0, 2), no = g.range(1, 3), k = g.range(1, 3);
	s.body = [=]() { vrt::advanceMs(100); body(nw, no, k); };
	return s;
}
}

//////////////////////////////////////////////////////////////////////////////////////////
namespace mtx {
static void c(const char* op, long long lim = 0) { vrt::ev("\"e\":\"c\",\"h\":%d,\"op\":\"%s\",\"t\":%lld,\"lim\":%lld", self(), op, now(), lim); }
static void r(int v) { vrt::ev("\"e\":\"r\",\"h\":%d,\"v\":%d,\"t\":%lld", self(), v, now()); }

static void body(int n, int k)
{
	mg::box::Mutex m;
	mg::box::ConditionVariable cv;
	Ints th;
	int left = n;
	int inside = 0;
	auto lock = [&]() { c("lock"); m.Lock(); r(1); };
	auto unlock = [&]() { c("unlock"); m.Unlock(); r(1); };
	auto own = [&]() { c("own"); bool v = m.IsOwnedByThisThread(); r(v); };
	for (int i = 0; i < n; ++i)
		th.push_back(vrt::spawn([&]() {
			Rng& g = vrt::rng();
			int depth = 0;
			for (int j = 0; j < k || depth > 0; ++j) {
				int a = j >= k ? 1 : (int)g.below(12);
				if (depth == 0) {
					if (a < 5) { lock(); ++depth; }
					else if (a < 7) { c("try"); bool v = m.TryLock(); r(v); depth += v; }
					else if (a < 8) own();
					else if (a < 9) { c("signal"); cv.Signal(); r(0); }
					else if (a < 10) { c("bcast"); cv.Broadcast(); r(0); }
					else if (a < 11) mg::box::Sleep(g.range(1, 5));
					else vrt::yield();
				} else {
					if (a < 3) { unlock(); --depth; }
					else if (a < 4) { if (depth < 3) { lock(); ++depth; } }
					else if (a < 5) { c("try"); bool v = m.TryLock(); r(v); depth += v; }
					else if (a < 6) own();
					else if (a < 7) { c("signal"); cv.Signal(); r(0); }
					else if (a < 8) { c("bcast"); cv.Broadcast(); r(0); }
					else if (depth == 1) {
						if (g.chance(1, 3)) { c("wait", -1); cv.Wait(m); r(1); }
						else {
							long long lim = g.chance(1, 4) ? -1 : g.chance(1, 12) ? 20000000 : g.range(0, 6);
							c("twait", lim);
							bool v;
							if (lim == 20000000) v = cv.TimedWait(m, TimeDuration(UINT64_MAX - 1 - g.below(1000)));
							else if (lim < 0) v = g.chance(1, 2) ? cv.TimedWait(m, mg::box::theTimePointInf) : cv.TimedWait(m, mg::box::theTimeDurationInf);
							else if (g.chance(1, 2)) v = cv.TimedWait(m, TimeDuration((uint64_t)lim));
							else v = cv.TimedWait(m, mg::box::TimePoint(vrt::baseMs() + vrt::nowMs() + lim));
							r(v);
						}
					}
				}
				if (g.chance(1, 8)) vrt::yield();
				if (g.chance(1, 20)) vrt::stall();
			}
			{ vrt::Quiet q; --left; }
		}));
	for (;;) {
		vrt::waitIdle(true);
		vrt::ev("\"e\":\"idle\"");
		if (left == 0) break;
		c("bcast");
		cv.Broadcast();
		r(0);
	}
	for (int t : th) vrt::join(t);
	end();
}

class Thr : public mg::box::Thread
{
public:
	Thr() : Thread("t") {}
	~Thr() override { vrt::ev("\"e\":\"dtor\""); }
	int how = 0, cnt = 0;
	void Run() override
	{
		vrt::ev("\"e\":\"xb\",\"h\":%d", self());
		if (how & 1) vrt::yield();
		if (how & 2) mg::box::Sleep(3);
		if (how & 4) vrt::stall();
		for (int i = 0; i < cnt; ++i) {
			c("isstop");
			bool v = StopRequested();
			r(v);
			if (v) break;
			mg::box::Sleep(1);
		}
		vrt::ev("\"e\":\"xe\",\"h\":%d", self());
	}
};
struct Own : Thr { ~Own() override {} };
static void threads(int n, bool started)
{
	Rng& g = vrt::rng();
	Own* o = new Own();
	o->how = (int)g.below(8);
	o->cnt = (int)g.below(4);
	if (!started) {
		// Never started: nothing to wait for.
		c("bstop");
		o->BlockingStop();
		r(0);
		c("del");
		delete o;
		r(0);
		end();
		return;
	}
	auto isrun = [&]() { c("isrun"); bool v = o->IsRunning(); r(v); };
	auto isstop = [&]() { c("isstop"); bool v = o->StopRequested(); r(v); };
	if (g.chance(1, 3)) isrun();
	c("start");
	o->Start();
	r(0);
	Ints th;
	for (int i = 0; i < n; ++i)
		th.push_back(vrt::spawn([&]() {
			Rng& g = vrt::rng();
			for (int j = 0, m = g.range(1, 3); j < m; ++j) {
				uint64_t a = g.below(8);
				if (a == 0) { c("stop"); o->Stop(); r(0); }
				else if (a == 1) isrun();
				else if (a == 2) isstop();
				else if (a == 3) mg::box::Sleep(g.range(1, 4));
				else { c("bstop"); o->BlockingStop(); r(0); }
			}
		}));
	if (g.chance(1, 3)) { c("bstop"); o->BlockingStop(); r(0); isrun(); isstop(); }
	for (int t : th) vrt::join(t);
	if (g.chance(1, 2)) { c("sdel"); o->StopAndDelete(); r(0); }
	else {
		if (g.chance(1, 2)) { c("bstop"); o->BlockingStop(); r(0); }
		else {
			// The destructor itself must be enough once the thread says it does not run.
			for (;;) {
				c("isrun");
				bool v = o->IsRunning();
				r(v);
				if (!v) break;
				mg::box::Sleep(1);
			}
		}
		c("del");
		delete o;
		r(0);
	}
	end();
}
static vrt::Scenario make(Rng& g)
{
	vrt::Scenario s;
	int n = g.range(1, 3), k = g.range(1, 8);
	s.cfg.spurious = g.chance(1, 3);
	bool t = g.chance(1, 4), st = g.chance(19, 20);
	s.cfgJson = "{\"sp\":" + std::to_string((int)s.cfg.spurious) + "}";
	if (t) s.body = [=]() { vrt::advanceMs(100); threads(n - 1, st); };
	else s.body = [=]() { vrt::advanceMs(100); body(n, k); };
	return s;
}
}

//////////////////////////////////////////////////////////////////////////////////////////
namespace pool {
template <int Size> struct Raw { unsigned char b[Size]; };
template <typename T, uint32_t B> static void body(int nt, int k, bool cross)
{
	typedef mg::box::ThreadLocalPool<T, B> P;
	typedef mg::box::ThreadGlobalPool<T, B> G;
	new (&G::GetInstance()) G();
	struct Obj { unsigned char* p; int tag; };
	std::vector<Obj> common;
	int tags = 0;
	char* base = nullptr;
	auto alloc = [&]() {
		ce("alloc", sizeof(T));
		Obj o;
		o.p = (unsigned char*)P::GetInstance().AllocateT();
		{ vrt::Quiet q; o.tag = ++tags & 0xff; }
		{ vrt::Quiet q; if (!base) base = (char*)o.p; }
		re((long long)((char*)o.p - base));
		memset(o.p, o.tag, sizeof(T));
		return o;
	};
	auto free_ = [&](Obj o) {
		int bad = 0;
		for (size_t i = 0; i < sizeof(T); ++i) bad += o.p[i] != (unsigned char)o.tag;
		vrt::ev("\"e\":\"c\",\"h\":%d,\"op\":\"free\",\"x\":%lld,\"bad\":%d", self(), (long long)((char*)o.p - base), bad);
		P::GetInstance().FreeT(o.p);
		re(0);
	};
	auto worker = [&]() {
		Rng& g = vrt::rng();
		std::vector<Obj> mine;
		for (int i = 0; i < k; ++i) {
			if (g.chance(1, 2) || mine.empty()) {
				for (int j = 0, m = g.range(1, (int)B + 2); j < m; ++j) mine.push_back(alloc());
			} else {
				for (int j = 0, m = g.range(1, (int)mine.size()); j < m; ++j) {
					size_t x = g.below(mine.size());
					Obj o = mine[x];
					mine.erase(mine.begin() + x);
					if (cross && g.chance(1, 3)) { vrt::Quiet q; common.push_back(o); } else free_(o);
				}
			}
			if (cross)
				for (;;) {
					Obj o;
					{
						vrt::Quiet q;
						if (common.empty() || g.chance(1, 3)) break;
						o = common.back();
						common.pop_back();
					}
					free_(o);
				}
			if (g.chance(1, 6)) vrt::yield();
			if (g.chance(1, 20)) vrt::stall();
		}
		while (!mine.empty()) {
			Obj o = mine.back();
			mine.pop_back();
			if (cross && g.chance(1, 2)) { vrt::Quiet q; common.push_back(o); } else free_(o);
		}
	};
	// Rounds: threads end and others take over what they left.
	for (int round = 0, m = vrt::rng().range(1, 3); round < m; ++round) {
		Ints th;
		for (int i = 0; i < nt; ++i) th.push_back(vrt::spawn(worker));
		for (int t : th) vrt::join(t);
		vrt::ev("\"e\":\"round\"");
	}
	int t = vrt::spawn([&]() { while (!common.empty()) { free_(common.back()); common.pop_back(); } });
	vrt::join(t);
	vrt::ev("\"e\":\"round\"");
	end();
	new (&G::GetInstance()) G();
	vrt::leakOk();
}
static vrt::Scenario make(Rng& g)
{
	vrt::Scenario s;
	int nt = g.range(1, 3), k = g.range(1, 12), b = g.range(1, 4);
	bool cross = g.chance(1, 2);
	bool big = g.chance(1, 2);
	// A chain header needs its own space.
	s.cfgJson = "{\"b\":" + std::to_string(b) + ",\"nt\":" + std::to_string(nt) + "}";
	s.body = [=]() {
		if (big) {
			if (b == 1) body<Raw<80>, 1>(nt, k, cross);
			if (b == 2) body<Raw<80>, 2>(nt, k, cross);
			if (b == 3) body<Raw<80>, 3>(nt, k, cross);
			if (b == 4) body<Raw<80>, 4>(nt, k, cross);
		} else {
			if (b == 1) body<Raw<8>, 1>(nt, k, cross);
			if (b == 2) body<Raw<8>, 2>(nt, k, cross);
			if (b == 3) body<Raw<8>, 3>(nt, k, cross);
			if (b == 4) body<Raw<8>, 4>(nt, k, cross);
		}
	};
	return s;
}
}

//////////////////////////////////////////////////////////////////////////////////////////
namespace ptr {
class Base
{
	SHARED_PTR_API(Base, myRef)
public:
	int id;
	static int next;
protected:
	Base();
	virtual ~Base();
	mg::box::RefCount myRef;
public:
	// Other objects may be kept alive by this one.
	Ptr myLink;
	mg::box::SharedPtrIntrusive<class Child> myKid;
};
class Child : public Base
{
	SHARED_PTR_RENEW_API(Child)
protected:
	Child() {}
};
int Base::next;
Base::Base() { vrt::Quiet q; id = ++next; vrt::ev("\"e\":\"new\",\"o\":%d", id); }
Base::~Base() { vrt::ev("\"e\":\"d\",\"o\":%d,\"h\":%d", id, self()); }
typedef mg::box::SharedPtrIntrusive<Base> P;
typedef mg::box::SharedPtrIntrusive<Child> PC;

// Slots 1..NB*: Base pointers, then Child pointers. Thread i owns slots of its own.
struct Slots { std::vector<P> b; std::vector<PC> c; int first = 0; std::vector<Base*> raw; };
static void op(const char* o, int d, int s) { vrt::ev("\"e\":\"c\",\"h\":%d,\"op\":\"%s\",\"d\":%d,\"s\":%d", self(), o, d, s); }
static void res(int v) { vrt::ev("\"e\":\"r\",\"h\":%d,\"v\":%d", self(), v); }
static int idOf(const P& p) { return p.IsSet() ? p->id : 0; }
static int idOf(const PC& p) { return p.IsSet() ? p->id : 0; }

static const int LINK = 100, KID = 200;
static void worker(Slots& s, int k, std::vector<Base*>* shared)
{
	Rng& g = vrt::rng();
	int nb = (int)s.b.size(), nc = (int)s.c.size();
	auto B = [&](int i) { return s.first + i; };
	auto C = [&](int i) { return s.first + nb + i; };
	for (int i = 0; i < k; ++i) {
		int x = (int)g.below(nb), y = (int)g.below(nb), u = (int)g.below(nc), v = (int)g.below(nc);
		switch (g.below(25)) {
		case 0: case 1:
			op("new", B(x), 0); s.b[x] = Base::NewShared(); res(idOf(s.b[x])); break;
		case 2: case 3:
			op("new", C(u), 0); s.c[u] = Child::NewShared(); res(idOf(s.c[u])); break;
		case 4: case 5: op("copy", B(x), B(y)); s.b[x] = s.b[y]; res(idOf(s.b[x])); break;
		case 6: op("copy", B(x), C(u)); s.b[x] = s.c[u]; res(idOf(s.b[x])); break;
		case 7: op("copy", C(u), C(v)); s.c[u] = s.c[v]; res(idOf(s.c[u])); break;
		case 8: case 9: op("move", B(x), B(y)); s.b[x] = std::move(s.b[y]); res(idOf(s.b[x])); break;
		case 10: op("move", B(x), C(u)); s.b[x] = std::move(s.c[u]); res(idOf(s.b[x])); break;
		case 11: op("move", C(u), C(v)); s.c[u] = std::move(s.c[v]); res(idOf(s.c[u])); break;
		case 12: op("clear", B(x), 0); s.b[x].Clear(); res(idOf(s.b[x])); break;
		case 13: op("clear", C(u), 0); s.c[u].Clear(); res(idOf(s.c[u])); break;
		case 14: op("copy", B(x), B(y)); s.b[x].Set(s.b[y].GetPointer()); res(idOf(s.b[x])); break;
		case 15: op("copy", B(x), C(u)); s.b[x].Set(s.c[u].GetPointer()); res(idOf(s.b[x])); break;
		case 16: op("copy", B(x), B(y)); { P t(s.b[y]); s.b[x] = std::move(t); } res(idOf(s.b[x])); break;
		case 17: op("copy", B(x), C(u)); { P t(s.c[u]); s.b[x] = t; } res(idOf(s.b[x])); break;
		case 18: op("move", B(x), C(u)); { P t(std::move(s.c[u])); s.b[x] = std::move(t); } res(idOf(s.b[x])); break;
		case 19: op("copy", B(x), B(y)); { P t(s.b[y].GetPointer()); P w(std::move(t)); s.b[x] = w; } res(idOf(s.b[x])); break;
		case 20: // Raw ownership.
			if (s.b[x].IsSet()) {
				op("is", B(x), 0);
				Base* r = s.b[x].Unwrap();
				bool e = !s.b[x].IsSet();
				if (shared && g.chance(1, 3)) vrt::yield();
				s.b[x] = P::Wrap(r);
				res(e ? idOf(s.b[x]) : -1);
			}
			break;
		case 21: op("eq", B(x), B(y)); res((s.b[x] == s.b[y]) + 2 * !(s.b[x] != s.b[y]) + 4 * (s.b[x] == s.b[y].GetPointer()) +
				8 * !(s.b[x] != s.b[y].GetPointer()) + 16 * (s.b[y].GetPointer() == s.b[x])); break;
		case 22: op("eq", B(x), C(u)); res((s.b[x] == s.c[u]) + 2 * !(s.b[x] != s.c[u]) + 4 * (s.b[x] == s.c[u].GetPointer()) +
				8 * !(s.b[x] != s.c[u].GetPointer()) + 16 * !(s.c[u].GetPointer() != s.b[x])); break;
		case 23: op("null", B(x), 0); res((s.b[x] == nullptr) + 2 * !s.b[x].IsSet() + 4 * !(s.b[x] != nullptr) + 8 * (nullptr == s.b[x])); break;
		case 24: op("is", B(y), 0); res(idOf(s.b[y])); break;
		}
		// Links between the objects.
		if (!shared && g.chance(1, 3)) {
			x = (int)g.below(nb), y = (int)g.below(nb), u = (int)g.below(nc);
			if (s.b[x].IsSet()) {
				int l = LINK + s.b[x]->id;
				Base* o = s.b[x].GetPointer();
				int m = KID + s.b[x]->id;
				switch (g.below(10)) {
				case 5: case 6: if (s.c[u].IsSet() && s.c[u]->id > o->id) { op("copy", m, C(u)); o->myKid = s.c[u]; res(idOf(o->myKid)); } break;
				case 7: op("move", B(x), m); s.b[x] = std::move(s.b[x]->myKid); res(idOf(s.b[x])); break;
				case 8: op("copy", B(x), m); s.b[x] = s.b[x]->myKid; res(idOf(s.b[x])); break;
				case 9: op("move", C(u), m); s.c[u] = std::move(s.b[x]->myKid); res(idOf(s.c[u])); break;
				case 0: if (s.b[y].IsSet() && s.b[y]->id > o->id) { op("copy", l, B(y)); o->myLink = s.b[y]; res(idOf(o->myLink)); } break;
				case 1: if (s.b[y].IsSet() && s.b[y]->id > o->id) { op("move", l, B(y)); o->myLink = std::move(s.b[y]); res(idOf(o->myLink)); } break;
				case 2: if (s.c[u].IsSet() && s.c[u]->id > o->id) { op("move", l, C(u)); o->myLink = std::move(s.c[u]); res(idOf(o->myLink)); } break;
				case 3: op("move", B(x), l); s.b[x] = std::move(s.b[x]->myLink); res(idOf(s.b[x])); break;
				case 4: op("copy", B(x), l); s.b[x] = s.b[x]->myLink; res(idOf(s.b[x])); break;
				}
			}
		}
		if (g.chance(1, 6)) { int z = (int)g.below(nb); op("is", B(z), 0); res(idOf(s.b[z])); }
		if (g.chance(1, 6)) { int z = (int)g.below(nc); op("is", C(z), 0); res(idOf(s.c[z])); }
		if (shared && g.chance(1, 8)) vrt::yield();
	}
	for (int i = 0; i < nb; ++i) { op("clear", B(i), 0); { P t(std::move(s.b[i])); } res(idOf(s.b[i])); }
	for (int i = 0; i < nc; ++i) { op("clear", C(i), 0); if (g.chance(1, 2)) s.c[i].Set(nullptr); else s.c[i] = PC(); res(idOf(s.c[i])); }
}
static void body(int nt, int nb, int nc, int k)
{
	Base::next = 0;
	std::vector<Slots> ss(nt + 1);
	for (int i = 0; i <= nt; ++i) {
		ss[i].b.resize(nb);
		ss[i].c.resize(nc);
		ss[i].first = 1 + i * (nb + nc);
	}
	// Objects common for all threads.
	Rng& g = vrt::rng();
	if (nt > 0) {
		for (int i = 0; i < nb; ++i) {
			op("new", ss[0].first + i, 0);
			ss[0].b[i] = g.chance(1, 2) ? Base::NewShared() : P(Child::NewShared());
			res(idOf(ss[0].b[i]));
		}
		for (int t = 1; t <= nt; ++t)
			for (int i = 0; i < nb; ++i) {
				int y = (int)g.below(nb);
				op("copy", ss[t].first + i, ss[0].first + y);
				ss[t].b[i] = ss[0].b[y];
				res(idOf(ss[t].b[i]));
			}
	}
	Ints th;
	std::vector<Base*> sh;
	for (int t = 1; t <= nt; ++t) th.push_back(vrt::spawn([&, t]() { worker(ss[t], k, &sh); }));
	worker(ss[0], nt > 0 ? k : k * 3, nt > 0 ? &sh : nullptr);
	for (int t : th) vrt::join(t);
	end();
}
static vrt::Scenario make(Rng& g)
{
	vrt::Scenario s;
	int nt = g.range(0, 2), nb = g.range(1, 3), nc = g.range(1, 2), k = g.range(1, 12);
	s.cfgJson = "{\"n\":" + std::to_string((nt + 1) * (nb + nc)) + "}";
	s.body = [=]() { body(nt, nb, nc, k); };
	return s;
}
}

static vrt::Scenario make(uint64_t seed, const std::vector<std::string>& args)
{
	Rng g(seed * 31 + 5);
	const std::string& m = args.at(0);
	if (m == "mcq") return mcq::make(g);
	if (m == "mpq") return mpq::make(g);
	if (m == "sig") return sig::make(g);
	if (m == "imx") return imx::make(g);
	if (m == "mtx") return mtx::make(g);
	if (m == "pool") return pool::make(g);
	if (m == "ptr") return ptr::make(g);
	abort();
}

int main(int argc, char** argv)
{
	return vrt::driverMain(argc, argv, make);
}
