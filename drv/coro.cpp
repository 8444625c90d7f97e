// Driver of coroutines: bare ones (mode "raw") and as task bodies. Events: see spec/coro/CorTrace.tla.
#include "vrt.h"
#include "mg/box/Coro.h"
#include "mg/box/Signal.h"
#include "mg/box/Time.h"
#include "mg/sch/TaskScheduler.h"
#include <memory>

using namespace mg::sch;
using mg::box::Coro;

static constexpr long long INF = 1000000000;

static int nextFrame;
static int lastId;

// Lives in the coroutine's frame.
struct Guard {
	int k, f;
	Guard(int aK) : k(aK) { { vrt::Quiet q; f = ++nextFrame; } vrt::ev("\"e\":\"fc\",\"k\":%d,\"f\":%d", k + 1, f); }
	Guard(Guard&& o) : k(o.k), f(o.f) { o.f = 0; }
	~Guard() { if (f) vrt::ev("\"e\":\"fd\",\"k\":%d,\"f\":%d", k + 1, f); }
};

struct Ctx {
	Task* t = nullptr;
	int kind = 0;     // 0 stays, 1 deletes itself, 2 sends a signal and is deleted by its receiver
	int left = 0;     // suspensions
	int inst = 0;
	bool needSig = false; // a signal is sent by somebody, must be received before the end
	bool ended = false;
	bool gone = false;
	int cbLeft = 0;
	mg::box::Signal* done = nullptr;
	int maxDepth = 0;
};

static std::vector<Ctx> ctx;
static TaskScheduler* sched;
static bool closing, rawMode, tick;

static void st(int k, int f, int pc)
{
	vrt::ev("\"e\":\"st\",\"k\":%d,\"f\":%d,\"p\":%d,\"h\":%d", k + 1, f, pc, vrt::self());
}

static long long rel(uint64_t d)
{
	if (d == 0) return 0;
	if (d == MG_TIME_INFINITE) return INF;
	long long r = (long long)(d - vrt::baseMs());
	return r < 1 ? 1 : r;
}

static void setDelay(Task* t, int how, int delay)
{
	switch (how) {
	case 1: t->SetDelay(delay); break;
	case 2: t->SetDeadline(vrt::baseMs() + vrt::nowMs() + delay); break;
	case 3: t->SetWait(); break;
	default: break;
	}
}

static void evYield(int k, int f, int pc, int rcv)
{
	Ctx& c = ctx[k];
	vrt::ev("\"e\":\"yc\",\"k\":%d,\"f\":%d,\"p\":%d,\"d\":%lld,\"r\":%d,\"n\":%d,\"t\":%llu,\"h\":%d", k + 1, f, pc,
		rel(c.t->GetDeadline()), rcv, ++c.inst, (unsigned long long)vrt::nowMs(), vrt::self());
}

static void evResume(int k, int f, int pc, int v)
{
	vrt::ev("\"e\":\"rs\",\"k\":%d,\"f\":%d,\"p\":%d,\"v\":%d,\"t\":%llu,\"h\":%d", k + 1, f, pc, v,
		(unsigned long long)vrt::nowMs(), vrt::self());
}

static void doWake(int k)
{
	vrt::ev("\"e\":\"wc\",\"k\":%d,\"h\":%d", k + 1, vrt::self());
	ctx[k].t->PostWakeup();
	vrt::ev("\"e\":\"wr\",\"k\":%d,\"h\":%d", k + 1, vrt::self());
}

static void doSignal(int k)
{
	vrt::ev("\"e\":\"sc\",\"k\":%d,\"h\":%d", k + 1, vrt::self());
	ctx[k].t->PostSignal();
	vrt::ev("\"e\":\"sr\",\"k\":%d,\"h\":%d", k + 1, vrt::self());
}

static void afterCoro(int k, Task* t)
{
	// The new body of the task.
	Ctx& c = ctx[k];
	if (c.kind == 1) {
		c.gone = true;
		vrt::ev("\"e\":\"td\",\"k\":%d", k + 1);
		delete t;
		return;
	}
	if (c.cbLeft > 0 && !closing) {
		--c.cbLeft;
		setDelay(t, vrt::rng().range(0, 3), vrt::rng().range(1, 6));
		long long d = rel(t->GetDeadline());
		int n = ++c.inst;
		vrt::ev("\"e\":\"pc\",\"k\":%d,\"n\":%d,\"d\":%lld,\"t\":%llu,\"h\":%d", k + 1, n, d, (unsigned long long)vrt::nowMs(), vrt::self());
		sched->Post(t);
		vrt::ev("\"e\":\"pr\",\"k\":%d,\"n\":%d", k + 1, n);
		return;
	}
	vrt::ev("\"e\":\"xe\",\"k\":%d", k + 1);
	c.ended = true;
}

static Coro frame(Guard g, int k, int depth)
{
	vrt::Rng& r = vrt::rng();
	int f = g.f;
	int pc = 0;
	if (depth == 0) evResume(k, f, 0, -1);
	st(k, f, ++pc);
	int n = r.range(0, 4);
	for (int i = 0; i < n; ++i) {
		Ctx& c = ctx[k];
		uint64_t a = r.below(10);
		if (a < 3 && depth < c.maxDepth) {
			Guard ng(k);
			int nf = ng.f;
			vrt::ev("\"e\":\"ca\",\"k\":%d,\"f\":%d,\"g\":%d,\"h\":%d", k + 1, f, nf, vrt::self());
			co_await mg::box::CoroCall(frame(std::move(ng), k, depth + 1));
			vrt::ev("\"e\":\"rt\",\"k\":%d,\"f\":%d,\"g\":%d,\"h\":%d", k + 1, f, nf, vrt::self());
		} else if (rawMode) {
			if (a < 9) {
				vrt::ev("\"e\":\"ys\",\"k\":%d,\"f\":%d,\"p\":%d,\"h\":%d", k + 1, f, pc, vrt::self());
				co_await std::suspend_always();
				evResume(k, f, pc, -1);
			}
		} else if (a < 7 && c.left > 0 && !closing) {
			--c.left;
			setDelay(c.t, r.chance(1, 2) ? 0 : r.range(1, c.kind == 0 ? 3 : 2), r.range(1, 9));
			if (r.chance(1, 2)) {
				evYield(k, f, pc, 0);
				if (r.chance(1, 2)) co_await c.t->AsyncYield(); else co_await c.t->AsyncYield(*sched);
				evResume(k, f, pc, -1);
			} else {
				evYield(k, f, pc, 1);
				bool v = co_await c.t->AsyncReceiveSignal();
				evResume(k, f, pc, v);
				if (v) c.needSig = false;
			}
		} else if (a == 7 && c.kind == 0) {
			if (r.chance(1, 2)) doWake(k); else doSignal(k);
		} else if (a == 8 && depth > 0 && r.chance(2, 3)) break;
		else if (a == 9 && depth > 0 && !c.needSig && r.chance(1, 2)) { i = 100; depth += 100; }
		st(k, f, ++pc);
		if (r.chance(1, 8)) vrt::yield();
		if (tick && r.chance(1, 10)) vrt::advanceMs(1 + r.below(5));
	}
	bool quit = depth >= 100;
	if (quit) depth -= 100;
	Ctx& c = ctx[k];
	if (!rawMode && (depth == 0 || quit)) {
		while (c.needSig) {
			setDelay(c.t, r.range(1, 3), r.range(1, 9));
			evYield(k, f, pc, 1);
			bool v = co_await c.t->AsyncReceiveSignal();
			evResume(k, f, pc, v);
			if (v) c.needSig = false;
			st(k, f, ++pc);
		}
		int x = c.kind == 1 ? r.range(1, 2) : c.kind == 2 ? 3 : quit ? 2 : r.chance(1, 3) ? 2 : 0;
		if (x != 0) {
			vrt::ev("\"e\":\"xc\",\"k\":%d,\"f\":%d,\"w\":%d,\"h\":%d", k + 1, f, x, vrt::self());
			if (x == 1) { c.gone = true; co_await c.t->AsyncExitDelete(); }
			else if (x == 2) {
				co_await c.t->AsyncExitExec([k](Task* t) {
					vrt::ev("\"e\":\"cb\",\"k\":%d,\"t\":%llu,\"h\":%d,\"same\":%d", k + 1, (unsigned long long)vrt::nowMs(), vrt::self(), (int)(t == ctx[k].t));
					afterCoro(k, t);
				});
			} else co_await c.t->AsyncExitSendSignal(*c.done);
			// Never.
			st(k, f, -1);
		}
	}
	vrt::ev("\"e\":\"en\",\"k\":%d,\"f\":%d,\"h\":%d", k + 1, f, vrt::self());
	if (depth == 0) c.ended = true;
}

static Coro makeRoot(int k)
{
	Guard g(k);
	return frame(std::move(g), k, 0);
}

static void destroyBegin(int k) { vrt::ev("\"e\":\"dc\",\"k\":%d", k + 1); }
static void destroyEnd(int k) { vrt::ev("\"e\":\"dr\",\"k\":%d", k + 1); }

//////////////////////////////////////////////////////////////////////////////////////////

static void rawOps(int nslots, int nops)
{
	vrt::Rng& r = vrt::rng();
	struct Slot { mg::box::CoroRef ref; int k = -1; };
	std::vector<std::unique_ptr<Slot>> s;
	for (int i = 0; i < nslots; ++i) s.emplace_back(new Slot());
	int nextK = 0;
	for (int i = 0; i < nops; ++i) {
		int a = (int)r.below(nslots), b = (int)r.below(nslots);
		Slot& x = *s[a];
		Slot& y = *s[b];
		uint64_t op = r.below(10);
		if (op < 5) {
			if (x.k >= 0 && !ctx[x.k].ended) {
				vrt::ev("\"e\":\"rq\",\"k\":%d,\"h\":%d", x.k + 1, vrt::self());
				x.ref.ResumeTop();
				vrt::ev("\"e\":\"rd\",\"k\":%d,\"h\":%d", x.k + 1, vrt::self());
			}
		} else if (op < 8) {
			if (nextK < (int)ctx.size() && (x.k < 0 || r.chance(1, 2))) {
				int k = nextK++;
				mg::box::CoroRef n(makeRoot(k));
				if (x.k >= 0) destroyBegin(x.k);
				x.ref = std::move(n);
				if (x.k >= 0) destroyEnd(x.k);
				x.k = k;
				vrt::ev("\"e\":\"em\",\"v\":%d,\"w\":1", (int)!n);
			}
		} else if (op == 8) {
			if (a != b) {
				if (y.k >= 0) destroyBegin(y.k);
				y.ref = std::move(x.ref);
				if (y.k >= 0) destroyEnd(y.k);
				y.k = x.k;
				x.k = -1;
				vrt::ev("\"e\":\"em\",\"v\":%d,\"w\":%d", (int)!x.ref, 1);
				vrt::ev("\"e\":\"em\",\"v\":%d,\"w\":%d", (int)!y.ref, (int)(y.k < 0));
			}
		} else {
			if (x.k >= 0) destroyBegin(x.k);
			x.ref.Clear();
			if (x.k >= 0) destroyEnd(x.k);
			x.k = -1;
			vrt::ev("\"e\":\"em\",\"v\":%d,\"w\":1", (int)!x.ref);
		}
	}
	for (auto& x : s) {
		if (x->k >= 0) destroyBegin(x->k);
		int k = x->k;
		x.reset();
		if (k >= 0) destroyEnd(k);
	}
}

static void post(int k)
{
	Ctx& c = ctx[k];
	c.ended = false;
	setDelay(c.t, vrt::rng().chance(2, 3) ? 0 : vrt::rng().range(1, 2), vrt::rng().range(1, 6));
	long long d = rel(c.t->GetDeadline());
	int n = ++c.inst;
	vrt::ev("\"e\":\"pc\",\"k\":%d,\"n\":%d,\"d\":%lld,\"t\":%llu,\"h\":%d", k + 1, n, d, (unsigned long long)vrt::nowMs(), vrt::self());
	sched->Post(c.t);
	vrt::ev("\"e\":\"pr\",\"k\":%d,\"n\":%d", k + 1, n);
}

static void receiver(int k)
{
	Ctx& c = ctx[k];
	c.done->ReceiveBlocking();
	vrt::ev("\"e\":\"sg\",\"k\":%d", k + 1);
	delete c.t;
	delete c.done;
	c.gone = true;
}

static void closeAll(int W)
{
	vrt::waitIdle(true);
	vrt::ev("\"e\":\"idle\"");
	closing = true;
	for (size_t k = 0; k < ctx.size(); ++k)
		if (ctx[k].kind == 0) doWake((int)k);
	sched->WaitEmpty();
	// A task on an infinite wait may be left only if its wakeup was lost.
	vrt::waitIdle(true);
	vrt::ev("\"e\":\"idle\"");
}

static vrt::Scenario make(uint64_t seed, const std::vector<std::string>& args)
{
	vrt::Rng g(seed * 37 + 11);
	vrt::Scenario s;
	if (!args.empty() && args[0] == "raw") {
		int N = g.range(1, 5), slots = g.range(1, 3), nops = g.range(2, 14), dep = g.range(0, 4);
		s.cfgJson = "{\"n\":" + std::to_string(N) + ",\"raw\":1,\"tk\":0}";
		s.body = [=]() {
			rawMode = true; closing = false; tick = false; nextFrame = 0;
			ctx.clear();
			ctx.resize(N);
			for (auto& c : ctx) c.maxDepth = dep;
			rawOps(slots, nops);
			vrt::ev("\"e\":\"fin\"");
		std::vector<Ctx>().swap(ctx);
		};
		return s;
	}
	int W = g.range(1, 3), N = g.range(1, 4), np = g.range(0, 2), nops = g.range(1, 5), dep = g.range(0, 3);
	bool tk = g.chance(1, 5);
	int sub = g.range(1, 4);
	std::vector<int> kinds, left, needs;
	for (int i = 0; i < N; ++i) {
		static const int ks[] = {0, 0, 1, 2};
		kinds.push_back(ks[g.below(4)]);
		left.push_back(g.range(0, 5));
		needs.push_back(kinds[i] != 0 && g.chance(1, 2));
	}
	s.cfg.tickable = tk;
	s.cfgJson = "{\"n\":" + std::to_string(N) + ",\"raw\":0,\"tk\":" + (tk ? "1" : "0") + "}";
	s.body = [=]() {
		vrt::advanceMs(100);
		rawMode = false; closing = false; tick = tk; nextFrame = 0;
		ctx.clear();
		ctx.resize(N);
		TaskScheduler sc("s", sub);
		sched = &sc;
		vrt::ev("\"e\":\"gs\",\"n\":%d", W);
		sc.Start(W);
		std::vector<int> ths;
		for (int i = 0; i < N; ++i) {
			Ctx& c = ctx[i];
			c.kind = kinds[i]; c.left = left[i]; c.needSig = needs[i]; c.maxDepth = dep;
			c.cbLeft = vrt::rng().range(0, 2);
			if (c.kind == 2) c.done = new mg::box::Signal();
			if (vrt::rng().chance(1, 2)) {
				c.t = new Task(makeRoot(i));
			} else {
				c.t = new Task();
				c.t->SetCallback(makeRoot(i));
			}
		}
		for (int i = 0; i < N; ++i) {
			if (ctx[i].kind == 2) ths.push_back(vrt::spawn([=]() { receiver(i); }));
			if (ctx[i].needSig)
				ths.push_back(vrt::spawn([=]() { post(i); if (vrt::rng().chance(1, 2)) mg::box::Sleep(vrt::rng().below(12)); doSignal(i); }));
			else
				post(i);
		}
		for (int p = 0; p < np; ++p)
			ths.push_back(vrt::spawn([=]() {
				for (int i = 0; i < nops; ++i) {
					int k = (int)vrt::rng().below(N);
					if (ctx[k].kind == 0) { if (vrt::rng().chance(1, 2)) doWake(k); else doSignal(k); }
					if (vrt::rng().chance(1, 4)) mg::box::Sleep(vrt::rng().below(6));
				}
			}));
		for (int t : ths) vrt::join(t);
		closeAll(W);
		if (vrt::rng().chance(1, 2)) {
			// Another life of the tasks which stayed.
			closing = false;
			for (int k = 0; k < N; ++k) {
				Ctx& c = ctx[k];
				if (c.kind != 0 || !c.ended) continue;
				destroyBegin(k);
				if (vrt::rng().chance(1, 2)) { delete c.t; destroyEnd(k); c.t = new Task(makeRoot(k)); }
				else {
					// The new body exists before the old one goes.
					Coro n = makeRoot(k);
					c.t->SetCallback(std::move(n));
					vrt::ev("\"e\":\"rp\",\"k\":%d", k + 1);
				}
				c.left = 3;
				post(k);
			}
			closeAll(W);
		}
		sc.Stop();
		vrt::ev("\"e\":\"tr\"");
		for (int k = 0; k < N; ++k) {
			Ctx& c = ctx[k];
			if (c.gone) continue;
			if (!c.ended) { vrt::ev("\"e\":\"leak\",\"k\":%d", k + 1); continue; }
			destroyBegin(k);
			delete c.t;
			destroyEnd(k);
		}
		vrt::ev("\"e\":\"fin\"");
		std::vector<Ctx>().swap(ctx);
	};
	return s;
}

int main(int argc, char** argv)
{
	return vrt::driverMain(argc, argv, make);
}
