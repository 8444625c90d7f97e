// Driver of the sequential objects: heap, lists, time limits, buffers. The first argument
// selects the object; the events are described in spec/seq/*Trace.tla.
#include "vrt.h"
#include "mg/box/BinaryHeap.h"
#include "mg/box/DoublyList.h"
#include "mg/box/ForwardList.h"
#include "mg/box/IOVec.h"
#include "mg/box/Time.h"
#include "mg/net/Buffer.h"
#include <cstring>
#include <deque>
#include <memory>
#include <vector>

using vrt::Rng;
typedef std::vector<int> Ints;
static std::string js(const Ints& v)
{
	std::string s = "[";
	for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
	return s + "]";
}

//////////////////////////////////////////////////////////////////////////////////////////
namespace heap {
// The moved-from state is spoiled, to notice its use.
struct Obj {
	int key = 0, id = 0;
	int32_t myIndex = -1;
	Obj() = default;
	Obj(const Obj&) = default;
	Obj& operator=(const Obj&) = default;
	Obj(Obj&& o) : key(o.key), id(o.id), myIndex(o.myIndex) { o.key = 777; o.id = -1; }
	Obj& operator=(Obj&& o)
	{
		if (this == &o) return *this;
		key = o.key; id = o.id; myIndex = o.myIndex;
		o.key = 777; o.id = -1;
		return *this;
	}
	bool operator<=(const Obj& o) const { return key <= o.key; }
	bool operator>=(const Obj& o) const { return key >= o.key; }
};
static Obj& ref(Obj& o) { return o; }
static Obj& ref(Obj* o) { return *o; }
static const Obj& cref(const Obj& o) { return o; }
static const Obj& cref(const Obj* o) { return *o; }

template <typename H, bool Ptr, bool Intr> static void body(int n, int maxSize, int keys, int bias)
{
	Rng& g = vrt::rng();
	std::vector<std::unique_ptr<Obj>> all;
	std::vector<int> in; // ids in the heap
	H h;
	auto push = [&](Obj* o) {
		if constexpr (Ptr) h.Push(o); else h.Push(*o);
	};
	auto log = [&](const char* op, int id, int k, int ret) {
		const H& ch = h;
		int top = 0, key = 0;
		if (h.Count() > 0) {
			top = ref(h.GetTop()).id;
			key = cref(ch.GetTop()).key;
		}
		std::string ix = "[";
		if (Intr)
			for (size_t i = 0; i < all.size(); ++i) ix += (i ? "," : "") + std::to_string(all[i]->myIndex);
		vrt::ev("\"e\":\"%s\",\"id\":%d,\"k\":%d,\"ret\":%d,\"n\":%u,\"t\":%d,\"tk\":%d,\"ix\":%s]", op, id, k, ret, h.Count(), top, key, ix.c_str());
	};
	auto out = [&](int id) {
		for (size_t i = 0; i < in.size(); ++i) if (in[i] == id) { in.erase(in.begin() + i); return; }
	};
	auto topId = [&]() { return h.Count() ? ref(h.GetTop()).id : 0; };
	auto newKey = [&]() { return bias == 0 ? g.range(1, keys) : bias == 1 ? (int)all.size() / 2 + g.range(0, 2) : 200 - (int)all.size() + g.range(0, 1); };
	log("new", 0, 0, 0);
	if (g.chance(1, 4)) { h.Reserve(g.range(1, 40)); log("res", 0, 0, h.GetCapacity() >= 1); }
	bool drain = false;
	for (int i = 0; i < n; ++i) {
		int a = g.range(0, 9);
		if ((int)in.size() >= maxSize) drain = true;
		if (in.size() < 3) drain = false;
		int tid = topId();
		if (in.empty() && a < 2) {
			if (a == 0) { log("rmtop", 0, 0, h.RemoveTop()); continue; }
			Obj v; Obj* pv = nullptr;
			bool ok;
			if constexpr (Ptr) ok = h.Pop(pv); else ok = h.Pop(v);
			log("pop", 0, 0, ok);
			continue;
		}
		if (in.empty() || (a < (drain ? 2 : 6))) {
			// New elements, and those which were in the heap before.
			Obj* o = nullptr;
			if (Intr && all.size() > in.size() && g.chance(1, 2)) {
				for (auto& p : all) if (p->myIndex == -1 && g.chance(1, 2)) { o = p.get(); break; }
			}
			if (!o) {
				if (all.size() > 40) continue;
				all.emplace_back(new Obj());
				o = all.back().get();
				o->id = (int)all.size();
				if (!Intr) o->myIndex = 12345;
			}
			o->key = newKey();
			push(o);
			in.push_back(o->id);
			log("push", o->id, o->key, 0);
		} else if (a == 6) {
			int k = g.range(1, keys + 2);
			ref(h.GetTop()).key = k;
			h.UpdateTop();
			log("upd", tid, k, 0);
		} else if (a == 7) {
			bool ok = h.RemoveTop();
			out(tid);
			log("rmtop", tid, 0, ok);
		} else if (a == 8 && Intr) {
			int id = in[g.below(in.size())];
			if constexpr (Intr) {
				if (g.chance(1, 2)) {
					h.Remove(all[id - 1].get());
					out(id);
					log("rm", id, 0, 0);
				} else {
					all[id - 1]->key = g.chance(1, 8) ? all[id - 1]->key : g.range(0, keys + 2);
					h.Update(all[id - 1].get());
					log("upd", id, all[id - 1]->key, 0);
				}
			}
		} else {
			int got;
			bool ok;
			if constexpr (Ptr) { Obj* v = nullptr; ok = h.Pop(v); got = v ? v->id : 0; }
			else { Obj v; ok = h.Pop(v); got = v.id; }
			out(got);
			log("pop", got, 0, ok);
		}
	}
	while (h.Count() > 0) {
		int got;
		bool ok;
		if constexpr (Ptr) { Obj* v = nullptr; ok = h.Pop(v); got = v ? v->id : 0; }
		else { Obj v; ok = h.Pop(v); got = v.id; }
		log("pop", got, 0, ok);
		if (!ok) break;
	}
	vrt::ev("\"e\":\"end\"");
}
static void make(Rng& g, vrt::Scenario& s)
{
	int kind = g.range(0, 7);
	if (kind > 5) kind = kind == 6 ? 1 : 4;
	int maxSize = g.chance(1, 2) ? g.range(3, 8) : g.range(8, 36), keys = g.chance(1, 3) ? 3 : 50, bias = g.range(0, 3);
	int n = g.range(4, 12 + maxSize * 2);
	if (bias == 3) bias = 0;
	s.cfgJson = std::string("{\"max\":") + (kind >= 3 ? "1" : "0") + ",\"intr\":" + (kind % 3 == 1 ? "1" : "0") + "}";
	s.body = [=]() {
		switch (kind) {
		case 0: body<mg::box::BinaryHeapMinPtr<Obj>, true, false>(n, maxSize, keys, bias); break;
		case 1: body<mg::box::BinaryHeapMinIntrusive<Obj>, true, true>(n, maxSize, keys, bias); break;
		case 2: body<mg::box::BinaryHeapMin<Obj>, false, false>(n, maxSize, keys, bias); break;
		case 3: body<mg::box::BinaryHeapMaxPtr<Obj>, true, false>(n, maxSize, keys, bias); break;
		case 4: body<mg::box::BinaryHeapMaxIntrusive<Obj>, true, true>(n, maxSize, keys, bias); break;
		case 5: body<mg::box::BinaryHeapMax<Obj>, false, false>(n, maxSize, keys, bias); break;
		}
	};
}
}

//////////////////////////////////////////////////////////////////////////////////////////
namespace list {
struct Item { int pad = 0; Item* myNext = nullptr; Item* myPrev = nullptr; int id = 0; };
typedef mg::box::ForwardList<Item> F;
typedef mg::box::DoublyList<Item> D;
static const int NL = 3;

template <typename L> static void body(int n, int ni)
{
	constexpr bool dbl = std::is_same<L, D>::value;
	Rng& g = vrt::rng();
	std::vector<Item> items(ni + 1);
	Item junk;
	junk.id = 99;
	junk.myNext = &junk;
	junk.myPrev = &junk;
	alignas(L) unsigned char mem[NL][sizeof(L)];
	L* ls[NL];
	for (int i = 0; i < NL; ++i) ls[i] = new (mem[i]) L();
	std::vector<Ints> sh(NL); // what should be there: only to choose the operations
	for (int i = 1; i <= ni; ++i) items[i].id = i;
	std::vector<bool> used(ni + 1);
	auto spoil = [&](Item* i) { i->myNext = &junk; i->myPrev = &junk; };
	for (int i = 1; i <= ni; ++i) spoil(&items[i]);
	auto fetch = [&](int k) {
		Ints r;
		for (int t = 0; t < 4 * ni && (int)r.size() < k; ++t) {
			int i = g.range(1, ni);
			if (!used[i]) { used[i] = true; r.push_back(i); }
		}
		return r;
	};
	auto drop = [&](const Ints& v) { for (int i : v) if (i >= 1 && i <= ni) { used[i] = false; spoil(&items[i]); } };
	auto walk = [&](Item* i) {
		Ints r;
		for (; i != nullptr && (int)r.size() < 2 * ni; i = i->myNext) r.push_back(i->id);
		return r;
	};
	auto chain = [&](const Ints& v, Item*& first, Item*& last) {
		first = last = nullptr;
		for (size_t i = 0; i < v.size(); ++i) {
			Item* x = &items[v[i]];
			x->myNext = i + 1 < v.size() ? &items[v[i + 1]] : &junk;
			x->myPrev = i > 0 ? &items[v[i - 1]] : &junk;
			if (i == 0) first = x;
			last = x;
		}
	};
	auto log = [&](const char* op, int l, int o, const Ints& x, const Ints& ret, int last) {
		std::string st;
		for (int k = 0; k < NL; ++k) {
			L& a = *ls[k];
			const L& ca = a;
			Ints s, c, b;
			for (Item* i : a) { s.push_back(i->id); if ((int)s.size() > 2 * ni) break; }
			for (const Item* i : ca) { c.push_back(i->id); if ((int)c.size() > 2 * ni) break; }
			if constexpr (dbl)
				for (Item* i = a.GetLast(); i && (int)b.size() <= 2 * ni; i = i->myPrev) b.push_back(i->id);
			int f = a.GetFirst() ? a.GetFirst()->id : 0, cf = ca.GetFirst() ? ca.GetFirst()->id : 0;
			int z = a.GetLast() ? a.GetLast()->id : 0, cz = ca.GetLast() ? ca.GetLast()->id : 0;
			if (c != s) s.push_back(1000);
			if (f != cf || z != cz) s.push_back(2000);
			st += std::string(k ? "," : "") + "{\"s\":" + js(s) + ",\"b\":" + js(b) + ",\"f\":" + std::to_string(f) + ",\"z\":" + std::to_string(z) + ",\"em\":" + (a.IsEmpty() ? "1" : "0") + "}";
		}
		vrt::ev("\"e\":\"%s\",\"l\":%d,\"o\":%d,\"x\":%s,\"ret\":%s,\"last\":%d,\"st\":[%s]", op, l + 1, o + 1, js(x).c_str(), js(ret).c_str(), last, st.c_str());
	};
	for (int i = 0; i < n; ++i) {
		int l = g.range(0, NL - 1), o = (l + g.range(1, NL - 1)) % NL;
		L& a = *ls[l];
		Ints& s = sh[l];
		int op = g.range(0, 17);
		Item *f, *z;
		if (op == 0 || op == 1) {
			Ints x = fetch(1);
			if (x.empty()) continue;
			if (op == 0) { a.Append(&items[x[0]]); s.push_back(x[0]); log("app", l, l, x, {}, 0); }
			else { a.Prepend(&items[x[0]]); s.insert(s.begin(), x[0]); log("pre", l, l, x, {}, 0); }
		} else if (op == 2 || op == 3) {
			Ints x = fetch(g.range(0, 3));
			chain(x, f, z);
			if (op == 2) { a.Append(f, z); s.insert(s.end(), x.begin(), x.end()); log("app", l, l, x, {}, 0); }
			else { a.Prepend(f, z); s.insert(s.begin(), x.begin(), x.end()); log("pre", l, l, x, {}, 0); }
		} else if (op == 4) {
			a.Append(std::move(*ls[o]));
			s.insert(s.end(), sh[o].begin(), sh[o].end());
			sh[o].clear();
			log("appl", l, o, {}, {}, 0);
		} else if (op == 5) {
			a.Prepend(std::move(*ls[o]));
			s.insert(s.begin(), sh[o].begin(), sh[o].end());
			sh[o].clear();
			log("prel", l, o, {}, {}, 0);
		} else if (op == 6 || op == 7) {
			if constexpr (!dbl) {
				Ints x = fetch(1);
				if (x.empty()) continue;
				int k = g.range(0, (int)s.size());
				int p = k == 0 ? 0 : s[k - 1];
				a.Insert(p ? &items[p] : nullptr, &items[x[0]]);
				s.insert(s.begin() + k, x[0]);
				log("ins", l, l, {x[0], p}, {}, 0);
			} else {
				if (s.empty()) continue;
				int k = (int)g.below(s.size());
				int p = s[k];
				a.Remove(&items[p]);
				s.erase(s.begin() + k);
				drop({p});
				log("rm", l, l, {p}, {}, 0);
			}
		} else if (op == 8) {
			a.Reverse();
			s = Ints(s.rbegin(), s.rend());
			log("rev", l, l, {}, {}, 0);
		} else if (op == 9) {
			a.Clear();
			drop(s);
			s.clear();
			log("clr", l, l, {}, {}, 0);
		} else if (op == 10) {
			Ints ret;
			int last = -1;
			if (g.chance(1, 2)) ret = walk(a.PopAll());
			else {
				Item* t = &junk;
				ret = walk(a.PopAll(t));
				last = t ? t->id : 0;
			}
			drop(s);
			s.clear();
			log("popall", l, l, {}, ret, last);
		} else if (op == 11 || op == 12) {
			if (s.empty()) continue;
			Item* r;
			if constexpr (dbl) r = op == 11 ? a.PopFirst() : a.PopLast(); else r = a.PopFirst();
			bool back = dbl && op == 12;
			int id = r ? r->id : 0;
			int want = back ? s.back() : s.front();
			if (back) s.pop_back(); else s.erase(s.begin());
			drop({want});
			log(back ? "popl" : "popf", l, l, {}, {id}, 0);
		} else if (op == 13) {
			drop(s);
			a.~L();
			ls[l] = new (mem[l]) L(std::move(*ls[o]));
			s = sh[o];
			sh[o].clear();
			log("mov", l, o, {}, {}, 0);
		} else if (op == 14) {
			drop(s);
			a = std::move(*ls[o]);
			s = sh[o];
			sh[o].clear();
			log("mov", l, o, {}, {}, 0);
		} else if (op == 15) {
			drop(s);
			a.~L();
			Ints x = fetch(g.range(0, 3));
			chain(x, f, z);
			ls[l] = new (mem[l]) L(f, z);
			s = x;
			log("ctor", l, l, x, {}, 0);
		} else if (op == 16) {
			// The visited element may be unlinked or reused during the iteration.
			Ints seen;
			for (Item* it : a) {
				seen.push_back(it->id);
				if ((int)seen.size() > 2 * ni) break;
				if constexpr (dbl) { a.Remove(it); }
				spoil(it);
			}
			if constexpr (!dbl) a.Clear();
			drop(s);
			s.clear();
			log("popall", l, l, {}, seen, -1);
		} else {
			// Elements move to another list while the list is iterated.
			if constexpr (dbl) {
				Ints x;
				for (Item* it : a) {
					if ((int)x.size() > 2 * ni) break;
					if (g.chance(1, 2)) {
						a.Remove(it);
						ls[o]->Append(it);
						x.push_back(it->id);
					}
				}
				Ints rest;
				for (int y : s) { bool m = false; for (int k : x) m |= k == y; if (!m) rest.push_back(y); }
				s = rest;
				sh[o].insert(sh[o].end(), x.begin(), x.end());
				log("sel", l, o, x, {}, 0);
			}
		}
	}
	vrt::ev("\"e\":\"end\"");
}
static void make(Rng& g, vrt::Scenario& s)
{
	bool d = g.chance(1, 2);
	int n = g.chance(1, 2) ? g.range(2, 8) : g.range(8, 30), ni = g.range(2, 9);
	s.cfgJson = std::string("{\"d\":") + (d ? "1" : "0") + "}";
	s.body = [=]() { if (d) body<D>(n, ni); else body<F>(n, ni); };
}
}

//////////////////////////////////////////////////////////////////////////////////////////
namespace tim {
using namespace mg::box;
static uint64_t clk;
static void clock(timespec* t)
{
	t->tv_sec = (time_t)(clk / 1000);
	t->tv_nsec = (long)(clk % 1000) * 1000000 + 999999;
}
static std::string lim(uint64_t v)
{
	return "[" + std::to_string(v >> 48) + "," + std::to_string((v >> 32) & 0xffff) + "," + std::to_string((v >> 16) & 0xffff) + "," + std::to_string(v & 0xffff) + "]";
}
static uint64_t num(Rng& g)
{
	uint64_t d = g.range(0, 5);
	uint64_t b;
	switch (g.range(0, 9)) {
	case 0: return d;
	case 1: return UINT64_MAX - d;
	case 2: b = 1ull << g.range(1, 63); return g.chance(1, 2) ? b - d : b + d;
	case 3: return (uint64_t)INT64_MAX + g.range(-3, 3);
	case 4: return (uint64_t)UINT32_MAX + g.range(-3, 3);
	case 5: return (uint64_t)INT32_MAX + g.range(-3, 3);
	case 6: return UINT64_MAX - clk + g.range(-3, 3);
	case 7: return clk + g.range(-3, 3);
	default: return g.next() >> g.range(0, 63);
	}
}
static void body(int n)
{
	Rng& g = vrt::rng();
	vrt::hookClock = clock;
	for (int i = 0; i < n; ++i) {
		switch (g.range(0, 3)) {
		case 0: clk = g.next() >> g.range(12, 60); break;
		case 1: clk = g.range(0, 10); break;
		case 2: clk = (UINT64_MAX >> 1) - g.range(0, 4000); break;
		default: clk = UINT64_MAX - g.range(0, 10); break;
		}
		if (clk / 1000 > (uint64_t)INT64_MAX) clk = INT64_MAX;
		uint64_t v = num(g);
		const char* op = "";
		uint64_t r = 0;
		int neg = 0;
		switch (g.range(0, 11)) {
		case 0: op = "d2p"; r = TimeDuration(v).ToPointFromNow().myValue; break;
		case 1: op = "d2p"; r = TimeLimit(TimeDuration(v)).ToPointFromNow().myValue; break;
		case 2: op = "id"; r = TimeLimit(TimePoint(v)).ToPointFromNow().myValue; break;
		case 3: op = "id"; r = TimeLimit(TimeDuration(v)).ToDurationFromNow().myValue; break;
		case 4: case 5: op = "p2d"; r = TimeLimit(TimePoint(v)).ToDurationFromNow().myValue; break;
		case 6: { int32_t x = (int32_t)v; op = "int"; neg = x < 0; v = neg ? 0 : (uint64_t)x; r = TimeDuration(x).myValue; break; }
		case 7: { int64_t x = (int64_t)v; op = "int"; neg = x < 0; v = neg ? 0 : (uint64_t)x; r = TimeDuration(x).myValue; break; }
		case 8: { uint32_t x = (uint32_t)v; op = "int"; v = x; r = TimeDuration(x).myValue; break; }
		case 9: { TimeLimit t = TimeDuration(v); t = TimePoint(v); op = "p2d"; r = t.ToDurationFromNow().myValue; break; }
		case 10: { op = "inf"; v = theTimeDurationInf.myValue; r = theTimeDurationInf.ToPointFromNow().myValue; if (theTimePointInf.myValue != r) r = 1; break; }
		case 11: { uint64_t w = num(g); op = "le"; vrt::ev("\"e\":\"le\",\"now\":%s,\"v\":%s,\"r\":%s,\"le\":%d", lim(clk).c_str(), lim(v).c_str(), lim(w).c_str(), (int)(TimePoint(v) <= TimePoint(w))); continue; }
		}
		vrt::ev("\"e\":\"%s\",\"now\":%s,\"v\":%s,\"r\":%s,\"le\":%d", op, lim(clk).c_str(), lim(v).c_str(), lim(r).c_str(), neg);
	}
	vrt::ev("\"e\":\"end\"");
	vrt::hookClock = nullptr;
}
static void make(Rng&, vrt::Scenario& s) { s.cfgJson = "{}"; s.body = []() { body(40); }; }
}

//////////////////////////////////////////////////////////////////////////////////////////
namespace net {
using namespace mg::net;
using mg::box::IOVec;
static const int M = 251;
static uint8_t* pat; // pat[i] = i % M
static const int PATN = 20000;

// Run-length form of bytes: [[first, length], ...]; within a run each byte is the previous
// one plus 1 modulo M.
struct Runs {
	std::string out = "[";
	int v = 0, n = 0;
	bool any = false;
	uint64_t total = 0;
	void flush() { if (n) { out += std::string(any ? "," : "") + "[" + std::to_string(v) + "," + std::to_string(n) + "]"; any = true; } n = 0; }
	void add(const void* p, uint64_t len)
	{
		total += len;
		for (uint64_t i = 0; i < len; ++i) {
			int b = ((const uint8_t*)p)[i];
			if (n > 0 && b == (v + n) % M) ++n;
			else { flush(); v = b; n = 1; }
		}
	}
	std::string str() { flush(); return out + "]"; }
};
static std::string chainRuns(const Buffer* b)
{
	Runs r;
	for (int i = 0; b && i < 1000; b = b->myNext.GetPointer(), ++i) r.add(b->myRData, b->myPos);
	return r.str();
}
typedef mg::box::ThreadGlobalPool<BufferCopy, mg::box::theThreadLocalBatchSize> GPool;

static void inThread(const std::function<void()>& f)
{
	// The pools of the thread are returned at its end.
	new (&GPool::GetInstance()) GPool();
	pat = new uint8_t[PATN];
	for (int i = 0; i < PATN; ++i) pat[i] = i % M;
	vrt::join(vrt::spawn(f));
	delete[] pat;
	new (&GPool::GetInstance()) GPool();
	vrt::leakOk();
}

static uint64_t size(Rng& g, uint64_t maxv)
{
	const uint64_t B = theBufferCopySize;
	uint64_t r;
	switch (g.range(0, 7)) {
	case 0: r = 0; break;
	case 1: r = B + g.range(-2, 2); break;
	case 2: r = 2 * B + g.range(-2, 2); break;
	case 3: r = g.range(1, 4); break;
	case 4: r = maxv; break;
	case 5: r = maxv > 3 ? maxv - g.range(0, 3) : maxv; break;
	case 6: r = g.below(maxv + 1); break;
	default: r = g.range(1, 3000); break;
	}
	return r > maxv ? maxv : r;
}

static void streamBody(int n, bool tiny)
{
	Rng& g = vrt::rng();
	std::deque<std::vector<uint8_t>> mem;
	uint64_t w = 0;
	struct Popped { Buffer::Ptr p; };
	std::vector<Buffer::Ptr> popped;
	BufferStream s;
	BufferReadStream rs(s);
	auto fill = [&](uint8_t* p, uint64_t k) { for (uint64_t i = 0; i < k; ++i) p[i] = (uint8_t)((w + i) % M); w += k; };
	auto log = [&](const char* op, uint64_t k, const std::string& runs, uint64_t x) {
		const Buffer* b = s.GetReadPos();
		Runs c;
		for (int i = 0; b && i < 1000; b = b->myNext.GetPointer(), ++i) c.add(b->myRData, b->myPos);
		uint64_t ws = 0;
		int bad = 0;
		Buffer* q = s.GetWritePos();
		for (int i = 0; q && i < 1000; q = q->myNext.GetPointer(), ++i) {
			ws += q->myCapacity - q->myPos;
			if (i > 0 && q->myPos != 0) bad = 1;
			if (q->myCapacity == q->myPos) bad = 1;
		}
		vrt::ev("\"e\":\"%s\",\"n\":%llu,\"runs\":%s,\"x\":%llu,\"rs\":%llu,\"rr\":%llu,\"ws\":%llu,\"wc\":%llu,\"bad\":%d,\"em\":%d,\"c\":%s", op, (unsigned long long)k,
			runs.c_str(), (unsigned long long)x, (unsigned long long)s.GetReadSize(), (unsigned long long)rs.GetReadSize(),
			(unsigned long long)s.GetWriteSize(), (unsigned long long)ws, bad, s.IsEmpty() ? 1 : 0, c.str().c_str());
	};
	log("new", 0, "[]", 0);
	for (int i = 0; i < n; ++i) {
		int op = g.range(0, 13);
		uint64_t have = s.GetReadSize();
		if (have > 9000) op = 6 + (int)g.below(3);
		if (op <= 1) {
			uint64_t k = tiny ? g.below(6) : size(g, 3000);
			std::vector<uint8_t> d(k + 1);
			fill(d.data(), k);
			s.WriteCopy(d.data(), k);
			log("wr", k, "[]", 0);
		} else if (op <= 3) {
			// Raw buffers, some with free space at the end.
			Buffer::Ptr head;
			Buffer* tail = nullptr;
			uint64_t k = 0;
			for (int j = 0, c = g.range(0, 3); j < c; ++j) {
				uint64_t len = g.chance(1, 4) && !tiny ? (uint64_t)g.range(1, 1500) : (uint64_t)g.range(1, 5);
				Buffer::Ptr b;
				if (g.chance(1, 4)) {
					std::vector<uint8_t> d(len);
					fill(d.data(), len);
					b = BuffersCopy(d.data(), len);
				} else {
					uint64_t cap = len + (g.chance(1, 2) ? g.range(1, 5) : 0);
					mem.emplace_back(cap);
					memset(mem.back().data(), 0xFF, cap);
					fill(mem.back().data(), len);
					b = cap == len && g.chance(1, 2) ? Buffer::Ptr(BufferRaw::NewShared(mem.back().data(), (uint32_t)len)) :
						Buffer::Ptr(BufferRaw::NewShared(mem.back().data(), (uint32_t)len, (uint32_t)cap));
				}
				k += len;
				Buffer* raw = b.GetPointer();
				if (tail) tail->myNext = std::move(b); else head = std::move(b);
				tail = raw;
				while (tail->myNext.IsSet()) tail = tail->myNext.GetPointer();
			}
			s.WriteRef(std::move(head));
			log("wr", k, "[]", 0);
		} else if (op == 4) {
			uint64_t k = tiny ? g.below(6) : size(g, 3000);
			s.EnsureWriteSize(k);
			log("res", k, "[]", 0);
		} else if (op == 5 || op == 13) {
			// What a receiving socket does.
			if (!s.GetWritePos()) continue;
			IOVec v[4];
			uint32_t max = g.range(1, 4), cnt = BuffersToIOVecsForRead(s.GetWritePos(), v, max);
			uint64_t total = 0;
			for (uint32_t j = 0; j < cnt; ++j) {
				memset(v[j].myData, 0xEE, v[j].mySize);
				total += v[j].mySize;
			}
			log("vec", total, "[]", cnt < max ? 1 : 0);
			uint64_t k = g.chance(1, 3) ? total : tiny ? g.below(std::min<uint64_t>(total, 6) + 1) : size(g, total), left = k;
			for (uint32_t j = 0; j < cnt; ++j) {
				uint64_t m = v[j].mySize < left ? v[j].mySize : left;
				fill((uint8_t*)v[j].myData, m);
				left -= m;
			}
			s.PropagateWritePos(k);
			log("prop", k, "[]", 0);
		} else if (op == 6) {
			uint64_t k = tiny ? std::min<uint64_t>(g.below(6), have) : size(g, have);
			if (g.chance(1, 2)) s.SkipData(k); else rs.SkipData(k);
			log("skip", k, "[]", 0);
		} else if (op == 7 || op == 8) {
			uint64_t k = tiny ? std::min<uint64_t>(g.below(6), have) : size(g, have);
			std::vector<uint8_t> d(k + 1);
			d[k] = 0xAB;
			if (g.chance(1, 2)) s.ReadData(d.data(), k); else rs.ReadData(d.data(), k);
			Runs r;
			r.add(d.data(), k);
			log("read", k, r.str(), d[k] == 0xAB);
		} else if (op == 9) {
			uint64_t k = size(g, have);
			std::vector<uint8_t> d(k + 1);
			d[k] = 0xAB;
			if (g.chance(1, 2)) s.PeekData(d.data(), k); else rs.PeekData(d.data(), k);
			Runs r;
			r.add(d.data(), k);
			log("peek", k, r.str(), d[k] == 0xAB);
		} else if (op == 10 || op == 11) {
			popped.push_back(s.PopData());
			log("pop", 0, chainRuns(popped.back().GetPointer()), 0);
		} else if (op == 12) {
			if (g.chance(1, 4)) { s.Clear(); log("clr", 0, "[]", 0); }
			else if (g.chance(1, 3)) { s.ToString(); }
			else if (!popped.empty()) {
				int j = (int)g.below(popped.size());
				log("chk", j + 1, chainRuns(popped[j].GetPointer()), 0);
			}
		}
	}
	for (size_t j = 0; j < popped.size(); ++j) log("chk", j + 1, chainRuns(popped[j].GetPointer()), 0);
	uint64_t k = s.GetReadSize();
	std::vector<uint8_t> d(k + 1);
	d[k] = 0xAB;
	s.ReadData(d.data(), k);
	Runs r;
	r.add(d.data(), k);
	log("read", k, r.str(), d[k] == 0xAB);
	vrt::ev("\"e\":\"end\"");
}
static void makeStream(Rng& g, vrt::Scenario& s)
{
	int n = g.chance(1, 2) ? g.range(2, 8) : g.range(8, 25);
	bool tiny = g.chance(1, 2);
	s.cfgJson = "{}";
	s.body = [=]() { inThread([=]() { streamBody(n, tiny); }); };
}

struct Own { Buffer::Ptr p; bool here = false; };
static void chainBody(int n)
{
	Rng& g = vrt::rng();
	const int NL = 3;
	BufferLinkList ls[NL];
	uint32_t off[NL] = {0, 0, 0};
	std::vector<Own> own;
	std::vector<const void*> raws;
	auto runsOf = [&](const std::vector<IOVec>& v) {
		Runs r;
		for (const IOVec& x : v) r.add(x.myData, x.mySize);
		return r.str();
	};
	auto gather = [&](int l, uint32_t max, bool byLink) {
		std::vector<IOVec> v(max + 1);
		uint32_t c = byLink ? BuffersToIOVecsForWrite(ls[l].GetFirst(), off[l], v.data(), max) : BuffersToIOVecsForWrite(ls[l], off[l], v.data(), max);
		v.resize(c <= max ? c : 0);
		return v;
	};
	auto content = [&](int l) { return runsOf(gather(l, 400, true)); };
	auto log = [&](const char* op, int l, int c, const std::string& b, uint64_t x, uint64_t k, const std::string& runs, int full) {
		std::string st, ow;
		for (int i = 0; i < NL; ++i)
			st += std::string(i ? "," : "") + "{\"em\":" + (ls[i].IsEmpty() ? "1" : "0") + ",\"c\":" + content(i) + "}";
		for (size_t i = 0; i < own.size(); ++i)
			ow += std::string(i ? "," : "") + (own[i].here ? chainRuns(own[i].p.GetPointer()) : "[]");
		vrt::ev("\"e\":\"%s\",\"l\":%d,\"c\":%d,\"b\":%s,\"x\":%llu,\"k\":%llu,\"runs\":%s,\"full\":%d,\"st\":[%s],\"own\":[%s]", op, l + 1, c, b.c_str(),
			(unsigned long long)x, (unsigned long long)k, runs.c_str(), full, st.c_str(), ow.c_str());
	};
	auto mk = [&](std::string& b) {
		Buffer::Ptr head;
		Buffer* tail = nullptr;
		b = "[";
		for (int j = 0, c = g.range(1, 4); j < c; ++j) {
			int len = g.chance(1, 4) ? 0 : g.chance(1, 12) ? g.range(900, 2200) : g.range(1, 4), st = g.range(0, M - 1);
			Buffer::Ptr x;
			if (len > 0 && g.chance(1, 5)) x = BuffersCopy(pat + st, len);
			else if (g.chance(1, 8)) { len = 0; x = BufferCopy::NewShared(); }
			else {
				x = BufferRaw::NewShared(pat + st, (uint32_t)len, (uint32_t)len + (g.chance(1, 4) ? 3 : 0));
				raws.push_back(x.GetPointer());
			}
			b += std::string(j ? "," : "") + "[" + std::to_string(st) + "," + std::to_string(len) + "]";
			Buffer* raw = x.GetPointer();
			if (tail) tail->myNext = std::move(x); else head = std::move(x);
			tail = raw;
			while (tail->myNext.IsSet()) tail = tail->myNext.GetPointer();
		}
		b += "]";
		return head;
	};
	auto total = [&](int l) {
		uint64_t t = 0;
		for (const IOVec& x : gather(l, 400, true)) t += x.mySize;
		return t;
	};
	auto anyOwn = [&]() -> int {
		std::vector<int> c;
		for (size_t i = 0; i < own.size(); ++i) if (own[i].here) c.push_back((int)i);
		return c.empty() ? -1 : c[g.below(c.size())];
	};
	for (int i = 0; i < n; ++i) {
		int l = g.range(0, NL - 1), op = g.range(0, 15);
		std::string b = "[]";
		if (op <= 1) {
			if (own.size() > 5) continue;
			own.emplace_back();
			own.back().p = mk(b);
			own.back().here = true;
			log("mk", 0, (int)own.size(), b, 0, 0, "[]", 0);
		} else if (op <= 3) {
			int c = anyOwn();
			if (c < 0) continue;
			bool mv = g.chance(1, 4);
			if (mv) { ls[l].AppendRef(std::move(own[c].p)); own[c].here = false; }
			else if (g.chance(1, 2)) ls[l].AppendRef(own[c].p);
			else ls[l].AppendRef(own[c].p.GetPointer());
			log("ref", l, c + 1, b, mv ? 1 : 0, 0, "[]", 0);
		} else if (op == 4) {
			uint64_t len = g.chance(1, 4) ? g.range(800, 2500) : g.range(0, 5);
			int st = g.range(0, M - 1);
			if (g.chance(1, 2)) ls[l].AppendRef(pat + st, len);
			else {
				// The original may be changed after copying.
				std::vector<uint8_t> d(pat + st, pat + st + len);
				ls[l].AppendCopy(d.data(), len);
				memset(d.data(), 0xEE, len);
			}
			log("add", l, 0, "[[" + std::to_string(st) + "," + std::to_string(len) + "]]", 0, 0, "[]", 0);
		} else if (op == 5) {
			// Several links at once; a link may have no buffers.
			BufferLink *head = nullptr, *tail = nullptr;
			std::string cs = "[";
			for (int j = 0, k = g.range(0, 3); j < k; ++j) {
				int c = g.chance(1, 5) ? -1 : anyOwn();
				BufferLink* x = c < 0 ? new BufferLink() : g.chance(1, 2) ? new BufferLink(own[c].p) : new BufferLink(own[c].p.GetPointer());
				cs += std::string(j ? "," : "") + std::to_string(c + 1);
				if (tail) tail->myNext = x; else head = x;
				tail = x;
			}
			if (g.chance(1, 4)) {
				Runs r;
				Buffer::Ptr cp = BuffersCopy((const BufferLink*)head);
				log("cpl", l, 0, cs + "]", 0, 0, chainRuns(cp.GetPointer()), 0);
			}
			ls[l].AppendMove(head);
			log("lnk", l, 0, cs + "]", 0, 0, "[]", 0);
		} else if (op == 6) {
			int o = (l + g.range(1, NL - 1)) % NL;
			if (off[o] != 0) continue;
			ls[l].Append(std::move(ls[o]));
			log("app", l, o + 1, b, 0, 0, "[]", 0);
		} else if (op <= 10) {
			// A send: some vectors are offered, a part of them is taken.
			uint32_t max = g.chance(1, 6) ? 128 : g.range(1, 4);
			std::vector<IOVec> v = gather(l, max, g.chance(1, 2));
			uint64_t t = 0;
			for (const IOVec& x : v) t += x.mySize;
			log("vec", l, 0, b, v.size(), max, runsOf(v), v.size() < max ? 1 : 0);
			uint64_t k = g.chance(1, 3) ? t : t == 0 ? 0 : g.chance(1, 2) ? g.below(std::min<uint64_t>(t, 5) + 1) : g.below(t + 1);
			if (!v.empty() && g.chance(1, 2)) {
				IOVec* p = v.data();
				uint32_t c = (uint32_t)v.size();
				mg::box::IOVecPropagate(p, c, (uint32_t)k);
				std::vector<IOVec> rest(p, p + c);
				log("ivp", l, 0, b, max, k, runsOf(rest), 0);
			}
			ls[l].SkipData(off[l], k);
			log("skip", l, 0, b, 0, k, "[]", 0);
			if (g.chance(1, 2)) {
				ls[l].SkipEmptyPrefix(off[l]);
				log("sep", l, 0, b, 0, 0, "[]", 0);
			}
		} else if (op == 11) {
			ls[l].SkipEmptyPrefix(off[l]);
			log("sep", l, 0, b, 0, 0, "[]", 0);
		} else if (op == 12) {
			int c = anyOwn();
			if (c >= 0 && g.chance(1, 2)) {
				Buffer::Ptr cp = g.chance(1, 2) ? BuffersCopy(own[c].p) : BuffersCopy(own[c].p.GetPointer());
				log("cpc", 0, c + 1, b, 0, 0, chainRuns(cp.GetPointer()), 0);
			} else if (off[l] == 0) {
				Buffer::Ptr cp = BuffersCopy(ls[l].GetFirst());
				log("cp", l, 0, b, 0, 0, chainRuns(cp.GetPointer()), 0);
			}
		} else if (op == 13) {
			int c = anyOwn();
			if (c < 0) continue;
			if (g.chance(1, 2)) {
				own[c].p.Clear();
				own[c].here = false;
				log("drop", 0, c + 1, b, 0, 0, "[]", 0);
			} else {
				std::vector<IOVec> v(10);
				uint32_t max = g.range(1, 9), k = BuffersToIOVecsForWrite(own[c].p, 0, v.data(), max);
				v.resize(k);
				log("vecc", 0, c + 1, b, k, max, runsOf(v), k < max ? 1 : 0);
			}
		} else if (op == 14) {
			if (g.chance(1, 3)) { ls[l].Clear(); off[l] = 0; log("clr", l, 0, b, 0, 0, "[]", 0); continue; }
			// A chain which nobody shares: consumed and extended in place.
			std::string bb;
			uint64_t len = g.chance(1, 3) ? g.range(800, 3000) : g.range(1, 6);
			int st = g.range(0, M - 1);
			Buffer::Ptr p = g.chance(1, 2) ? BuffersCopy(pat + st, len) : BuffersRef(pat + st, len);
			uint64_t k = g.chance(1, 4) ? len : g.below(len + 1);
			BuffersPropagateOnRead(p, k);
			log("por", 0, 0, "[[" + std::to_string(st) + "," + std::to_string(len) + "]]", 0, k, chainRuns(p.GetPointer()), 0);
		} else {
			uint64_t len = g.range(0, 3000), pre = g.range(0, 5);
			int st = g.range(0, M - 1);
			Buffer::Ptr p = BufferCopy::NewShared();
			p->myNext = BufferCopy::NewShared();
			p->myNext->myNext = BufferCopy::NewShared();
			uint64_t space = 3 * theBufferCopySize;
			if (pre + len > space) len = space - pre;
			if (g.chance(1, 6)) len = theBufferCopySize * g.range(1, 2) - pre;
			memcpy(p->myWData, pat + st, pre);
			p->myPos = (uint32_t)pre;
			uint64_t left = len, at = pre;
			for (Buffer* x = p.GetPointer(); x && left; x = x->myNext.GetPointer()) {
				uint64_t m = std::min<uint64_t>(left, x->myCapacity - x->myPos);
				memcpy(x->myWData + x->myPos, pat + st + at, m);
				at += m;
				left -= m;
			}
			Buffer* e = BuffersPropagateOnWrite(p.GetPointer(), len);
			// Returns the buffer where the writing ended.
			int idx = 0, pos = -1;
			for (Buffer* x = p.GetPointer(); x; x = x->myNext.GetPointer(), ++idx) if (x == e) pos = idx;
			log("pow", 0, pos, "[[" + std::to_string(st) + "," + std::to_string(pre + len) + "]]", 0, (uint64_t)theBufferCopySize, chainRuns(p.GetPointer()), (int)len);
		}
	}
	for (int l = 0; l < NL; ++l) {
		for (int i = 0; i < 1000 && total(l) > 0; ++i) {
			std::vector<IOVec> v = gather(l, 2, true);
			uint64_t t = 0;
			for (const IOVec& x : v) t += x.mySize;
			log("vec", l, 0, "[]", v.size(), 2, runsOf(v), v.size() < 2 ? 1 : 0);
			uint64_t k = g.chance(1, 2) ? t : 1 + g.below(t);
			ls[l].SkipData(off[l], k);
			log("skip", l, 0, "[]", 0, k, "[]", 0);
		}
		ls[l].SkipEmptyPrefix(off[l]);
		log("sep", l, 0, "[]", 0, 0, "[]", 0);
	}
	own.clear();
	int live = 0;
	for (const void* p : raws) live += !vrt::isFreed(p);
	vrt::ev("\"e\":\"end\",\"k\":%d", live);
}
static void bigBody()
{
	Rng& g = vrt::rng();
	for (int i = 0; i < 3; ++i) {
		uint64_t n = g.chance(1, 2) ? (uint64_t)UINT32_MAX * g.range(1, 3) + g.range(-3, 3) : g.next() >> g.range(29, 50);
		Buffer::Ptr p = BuffersRef((const void*)4096, n);
		std::string s;
		bool first = true;
		for (Buffer* b = p.GetPointer(); b; b = b->myNext.GetPointer(), first = false)
			s += std::string(first ? "" : ",") + "[" + tim::lim((uint64_t)b->myRData - 4096) + "," + tim::lim(b->myPos) + "]";
		vrt::ev("\"e\":\"big\",\"n\":%s,\"p\":[%s]", tim::lim(n).c_str(), s.c_str());
	}
	vrt::ev("\"e\":\"end\",\"k\":0");
}
static void makeChain(Rng& g, vrt::Scenario& s)
{
	int n = g.chance(1, 2) ? g.range(2, 8) : g.range(8, 25);
	bool big = g.chance(1, 60);
	s.cfgJson = "{}";
	s.body = [=]() { inThread([=]() { if (big) bigBody(); else chainBody(n); }); };
}
}

static vrt::Scenario make(uint64_t seed, const std::vector<std::string>& args)
{
	Rng g(seed * 31 + 7);
	vrt::Scenario s;
	s.cfg.plainYield = false;
	const std::string& m = args.at(0);
	if (m == "heap") heap::make(g, s);
	else if (m == "list") list::make(g, s);
	else if (m == "time") tim::make(g, s);
	else if (m == "stream") net::makeStream(g, s);
	else if (m == "chain") net::makeChain(g, s);
	else abort();
	return s;
}

int main(int argc, char** argv)
{
	return vrt::driverMain(argc, argv, make);
}
