// Driver of hosts, URLs, and strings. Events: see spec/text/TextTrace.tla. Texts are arrays of codes.
#include "vrt.h"
#include "mg/box/StringFunctions.h"
#include "mg/net/Host.h"
#include "mg/net/URL.h"
#include <arpa/inet.h>
#include <cstring>

using namespace mg::net;
using vrt::Rng;

static std::string js(const void* p, size_t n)
{
	std::string s = "[";
	for (size_t i = 0; i < n; ++i) s += (i ? "," : "") + std::to_string((int)((const uint8_t*)p)[i]);
	return s + "]";
}
static std::string js(const std::string& s) { return js(s.data(), s.size()); }
static std::string js(uint64_t n) { return js(std::to_string(n)); }

static const char* pick(Rng& g, const char* alphabet, char* c)
{
	c[0] = alphabet[g.below(strlen(alphabet))];
	c[1] = 0;
	return c;
}
static std::string digits(Rng& g, int n)
{
	std::string s;
	for (int i = 0; i < n; ++i) s.push_back((char)('0' + g.below(10)));
	return s;
}
static std::string number(Rng& g)
{
	switch (g.below(10)) {
	case 0: return std::to_string(g.range(65530, 65540));
	case 1: return std::to_string(4294967290ull + g.below(12));
	case 2: return "184467440737095516" + digits(g, 2);
	case 3: return digits(g, g.range(1, 25));
	case 4: return std::string((size_t)g.range(1, 30), '0') + digits(g, g.range(0, 6));
	case 5: return std::to_string(g.below(70000));
	case 6: return "";
	default: return std::to_string(g.below(65536));
	}
}
static std::string numberLike(Rng& g)
{
	std::string s = number(g);
	char c[2];
	if (g.chance(1, 12)) s = pick(g, "+-", c) + s;
	if (g.chance(1, 5)) for (int i = g.range(1, 3); i > 0; --i) s = pick(g, " \t\n\r\v\f", c) + s;
	if (g.chance(1, 12)) s += pick(g, " ax.-+eE:\x80", c);
	if (g.chance(1, 20)) s.insert(g.below(s.size() + 1), pick(g, " -+.x_\xA0", c));
	return s;
}
// Everything is as long as possible.
static thread_local bool isLong;
static std::string octet(Rng& g)
{
	if (isLong) return std::to_string(g.chance(1, 30) ? 256 : g.range(100, 255));
	switch (g.below(12)) {
	case 0: return std::to_string(g.range(250, 260));
	case 1: return g.chance(1, 3) ? "0" + digits(g, g.range(1, 2)) : digits(g, g.range(0, 4));
	case 2: return "0";
	case 3: return "255";
	default: return std::to_string(g.below(256));
	}
}
static std::string v4(Rng& g)
{
	int n = g.chance(1, 15) ? g.range(1, 6) : 4;
	std::string s;
	for (int i = 0; i < n; ++i) s += (i ? "." : "") + octet(g);
	return s;
}
static std::string group(Rng& g)
{
	int n = g.chance(1, 20) ? g.range(0, 6) : g.range(1, 4);
	std::string s;
	char c[2];
	if (isLong) { for (int i = g.chance(1, 30) ? 5 : 4; i > 0; --i) s += pick(g, "123456789abcdefABCDEF", c); return s; }
	if (g.chance(1, 4)) return "0";
	if (g.chance(1, 10)) return "ffff";
	for (int i = 0; i < n; ++i) s += pick(g, "0123456789abcdefABCDEF", c);
	return s;
}
static std::string groups(Rng& g, int n, bool tail4)
{
	std::string s;
	for (int i = 0; i < n; ++i) s += (i ? ":" : "") + (tail4 && i + 1 == n ? v4(g) : group(g));
	return s;
}
static std::string v6(Rng& g)
{
	bool t4 = g.chance(1, 5);
	if (g.chance(1, 3)) return groups(g, (t4 ? 7 : 8) + (g.chance(1, 10) ? g.range(-1, 1) : 0), t4);
	int n = g.range(0, g.chance(1, 6) ? 9 : 7), a = (int)g.below((uint64_t)n + 1);
	return groups(g, a, false) + "::" + groups(g, n - a, t4 && n > a);
}
static std::string mutate(Rng& g, std::string s)
{
	char c[2];
	for (int i = g.range(1, 3); i > 0; --i) {
		size_t at = g.below(s.size() + 1);
		const char* x = pick(g, "0159afAFgz.::[]/%-+ @", c);
		switch (g.below(4)) {
		case 0: s.insert(at, x); break;
		case 1: if (at < s.size()) s.erase(at, (size_t)g.range(1, 2)); break;
		case 2: if (at < s.size()) s[at] = x[0]; break;
		default: if (!s.empty()) s.insert(at, s.substr(g.below(s.size()), (size_t)g.range(1, 6)));
		}
	}
	return s;
}
static std::string hostLike(Rng& g)
{
	std::string s;
	isLong = g.chance(1, 10);
	std::string port = isLong ? std::to_string(g.range(60000, 65535)) : g.chance(1, 2) ? std::to_string(g.below(65536)) : numberLike(g);
	switch (g.below(8)) {
	case 0: case 1: s = v4(g); break;
	case 2: case 3: s = v4(g) + ":" + port; break;
	case 4: s = v6(g); break;
	case 5: s = "[" + v6(g) + "]"; break;
	case 6: s = "[" + v6(g) + "]:" + port; break;
	default: s = g.chance(1, 2) ? "[" + v4(g) + "]" : g.chance(1, 2) ? "localhost" : std::string((size_t)g.range(40, 90), g.chance(1, 2) ? '0' : ':') + (g.chance(1, 2) ? "]" : "");
		if (g.chance(1, 2)) s = "[" + s;
	}
	if (g.chance(1, 4)) s = mutate(g, s);
	return s.c_str();
}
static std::string name(Rng& g)
{
	char c[2];
	std::string s;
	for (int i = g.range(0, 8); i > 0; --i) s += pick(g, "abcXYZ09.-_", c);
	return s;
}
static std::string path(Rng& g)
{
	char c[2];
	std::string s = "/";
	for (int i = g.range(0, 14); i > 0; --i) s += pick(g, "abc09/?&=#:.%[]", c);
	if (g.chance(1, 4)) s += "?u=http://" + name(g) + "/";
	return s;
}
static std::string urlLike(Rng& g)
{
	std::string s;
	if (g.chance(1, 2)) s += (g.chance(1, 8) ? "" : name(g)) + "://";
	s += g.chance(1, 3) ? hostLike(g) : name(g) + (g.chance(1, 2) ? ":" + (g.chance(1, 2) ? std::to_string(g.below(65536)) : numberLike(g)) : "");
	if (g.chance(2, 3)) s += path(g);
	if (g.chance(1, 5)) s = mutate(g, s);
	return s.c_str();
}
static std::string text(Rng& g, const char* alphabet, int max)
{
	char c[2];
	std::string s;
	for (int i = g.range(0, max); i > 0; --i) s += pick(g, alphabet, c);
	return s;
}

static Host* hosts;
static std::string state(int i)
{
	Host& h = hosts[i];
	std::string s = ",\"i\":" + std::to_string(i + 1);
	int f = h.IsSet() ? h.IsIPV4() ? 4 : h.IsIPV6() ? 6 : 9 : 0;
	if ((f == 4) != h.IsIPV4() || (f == 6) != h.IsIPV6()) f = 9;
	if (f != 0) {
		bool ok = h.GetSockaddrSize() == (f == 4 ? sizeof(sockaddr_in) : sizeof(sockaddr_in6)) && h.myAddr.sa_family == (f == 4 ? AF_INET : AF_INET6) &&
			(f == 4 || h.myAddrIn6.sin6_scope_id == 0);
		if (!ok) f = 8;
	}
	s += ",\"f\":" + std::to_string(f);
	s += ",\"a\":" + (f == 4 ? js(&h.myAddrIn.sin_addr, 4) : f == 6 ? js(&h.myAddrIn6.sin6_addr, 16) : std::string("[]"));
	s += ",\"p\":" + std::to_string(f == 4 || f == 6 ? (int)h.GetPort() : 0);
	return s;
}
static void body(int ops)
{
	Rng& g = vrt::rng();
	Host hs[4];
	hosts = hs;
	for (int k = 0; k < ops; ++k) {
		int i = (int)g.below(4), j = (int)g.below(4);
		std::string x;
		switch (g.below(20)) {
		case 0: case 1: case 2: case 3: {
			std::string s = g.chance(1, 10) && hs[j].IsSet() ? hs[j].ToString() : hostLike(g);
			bool r = g.chance(1, 2) ? hs[i].Set(s) : hs[i].Set(s.c_str());
			x = "\"e\":\"set\",\"s\":" + js(s) + ",\"r\":" + std::to_string((int)r) + state(i);
			break;
		}
		case 4: case 5: {
			std::string s = hostLike(g);
			if (g.chance(1, 2)) hs[i] = Host(s); else hs[i] = Host(s.c_str());
			x = "\"e\":\"new\",\"s\":" + js(s) + state(i);
			break;
		}
		case 6: {
			uint16_t p = (uint16_t)g.next();
			int m = (int)g.below(4);
			hs[i] = m == 0 ? HostMakeLocalIPV4(p) : m == 1 ? HostMakeLocalIPV6(p) : m == 2 ? HostMakeAllIPV4(p) : HostMakeAllIPV6(p);
			x = "\"e\":\"mk\",\"k\":" + std::to_string(m) + ",\"n\":" + std::to_string(p) + state(i);
			break;
		}
		case 7: case 8: {
			sockaddr_storage a;
			memset(&a, (int)g.below(256), sizeof(a));
			uint16_t p = (uint16_t)g.next();
			uint8_t b[16];
			for (uint8_t& c : b) c = g.chance(1, 2) ? 0 : (uint8_t)g.next();
			// IPv4 inside of IPv6.
			if (g.chance(1, 4)) { memset(b, 0, 12); if (g.chance(1, 2)) b[10] = b[11] = 255; }
			int f = g.chance(1, 2) ? 4 : 6;
			// Almost the same as another one.
			const Host& o = hs[g.below(4)];
			if (o.IsSet() && g.chance(1, 3)) {
				f = o.IsIPV4() ? 4 : 6;
				if (f == 4) memcpy(b, &o.myAddrIn.sin_addr, 4); else memcpy(b, &o.myAddrIn6.sin6_addr, 16);
				p = o.GetPort();
				if (g.chance(1, 2)) p ^= (uint16_t)(1 << g.below(16)); else b[g.below(f == 4 ? 4 : 16)] ^= (uint8_t)(1 << g.below(8));
			}
			if (f == 4) { a.ss_family = AF_INET; ((sockaddr_in*)&a)->sin_port = htons(p); memcpy(&((sockaddr_in*)&a)->sin_addr, b, 4); }
			else { a.ss_family = AF_INET6; ((sockaddr_in6*)&a)->sin6_port = htons(p); memcpy(&((sockaddr_in6*)&a)->sin6_addr, b, 16); ((sockaddr_in6*)&a)->sin6_scope_id = 0; }
			if (g.chance(1, 2)) hs[i] = Host((const Sockaddr*)&a); else hs[i].Set((const Sockaddr*)&a);
			x = "\"e\":\"sa\",\"f0\":" + std::to_string(f) + ",\"a0\":" + js(b, f == 4 ? 4 : 16) + ",\"p0\":" + std::to_string(p) + state(i);
			break;
		}
		case 9:
			if (!g.chance(1, 3)) continue;
			hs[i].Clear();
			x = "\"e\":\"clr\"" + state(i);
			break;
		case 10: {
			if (!hs[i].IsSet()) continue;
			uint16_t p = (uint16_t)g.next();
			hs[i].SetPort(p);
			x = "\"e\":\"prt\",\"n\":" + std::to_string(p) + state(i);
			break;
		}
		case 11:
			hs[i] = hs[j];
			x = "\"e\":\"cp\",\"j\":" + std::to_string(j + 1) + state(i);
			break;
		case 12:
			x = "\"e\":\"cmp\",\"i\":" + std::to_string(i + 1) + ",\"j\":" + std::to_string(j + 1) + ",\"eq\":" + std::to_string((int)(hs[i] == hs[j])) +
				",\"ne\":" + std::to_string((int)(hs[i] != hs[j])) + ",\"np\":" + std::to_string((int)hs[i].IsEqualNoPort(hs[j]));
			break;
		case 13: case 14:
			x = "\"e\":\"str\",\"i\":" + std::to_string(i + 1) + ",\"s\":" + js(hs[i].ToString()) + ",\"t\":" + js(hs[i].ToStringNoPort());
			break;
		default: continue;
		}
		vrt::ev("%s", x.c_str());
	}
}
static void bodyUrl(int ops)
{
	Rng& g = vrt::rng();
	for (int k = 0; k < ops; ++k) {
		std::string s = urlLike(g);
		URL u = g.chance(1, 2) ? URLParse(s) : URLParse(s.c_str());
		vrt::ev("\"e\":\"url\",\"s\":%s,\"pr\":%s,\"ho\":%s,\"ta\":%s,\"po\":%d", js(s).c_str(), js(u.myProtocol).c_str(), js(u.myHost).c_str(), js(u.myTarget).c_str(),
			(int)u.myPort);
	}
}
template<typename T>
static void num(const std::string& s, int w)
{
	Rng& g = vrt::rng();
	T old = (T)g.next(), v = old;
	bool r = mg::box::StringToNumber(s.c_str(), v);
	vrt::ev("\"e\":\"num\",\"w\":%d,\"s\":%s,\"o\":%s,\"r\":%d,\"v\":%s", w, js(s).c_str(), js((uint64_t)old).c_str(), (int)r, js((uint64_t)v).c_str());
}
static void bodyStr(int ops)
{
	Rng& g = vrt::rng();
	for (int k = 0; k < ops; ++k) {
		switch (g.below(8)) {
		case 0: case 1: num<uint16_t>(numberLike(g), 16); break;
		case 2: num<uint32_t>(numberLike(g), 32); break;
		case 3: num<uint64_t>(numberLike(g), 64); break;
		case 4: case 5: {
			std::string s = text(g, g.chance(1, 2) ? " \t\n\r\v\f" : "a b\tc\xA0\x85\n ", g.chance(1, 3) ? 40 : 6), t = s;
			mg::box::StringTrim(t);
			vrt::ev("\"e\":\"trim\",\"s\":%s,\"t\":%s", js(s).c_str(), js(t).c_str());
			break;
		}
		case 6: {
			std::string s = text(g, "abAB", 20), t = text(g, "abAB", 5);
			const char* p = mg::box::Strcasestr(s.c_str(), t.c_str());
			vrt::ev("\"e\":\"cas\",\"s\":%s,\"t\":%s,\"p\":%d", js(s).c_str(), js(t).c_str(), p ? (int)(p - s.c_str()) + 1 : 0);
			break;
		}
		default: {
			std::string s = text(g, "abc%sd\xFF", g.chance(1, 4) ? 300 : 20);
			if (g.chance(1, 25)) {
				// Around the sizes which a buffer may have.
				size_t len = (size_t)((1 << g.range(5, 12)) + g.range(-6, 2));
				while (s.size() < len) s.push_back((char)('a' + s.size() % 7));
				s.resize(len);
			}
			int n = g.range(0, 1 << g.range(1, 30));
			std::string t = mg::box::StringFormat("%s|%d|", s.c_str(), n);
			vrt::ev("\"e\":\"fmt\",\"s\":%s,\"n\":%d,\"t\":%s", js(s).c_str(), n, js(t).c_str());
		}
		}
	}
}

static vrt::Scenario make(uint64_t seed, const std::vector<std::string>& args)
{
	Rng g(seed * 31 + 17);
	vrt::Scenario s;
	s.cfg.plainYield = false;
	s.cfgJson = "{}";
	int n = g.range(10, 40);
	std::string m = args.at(0);
	s.body = [=]() { if (m == "host") body(n); else if (m == "url") bodyUrl(n / 3); else if (m == "str") bodyStr(n / 2); else abort(); };
	return s;
}

int main(int argc, char** argv)
{
	return vrt::driverMain(argc, argv, make);
}
