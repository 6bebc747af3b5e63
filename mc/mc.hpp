// Small explicit-state / stateless exploration kernel used by every harness.
//
//  * a harness is a set of named sections; each section is run in its own process by tools/run.py
//  * mc::state(desc)  : a new enumerated state (input shape, history prefix, ...); desc is evaluated lazily
//  * mc::trace()      : one complete execution of the driver body on the real code
//  * mc::eq / mc::ok  : one transition = one call of the real code compared with the oracle
//  * mc::explore      : depth-first enumeration of every outcome of every choice (environment answers)
//  * mc::bfs          : breadth-first explicit-state search with deduplication over real objects + model
#ifndef MC_HPP
#define MC_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <unordered_map>
#include <sstream>
#include <functional>
#include <type_traits>
#include <deque>
#include <limits>
#include <algorithm>
#include <exception>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>

namespace mc {
	struct Section { const char* name; void (*fn)(); };
	inline std::vector<Section>& sections() { static std::vector<Section> v; return v; }
	struct Reg { Reg(const char* n, void (*f)()) { Section s = {n, f}; sections().push_back(s); } };

	struct OpStat { uint64_t n; std::unordered_set<uint64_t> outcomes; OpStat() : n(0) {} };
	struct Fail { std::string op, state, detail; uint64_t index; uint64_t count; };
	struct Global {
		const char* section;
		uint64_t states, transitions, traces;
		uint64_t fails;
		std::map<std::string, OpStat> ops;
		std::vector<Fail> failures;
		std::map<std::string, uint64_t> failcount;
		std::vector<std::string> samples;
		std::vector<std::pair<std::string, std::string> > bounds;
		void const* desc_obj;
		std::string (*desc_fn)(void const*);
		std::string desc_copy; uint64_t desc_at;
		const char* cur_op;
		bool thorough;
		uint64_t stop_at; // replay: stop after this state
		FILE* out;
		Global() : section(""), states(0), transitions(0), traces(0), fails(0), desc_obj(0), desc_fn(0), desc_at(0), cur_op(""), thorough(false), stop_at(0), out(0) {}
	};
	inline Global& g() { static Global* x = new Global(); return *x; }
	inline bool thorough() { return g().thorough; }

	inline std::string jesc(std::string const& s) {
		std::string r;
		for (size_t i = 0; i < s.size(); ++i) {
			unsigned char c = s[i];
			if (c == '"' || c == '\\') { r += '\\'; r += c; }
			else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
			else r += c;
		}
		return r;
	}
	inline std::string describe() {
		Global& G = g();
		return G.desc_fn ? G.desc_fn(G.desc_obj) : G.desc_copy;
	}
	// --- state description: RAII so that the described locals are alive
	template<class F> struct StateScope {
		F f; void const* po; std::string (*pf)(void const*);
		static std::string call(void const* p) { return (*static_cast<F const*>(p))(); }
		explicit StateScope(F const& f_) : f(f_) {
			Global& G = g();
			po = G.desc_obj; pf = G.desc_fn;
			G.desc_obj = &f; G.desc_fn = &StateScope::call;
		}
		StateScope(StateScope const& o) : f(o.f), po(o.po), pf(o.pf) { g().desc_obj = &f; }
		~StateScope() {
			Global& G = g();
			// an exception escapes through this state: keep its description for the report
			if (std::uncaught_exception() && G.desc_at != G.states) { G.desc_at = G.states; G.desc_copy = f(); }
			G.desc_obj = po; G.desc_fn = pf;
		}
	};
	void finish(const char* status);
	inline void count_state() {
		Global& G = g();
		if (G.stop_at && G.states == G.stop_at) { finish("ok"); _exit(G.fails ? 1 : 0); }
		++G.states;
	}
	inline void sample() {
		Global& G = g();
		// keep the 1st, 10th, 100th, ... state: measured, deterministic
		static uint64_t next = 1;
		if (G.states >= next && G.samples.size() < 8) { G.samples.push_back(std::string(G.section) + ": " + describe()); next *= 10; }
	}
	template<class F> inline StateScope<F> state(F const& f) {
		count_state();
		StateScope<F> s(f);
		sample();
		return s;
	}
	#define MC_CAT2(a, b) a##b
	#define MC_CAT(a, b) MC_CAT2(a, b)
	#define MC_STATE(...) auto MC_CAT(mc_state_, __LINE__) = ::mc::state([&]() -> std::string { return __VA_ARGS__; }); (void)MC_CAT(mc_state_, __LINE__)
	// re-describe without counting a new state
	#define MC_DESC(...) auto MC_CAT(mc_desc_f_, __LINE__) = [&]() -> std::string { return __VA_ARGS__; }; ::mc::StateScope<decltype(MC_CAT(mc_desc_f_, __LINE__))> MC_CAT(mc_desc_, __LINE__)(MC_CAT(mc_desc_f_, __LINE__))
	inline void trace() { ++g().traces; }
	inline void bound(std::string const& k, std::string const& v) { g().bounds.push_back(std::make_pair(k, v)); }

	inline void report(const char* op, std::string const& detail) {
		Global& G = g();
		++G.fails;
		uint64_t& c = G.failcount[op];
		if (++c <= 12) {
			Fail f; f.op = op; f.state = describe(); f.detail = detail; f.index = G.states; f.count = c;
			G.failures.push_back(f);
		}
	}

	// --- printing
	template<class T> struct has_stream {
		template<class U> static auto t(U const* u) -> decltype(std::declval<std::ostream&>() << *u, std::true_type());
		static std::false_type t(...);
		static const bool value = decltype(t((typename std::remove_reference<T>::type*)0))::value;
	};
	inline std::string str(bool b) { return b ? "true" : "false"; }
	inline std::string str(char c) { char b[16]; if (c >= 0x20 && c < 0x7f) { b[0] = '\''; b[1] = c; b[2] = '\''; b[3] = 0; } else std::snprintf(b, sizeof b, "\\x%02x", (unsigned char)c); return b; }
	inline std::string str(signed char c) { return std::to_string((int)c); }
	inline std::string str(unsigned char c) { return std::to_string((int)c); }
	inline std::string str(wchar_t c) { return std::to_string((long)c); }
	inline std::string str(char16_t c) { return std::to_string((long)c); }
	inline std::string str(char32_t c) { return std::to_string((long)c); }
	inline std::string str(float v) { char b[64]; std::snprintf(b, sizeof b, "%.9g(%a)", (double)v, (double)v); return b; }
	inline std::string str(double v) { char b[64]; std::snprintf(b, sizeof b, "%.17g(%a)", v, v); return b; }
	inline std::string str(long double v) { char b[96]; std::snprintf(b, sizeof b, "%.21Lg(%La)", v, v); return b; }
	inline std::string str(std::string const& s) { return "\"" + s + "\""; }
	inline std::string str(char const* s) { return s ? "\"" + std::string(s) + "\"" : "null"; }
	template<class A, class B> std::string str(std::pair<A, B> const& p);
	template<class T> std::string str(std::vector<T> const& v);
	template<class T> typename std::enable_if<std::is_enum<T>::value, std::string>::type str(T v) { return std::to_string((long long)v); }
	template<class T> typename std::enable_if<!std::is_enum<T>::value && has_stream<T>::value, std::string>::type str(T const& v) { std::ostringstream s; s << v; return s.str(); }
	template<class T> typename std::enable_if<!std::is_enum<T>::value && !has_stream<T>::value, std::string>::type str(T const&) { return "<obj>"; }
	template<class A, class B> std::string str(std::pair<A, B> const& p) { return "(" + str(p.first) + "," + str(p.second) + ")"; }
	template<class T> std::string str(std::vector<T> const& v) {
		std::string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += str((T)v[i]); } return r + "]";
	}
	template<class It> std::string strr(It f, It l) { std::string r = "["; bool c = false; for (; f != l; ++f) { if (c) r += ","; c = true; r += str(*f); } return r + "]"; }

	// --- outcome hashing, so that the evidence shows how many distinct outcomes were seen
	inline uint64_t hmix(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h; }
	template<class T> typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value, uint64_t>::type hval(T const& v) { return (uint64_t)v * 0x9e3779b97f4a7c15ull; }
	template<class T> typename std::enable_if<std::is_floating_point<T>::value, uint64_t>::type hval(T const& v) { double d = (double)v; uint64_t u; std::memcpy(&u, &d, 8); return u * 0x9e3779b97f4a7c15ull; }
	template<class T> typename std::enable_if<std::is_pointer<T>::value, uint64_t>::type hval(T const& v) { return v ? 1 : 0; }
	inline uint64_t hval(std::string const& s) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < s.size(); ++i) h = (h ^ (unsigned char)s[i]) * 1099511628211ull; return h; }
	template<class T> typename std::enable_if<!std::is_integral<T>::value && !std::is_enum<T>::value && !std::is_floating_point<T>::value && !std::is_pointer<T>::value, uint64_t>::type hval(T const& v) { return hval(str(v)); }
	template<class A, class B> uint64_t hval(std::pair<A, B> const& v);
	template<class T> uint64_t hval(std::vector<T> const& v) { uint64_t h = v.size(); for (size_t i = 0; i < v.size(); ++i) h = hmix(h, hval((T)v[i])); return h; }
	template<class A, class B> uint64_t hval(std::pair<A, B> const& v) { return hmix(hval(v.first), hval(v.second)); }
	

	inline OpStat& opstat(const char* op) {
		static std::unordered_map<const char*, OpStat*> cache; // by address of the literal
		std::unordered_map<const char*, OpStat*>::iterator i = cache.find(op);
		if (i != cache.end()) return *i->second;
		OpStat* s = &g().ops[op];
		cache[op] = s;
		return *s;
	}
	inline void hit(const char* op, uint64_t h) {
		Global& G = g();
		++G.transitions;
		OpStat& s = opstat(op);
		++s.n;
		if (s.n < 4096 && s.outcomes.size() < 512) s.outcomes.insert(h);
	}
	template<class A, class B> inline bool same(A const& a, B const& b) { return a == b; }
	inline bool same(float a, float b) { return (a != a && b != b) || (std::memcmp(&a, &b, 4) == 0); }
	inline bool same(double a, double b) { return (a != a && b != b) || (std::memcmp(&a, &b, 8) == 0); }
	inline bool same(long double a, long double b) { return (a != a && b != b) || (a == b && __builtin_signbit(a) == __builtin_signbit(b)); }

	// op must be a string literal (or otherwise live for the whole run)
	template<class A, class B> inline bool eq(const char* op, A const& got, B const& want) {
		hit(op, hval(want));
		if (same(got, want)) return true;
		report(op, "got " + str(got) + " want " + str(want));
		return false;
	}
	template<class A, class B, class F> inline bool eqd(const char* op, A const& got, B const& want, F const& extra) {
		hit(op, hval(want));
		if (same(got, want)) return true;
		report(op, "got " + str(got) + " want " + str(want) + " " + extra());
		return false;
	}
	inline bool ok(const char* op, bool cond) {
		hit(op, cond);
		if (cond) return true;
		report(op, "condition is false");
		return false;
	}
	template<class F> inline bool okd(const char* op, bool cond, F const& extra) {
		hit(op, cond);
		if (cond) return true;
		report(op, extra());
		return false;
	}
	inline const char* intern(std::string const& s) {
		static std::set<std::string> pool;
		return pool.insert(s).first->c_str();
	}

	// --- choice exploration
	struct Choices {
		std::vector<int> path, width; size_t pos;
		Choices() : pos(0) {}
		int operator()(int n) {
			if (pos == path.size()) { path.push_back(0); width.push_back(n); }
			else if (width[pos] != n) { report("explorer", "replay divergence: the code under test asked for a different choice"); finish("diverged"); _exit(1); }
			return path[pos++];
		}
		bool next() {
			path.resize(pos); width.resize(pos);
			while (!path.empty()) {
				if (++path.back() < width.back()) { pos = 0; return true; }
				path.pop_back(); width.pop_back();
			}
			return false;
		}
		std::string show() const { return str(path); }
	};
	template<class F> inline uint64_t explore(F const& f) {
		Choices c; uint64_t n = 0;
		do { c.pos = 0; f(c); ++n; trace(); } while (c.next());
		return n;
	}

	// --- explicit-state search: S is copyable (implementation + model); an op returns false when not enabled
	template<class S> struct Op { std::string name; std::function<bool(S&)> run; };
	template<class S, class Key>
	inline uint64_t bfs(S const& init, std::vector<Op<S> > const& ops, Key const& key, size_t max_depth, size_t max_states) {
		struct Node { S s; int parent; int op; size_t depth; };
		std::deque<Node> nodes; // stable storage
		std::unordered_map<std::string, int> seen;
		std::deque<int> queue;
		Node n0 = {init, -1, -1, 0};
		nodes.push_back(n0); seen[key(init)] = 0; queue.push_back(0);
		count_state();
		bool capped = false; size_t deepest = 0;
		while (!queue.empty()) {
			int id = queue.front(); queue.pop_front();
			if (nodes[id].depth >= max_depth) continue;
			for (size_t k = 0; k < ops.size(); ++k) {
				auto hist = [&]() -> std::string {
					std::vector<std::string> h;
					for (int i = id; i > 0; i = nodes[i].parent) h.push_back(ops[nodes[i].op].name);
					std::string r; for (size_t i = h.size(); i-- > 0;) r += h[i] + "; ";
					return r + ops[k].name;
				};
				StateScope<decltype(hist)> sc(hist);
				S s(nodes[id].s);
				trace();
				if (!ops[k].run(s)) continue;
				std::string kk = key(s);
				if (seen.count(kk)) continue;
				if (nodes.size() >= max_states) { capped = true; continue; }
				count_state(); sample();
				seen[kk] = (int)nodes.size();
				Node n = {s, id, (int)k, nodes[id].depth + 1};
				if (n.depth > deepest) deepest = n.depth;
				queue.push_back((int)nodes.size());
				nodes.push_back(n);
			}
		}
		std::ostringstream b; b << "depth<=" << max_depth << " reached " << deepest << " states " << nodes.size() << (capped ? " (state cap hit)" : " (complete)");
		bound("bfs", b.str());
		return nodes.size();
	}

	// --- enumerate all sequences over {0..k-1} with length n
	template<class F> inline void sequences(int n, int k, F const& f) {
		std::vector<int> v(n, 0);
		for (;;) {
			f(const_cast<std::vector<int> const&>(v));
			int i = n - 1;
			while (i >= 0 && ++v[i] == k) v[i--] = 0;
			if (i < 0) break;
		}
	}
	template<class F> inline void sequences_upto(int nmax, int k, F const& f) { for (int n = 0; n <= nmax; ++n) sequences(n, k, f); }

	inline void finish(const char* status) {
		Global& G = g();
		FILE* o = G.out ? G.out : stdout;
		std::fprintf(o, "{\"section\":\"%s\",\"status\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"fails\":%llu,", jesc(G.section).c_str(), status,
			(unsigned long long)G.states, (unsigned long long)G.transitions, (unsigned long long)G.traces, (unsigned long long)G.fails);
		std::fprintf(o, "\"ops\":{");
		bool c = false;
		for (std::map<std::string, OpStat>::iterator i = G.ops.begin(); i != G.ops.end(); ++i) {
			std::fprintf(o, "%s\"%s\":[%llu,%llu]", c ? "," : "", jesc(i->first).c_str(), (unsigned long long)i->second.n, (unsigned long long)i->second.outcomes.size()); c = true;
		}
		std::fprintf(o, "},\"bounds\":{"); c = false;
		for (size_t i = 0; i < G.bounds.size(); ++i) { std::fprintf(o, "%s\"%s%s\":\"%s\"", c ? "," : "", jesc(G.bounds[i].first).c_str(), i ? std::to_string(i).c_str() : "", jesc(G.bounds[i].second).c_str()); c = true; }
		std::fprintf(o, "},\"samples\":["); c = false;
		for (size_t i = 0; i < G.samples.size(); ++i) { std::fprintf(o, "%s\"%s\"", c ? "," : "", jesc(G.samples[i].substr(0, 300)).c_str()); c = true; }
		std::fprintf(o, "],\"failcount\":{"); c = false;
		for (std::map<std::string, uint64_t>::iterator i = G.failcount.begin(); i != G.failcount.end(); ++i) { std::fprintf(o, "%s\"%s\":%llu", c ? "," : "", jesc(i->first).c_str(), (unsigned long long)i->second); c = true; }
		std::fprintf(o, "},\"failures\":["); c = false;
		for (size_t i = 0; i < G.failures.size(); ++i) {
			Fail& f = G.failures[i];
			std::fprintf(o, "%s{\"op\":\"%s\",\"state\":\"%s\",\"detail\":\"%s\",\"index\":%llu}", c ? "," : "", jesc(f.op).c_str(), jesc(f.state.substr(0, 1500)).c_str(), jesc(f.detail.substr(0, 800)).c_str(), (unsigned long long)f.index); c = true;
		}
		std::fprintf(o, "]}\n");
		std::fflush(o);
	}
	inline void on_signal(int sig) {
		static volatile sig_atomic_t in = 0;
		if (in) _exit(3);
		in = 1;
		char b[64]; std::snprintf(b, sizeof b, "crash: signal %d", sig);
		report("crash", b);
		finish("crash");
		_exit(1);
	}
	inline void on_timer(int) {
		static uint64_t last = ~0ull; static int stuck = 0;
		uint64_t cur = g().states * 3 + g().transitions * 7 + g().traces;
		if (cur == last) { if (++stuck >= 6) { report("hang", "no progress for 60 s of CPU time"); finish("hang"); _exit(1); } }
		else stuck = 0;
		last = cur;
	}
	inline int main_(int argc, char** argv) {
		Global& G = g();
		std::string sec; bool list = false;
		for (int i = 1; i < argc; ++i) {
			std::string a = argv[i];
			if (a == "--list") list = true;
			else if (a == "--section") sec = argv[++i];
			else if (a == "--thorough") G.thorough = true;
			else if (a == "--stop-at") G.stop_at = std::strtoull(argv[++i], 0, 10);
			else if (a == "--out") { G.out = std::fopen(argv[++i], "w"); }
		}
		if (list) { for (size_t i = 0; i < sections().size(); ++i) std::printf("%s\n", sections()[i].name); return 0; }
		static char alt[1 << 18];
		stack_t ss; std::memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
		struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
		int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
		for (int s : sigs) sigaction(s, &sa, 0);
		sa.sa_handler = on_timer; sa.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGVTALRM, &sa, 0);
		struct itimerval it; it.it_interval.tv_sec = 10; it.it_interval.tv_usec = 0; it.it_value = it.it_interval; setitimer(ITIMER_VIRTUAL, &it, 0);
		for (size_t i = 0; i < sections().size(); ++i) {
			if (!sec.empty() && sec != sections()[i].name) continue;
			G.section = sections()[i].name;
			try { sections()[i].fn(); }
			catch (std::exception const& e) { report("exception", std::string("escaped exception: ") + e.what()); }
			catch (...) { report("exception", "escaped exception"); }
			if (!sec.empty()) break;
		}
		finish("ok");
		return G.fails ? 1 : 0;
	}
}
#define MC_SECTION(name) static void MC_CAT(mc_sec_, name)(); static ::mc::Reg MC_CAT(mc_reg_, name)(#name, &MC_CAT(mc_sec_, name)); static void MC_CAT(mc_sec_, name)()
#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::main_(argc, argv); }
#endif
#endif
