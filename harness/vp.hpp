// Shared trace-recording layer of the conformance harnesses.
//
// A harness performs calls on the real library and writes one JSON object per call (the call's arguments and everything
// it changed) to an ndjson file, which TLC then checks against the specification.  All values are integers; whatever is
// not an exact integer of moderate size is written as BAD, a value no specification ever produces.
#pragma once

#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <csignal>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

#include <sys/wait.h>
#include <unistd.h>

namespace vp {

constexpr long BAD = 2000000001;
constexpr long LIMIT = 1900000000;

//---------------------------------------------------------------- numbers
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); }
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	long in(long lo, long hi) { return lo + long(next() % uint64_t(hi - lo + 1)); }
	bool coin(int num = 1, int den = 2) { return long(next() % uint64_t(den)) < num; }
	template <class C>
	auto pick(const C& c) { return *(std::begin(c) + in(0, long(std::size(c)) - 1)); }
};

template <class T>
struct is_cplx : std::false_type {};
template <class T>
struct is_cplx<std::complex<T>> : std::true_type {};
template <class T>
constexpr bool is_cplx_v = is_cplx<std::remove_cv_t<T>>::value;

// Exact conversion of a real number to an integer.
template <class T>
long exact(T v) {
	if constexpr (std::is_integral_v<T>) {
		return (v > T(LIMIT) || (std::is_signed_v<T> && (long long)v < -(long long)LIMIT)) ? BAD : long(v);
	}
	else {
		if (!(std::abs(v) <= T(LIMIT))) {
			return BAD;
		}
		const long n = std::lround(v);
		return T(n) == v ? n : BAD;
	}
}

// Conversion of v * scale to the nearest integer, BAD if it is farther from one than tol (tol >= 0.5: never).
template <class T>
long scaled(T v, double scale = 1.0, double tol = 0.6) {
	const double x = double(v) * scale;
	if (!(std::abs(x) <= double(LIMIT))) {
		return BAD;
	}
	const double n = std::round(x);
	return std::abs(n - x) <= tol ? long(n) : BAD;
}

template <class T>
long re(const T& v) {
	if constexpr (is_cplx_v<T>) {
		return exact(v.real());
	}
	else {
		return exact(v);
	}
}
template <class T>
long im(const T& v) {
	if constexpr (is_cplx_v<T>) {
		return exact(v.imag());
	}
	else {
		return 0;
	}
}

template <class T>
T num(Rng& rng, long lo, long hi) {
	if constexpr (is_cplx_v<T>) {
		using R = typename T::value_type;
		const auto a = rng.in(lo, hi);
		const auto b = rng.in(lo, hi);
		return T(R(a), R(b));
	}
	else {
		return T(rng.in(lo, hi));
	}
}

//---------------------------------------------------------------- events
class Ev {
public:
	explicit Ev(const std::string& op) { m_s = "{\"op\":\"" + op + "\""; }
	Ev& i(const char* k, long v) {
		key(k);
		m_s += std::to_string(v);
		return *this;
	}
	Ev& s(const char* k, const std::string& v) {
		key(k);
		m_s += "\"" + v + "\"";
		return *this;
	}
	Ev& b(const char* k, bool v) {
		key(k);
		m_s += v ? "true" : "false";
		return *this;
	}
	template <class C>
	Ev& a(const char* k, const C& c) {
		key(k);
		list(c, [](const auto& x) { return long(x); });
		return *this;
	}
	// A range of numbers as exact integers: real parts under k.
	template <class C>
	Ev& x(const char* k, const C& c) {
		key(k);
		list(c, [](const auto& x) { return re(x); });
		return *this;
	}
	// Real parts under k, imaginary parts under k + "i".
	template <class C>
	Ev& z(const char* k, const C& c) {
		x(k, c);
		key((std::string(k) + "i").c_str());
		list(c, [](const auto& x) { return im(x); });
		return *this;
	}
	// Nearest integers of scaled values
	template <class C>
	Ev& q(const char* k, const C& c, double scale, double tol = 0.6) {
		key(k);
		list(c, [&](const auto& x) { return scaled(x, scale, tol); });
		return *this;
	}
	Ev& raw(const char* k, const std::string& json) {
		key(k);
		m_s += json;
		return *this;
	}
	// A signal record {r, i}; i is empty for real types.
	template <class C>
	Ev& sig(const char* k, const C& c) { return raw(k, sigstr(c)); }
	template <class C>
	Ev& sigq(const char* k, const C& c, double tol) { return raw(k, sigstr(c, tol)); }
	template <class C>
	static std::string sigstr(const C& c, double tol = -1) {
		using T = std::decay_t<decltype(*std::begin(c))>;
		const auto cv = [&](auto v) { return tol < 0 ? exact(v) : scaled(v, 1.0, tol); };
		std::string r = "{\"r\":[";
		std::string i = "\"i\":[";
		bool first = true;
		for (auto it = std::begin(c); it != std::end(c); ++it) {
			if (!first) {
				r += ",";
			}
			if constexpr (is_cplx_v<T>) {
				r += std::to_string(cv(it->real()));
				i += (first ? "" : ",") + std::to_string(cv(it->imag()));
			}
			else {
				r += std::to_string(cv(*it));
			}
			first = false;
		}
		return r + "]," + i + "]}";
	}
	std::string str() const { return m_s + "}\n"; }

private:
	void key(const char* k) { m_s += std::string(",\"") + k + "\":"; }
	template <class C, class F>
	void list(const C& c, F f) {
		m_s += "[";
		bool first = true;
		for (auto it = std::begin(c); it != std::end(c); ++it) {
			if (!first) {
				m_s += ",";
			}
			first = false;
			m_s += std::to_string(f(*it));
		}
		m_s += "]";
	}
	std::string m_s;
};

//---------------------------------------------------------------- refusals
// How a call ends that the library is expected to refuse: "ok", "throw", "abort" (an assertion), or "crash" (anything
// else, memory errors included).  The call runs in a process of its own.
template <class F>
std::string outcome(F&& f) {
	std::fflush(nullptr);
	const pid_t pid = fork();
	if (pid == 0) {
		std::freopen("/dev/null", "w", stderr);
		std::freopen("/dev/null", "w", stdout);
		alarm(20);
		int rc = 0;
		try {
			f();
		}
		catch (...) {
			rc = 3;
		}
		_exit(rc);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	if (WIFEXITED(st)) {
		return WEXITSTATUS(st) == 0 ? "ok" : WEXITSTATUS(st) == 3 ? "throw" : "crash";
	}
	return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? "abort" : "crash";
}

//---------------------------------------------------------------- harness entry
struct Ctx {
	std::FILE* file = nullptr;
	uint64_t seed = 1;
	bool thorough = false;
	int shard = 0;
	int shards = 1;
	std::vector<std::string> script; // Lines produced from the specification.
	long events = 0;
	long sessions = 0;
	std::map<std::string, long> counters;

	void log(const Ev& e) {
		const auto s = e.str();
		std::fwrite(s.data(), 1, s.size(), file);
		std::fflush(file);
		++events;
	}
	void count(const std::string& what, long n = 1) { counters[what] += n; }
	// Which of the numbered cases belong to this shard.
	bool mine(long idx) const { return idx % shards == shard; }
	Rng rng(uint64_t tag) const { return Rng(seed * 1000003ull + tag * 7919ull + 17ull); }
	int scale(int quick, int deep) const { return thorough ? deep : quick; }
};

inline Ctx parse(int argc, char** argv) {
	Ctx c;
	if (argc < 6) {
		std::fprintf(stderr, "usage: harness OUT SEED quick|thorough SHARD SHARDS [SCRIPT]\n");
		std::exit(64);
	}
	c.file = std::fopen(argv[1], "w");
	if (!c.file) {
		std::exit(64);
	}
	c.seed = std::strtoull(argv[2], nullptr, 10);
	c.thorough = std::string(argv[3]) == "thorough";
	c.shard = std::atoi(argv[4]);
	c.shards = std::atoi(argv[5]);
	if (argc > 6) {
		std::ifstream in(argv[6]);
		std::string line;
		while (std::getline(in, line)) {
			c.script.push_back(line);
		}
	}
	return c;
}

inline int finish(Ctx& c) {
	std::fclose(c.file);
	std::printf("VPSTATS events=%ld sessions=%ld", c.events, c.sessions);
	for (const auto& [k, v] : c.counters) {
		std::printf(" %s=%ld", k.c_str(), v);
	}
	std::printf("\n");
	return 0;
}

} // namespace vp
