// Calls on separate data from several threads, from scripts of the specification.  VP_T: real type.
#include "vp.hpp"

#include <algorithm>
#include <atomic>
#include <cassert>
#include <complex>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <sys/wait.h>
#include <thread>
#include <tuple>
#include <unistd.h>

#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/IIR.hpp>
#include <dspbb/Filtering/MeasureFilter.hpp>
#include <dspbb/Filtering/Windowing.hpp>
#include <dspbb/Generators/Spaces.hpp>
#include <dspbb/Generators/Waveforms.hpp>
#include <dspbb/LTISystems/DiscretizationTransforms.hpp>
#include <dspbb/Math/EllipticFunctions.hpp>
#include <dspbb/Math/FFT.hpp>
#include <dspbb/Math/Functions.hpp>
#include <dspbb/Math/OverlapAdd.hpp>
#include <dspbb/Math/Rational.hpp>
#include <dspbb/Math/Solvers.hpp>
#include <dspbb/Math/Statistics.hpp>
#include <dspbb/Primitives/SignalArithmetic.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <dspbb/Utility/Interval.hpp>

using namespace dspbb;
using T = VP_T;
using C = std::complex<T>;
using Values = std::vector<double>;

vp::Ctx ctx;
std::atomic<int> races{ 0 };
// Called by the thread sanitizer.
extern "C" void __tsan_on_report(void*) { ++races; }
extern "C" const char* __tsan_default_options() { return "exitcode=0:atexit_sleep_ms=0"; }
// The C library's lgamma, by which the standard library computes Bessel functions, writes signgam, which nobody reads.
extern "C" const char* __tsan_default_suppressions() { return "race:lgamma\n"; }

//---------------------------------------------------------------- operands shared by all threads
constexpr int VARIANTS = 24;
const size_t lengths[VARIANTS] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 27, 31, 32, 45, 64, 97, 100, 101, 128, 210 };

struct Shared {
	Signal<T> x = Signal<T>(400);
	Signal<C> z = Signal<C>(400);
	Signal<T> taps = Signal<T>(37);
	Spectrum<T> response = Spectrum<T>(200);
	DiscreteZeroPoleGain<T> zpk;
	TransferFunction<T, eDiscretization::DISCRETE> tf;
	CascadedBiquad<T> cascade;
	PolyphaseFilter<T, TIME_DOMAIN> poly;
	FactoredPolynomial<T> roots;

	Shared() {
		vp::Rng g(12345);
		for (size_t i = 0; i < x.size(); ++i) {
			x[i] = T(g.in(-64, 64)) / T(16);
			z[i] = C(T(g.in(-64, 64)) / T(16), T(g.in(-64, 64)) / T(16));
		}
		for (auto& t : taps) {
			t = T(g.in(-32, 32)) / T(32);
		}
		for (size_t i = 0; i < response.size(); ++i) {
			response[i] = i < 80 ? T(1) + T(g.in(-3, 3)) / T(100) : T(g.in(0, 3)) / T(100);
		}
		zpk.gain = T(0.5);
		zpk.zeros = { C(-1), C(T(0.5), T(0.5)), C(T(0.5), T(-0.5)), C(T(0.25)) };
		zpk.poles = { C(T(0.5)), C(T(-0.25), T(0.5)), C(T(-0.25), T(-0.5)), C(T(-0.5)) };
		tf = TransferFunction<T, eDiscretization::DISCRETE>(zpk);
		cascade = CascadedBiquad<T>(zpk);
		poly = PolyphaseDecompose(taps, 4);
		roots = { C(2), C(-1), C(1, 2), C(1, -2), C(3) };
	}
	// Everything the calls may read but not change
	long digest() const {
		uint64_t h = 1469598103934665603ull;
		const auto eat = [&](const void* p, size_t n) {
			for (size_t i = 0; i < n; ++i) {
				h = (h ^ static_cast<const unsigned char*>(p)[i]) * 1099511628211ull;
			}
		};
		const auto all = [&](const auto& r) {
			const size_t n = r.size();
			eat(&n, sizeof(n));
			for (const auto& v : r) {
				eat(&v, sizeof(v));
			}
		};
		all(x);
		all(z);
		all(taps);
		all(response);
		for (const auto* f : { &zpk.zeros, &zpk.poles, &roots }) {
			all(f->real_roots());
			all(f->complex_pairs());
		}
		eat(&zpk.gain, sizeof(T));
		all(tf.numerator.coefficients());
		all(tf.denominator.coefficients());
		for (const auto& s : cascade.sections) {
			all(s.numerator);
			all(s.denominator);
		}
		for (size_t k = 0; k < poly.num_phases(); ++k) {
			all(poly[k]);
		}
		return long(h % 1000000007ull);
	}
};
const Shared* shared = nullptr;

//---------------------------------------------------------------- tasks
void put(Values& v, double x) { v.push_back(x); }
void put(Values& v, float x) { v.push_back(double(x)); }
template <class X>
void put(Values& v, const std::complex<X>& x) {
	v.push_back(double(x.real()));
	v.push_back(double(x.imag()));
}
template <class S>
	requires requires(const S& s) { s.begin(); s.size(); }
void put(Values& v, const S& s) {
	v.push_back(double(s.size()));
	// A few of the elements and two sums over all
	const size_t n = s.size();
	C sum = 0, weighted = 0;
	size_t i = 0;
	for (const auto& e : s) {
		if (i % std::max(size_t(1), n / 5) == n % 3 || i + 1 == n) {
			put(v, e);
		}
		sum += C(e) / T(n);
		weighted += C(e) * T(1 + i % 7) / T(n);
		++i;
	}
	put(v, sum);
	put(v, weighted);
}
template <class D>
void put(Values& v, const ZeroPoleGain<T, eDiscretization::DISCRETE>& f, D) {
	put(v, f.gain);
	put(v, f.zeros.real_roots());
	put(v, f.zeros.complex_pairs());
	put(v, f.poles.real_roots());
	put(v, f.poles.complex_pairs());
}

Values run(int kind, int var, bool nested);

// A function that calls the library itself
T curve(T f, int own, int var, bool nested) {
	if (nested) {
		// One of the quicker calls, or the same one again on other data
		const int pick = (int(f * T(1000)) + var) % 13;
		const Values v = run(pick < 9 ? pick : own, (int(f * T(700)) + var + 1) % VARIANTS, false);
		if (v.empty()) {
			return T(77);
		}
	}
	return f < T(0.5) ? T(1) - f : T(0.25) * f;
}
struct Window {
	int var;
	bool nested;
	template <class S>
	void operator()(S&& out) const {
		for (size_t i = 0; i < out.size(); ++i) {
			out[i] = T(0.5) + curve(T(i) / T(out.size()), 9, var, nested) / T(2);
		}
	}
};

constexpr int KINDS = 26;
Values run(int kind, int var, bool nested) {
	Values v;
	const size_t n = lengths[var];
	const auto x = AsConstView(shared->x).subsignal(size_t(var), n);
	const auto y = AsConstView(shared->x).subsignal(180 + size_t(var) % 3, n);
	const auto z = AsConstView(shared->z).subsignal(size_t(var), n);
	const auto taps = AsConstView(shared->taps).subsignal(size_t(var), 1 + size_t(var) % 13);
	switch (kind) {
		case 0: put(v, Fft(z)); break;
		case 1: put(v, var % 2 ? Fft(x, FFT_HALF) : Fft(x, FFT_FULL)); break;
		case 2: put(v, Ifft(Fft(x, FFT_HALF), FFT_HALF, n % 2 == 0)); put(v, Ifft(Fft(z))); break;
		case 3: put(v, Convolution(x, taps, CONV_FULL)); put(v, Convolution(z, taps, CONV_FULL)); break;
		case 4: put(v, OverlapAdd(x, taps, CONV_FULL)); put(v, OverlapAdd(taps, x, CONV_FULL, 64)); break;
		case 5: {
			Signal<T> a(x.begin(), x.end());
			a *= y;
			a += T(2);
			put(v, a * x - y / T(3));
			put(v, Abs(z));
			put(v, Exp(x / T(4)));
			put(v, Sqrt(Abs(x)) + Cos(y));
			break;
		}
		case 6: {
			put(v, Sum(x));
			put(v, Mean(z));
			put(v, DotProduct(x, y));
			put(v, Variance(x));
			put(v, CentralMoment(x, 5) / T(100));
			put(v, Max(x));
			put(v, RootMeanSquare(y));
			break;
		}
		case 7: {
			Signal<T> state(taps.size() - 1, T(0.5));
			put(v, Filter(x, taps, state, FILTER_CONV));
			put(v, Filter(y, taps, state, FILTER_OLA));
			put(v, state);
			break;
		}
		case 8: {
			DirectFormI<T> one{ shared->tf.order() };
			DirectFormII<T> two{ shared->tf.order() };
			CascadedForm<T> three{ shared->cascade.order() };
			const Signal<T> in(x.begin(), x.end());
			put(v, Filter(in, shared->tf, one));
			put(v, Filter(in, shared->tf, two));
			put(v, Filter(in, shared->cascade, three));
			break;
		}
		case 9: {
			const T a = T(0.2) + T(var) / T(100);
			const size_t odd = 2 * (n / 2) + 3;
			switch (var % 5) {
				case 0: put(v, DesignFilter<T, TIME_DOMAIN>(odd, Fir.Lowpass.Windowed.Cutoff(a).Window(Window{ var, nested }))); break;
				case 1: put(v, DesignFilter<T, TIME_DOMAIN>(odd, Fir.Highpass.Windowed.Cutoff(a).Window(Window{ var, nested }))); break;
				case 2: put(v, DesignFilter<T, TIME_DOMAIN>(odd, Fir.Bandpass.Windowed.Band(a, a + T(0.2)).Window(windows::blackman))); break;
				case 3: put(v, DesignFilter<T, TIME_DOMAIN>(odd, Fir.Bandstop.Windowed.Band(a, a + T(0.2)).Window(windows::kaiser.alpha(4)))); break;
				default: put(v, DesignFilter<T, TIME_DOMAIN>(odd, Fir.Hilbert.Windowed.Window(Window{ var, nested }))); break;
			}
			break;
		}
		case 10: put(v, DesignFilter<T, TIME_DOMAIN>(5 + 2 * (n % 10), Fir.Arbitrary.Windowed.Response([=](T f) { return curve(f, 10, var, nested); }))); break;
		case 11: put(v, DesignFilter<T, TIME_DOMAIN>(5 + 2 * (n % 6), Fir.Arbitrary.LeastSquares.Response([=](T f) { return curve(f, 11, var, nested); }).Weight([=](T f) { return T(1) + curve(f, 11, var + 6, nested); }).Grid(64))); break;
		case 12: put(v, DesignFilter<T, TIME_DOMAIN>(5 + 2 * (n % 6), Fir.Lowpass.LeastSquares.Cutoff(T(0.3), T(0.5)).Grid(64))); break;
		case 13: {
			const size_t order = 1 + size_t(var) % 5;
			const T a = T(0.3) + T(var) / T(64);
			switch (var % 4) {
				case 0: put(v, DesignFilter<T>(order, Iir.Lowpass.Butterworth.Cutoff(a)), 0); break;
				case 1: put(v, DesignFilter<T>(order, Iir.Highpass.Chebyshev1.Cutoff(a).PassbandRipple(T(0.1))), 0); break;
				case 2: put(v, DesignFilter<T>(2 * order, Iir.Bandpass.Chebyshev2.Band(T(0.2), a + T(0.1)).StopbandRipple(T(0.1))), 0); break;
				default: put(v, DesignFilter<T>(order, Iir.Lowpass.Elliptic.Cutoff(a).PassbandRipple(T(0.1)).StopbandRipple(T(0.1))), 0); break;
			}
			break;
		}
		case 14: put(v, KaiserWindow<T, TIME_DOMAIN>(n + 1, T(2))); put(v, HammingWindow<T, TIME_DOMAIN>(n + 1)); put(v, DolphChebyshevWindow<T, TIME_DOMAIN>(n + 2, T(0.01))); break;
		case 15: put(v, SineWave<T, TIME_DOMAIN>(n, 100, 7.0, 0.5)); put(v, SawtoothChirp<T, TIME_DOMAIN>(n, 100, 3.0, 9.0, 0.25, 0.5)); put(v, LogSpace<T, TIME_DOMAIN>(T(0), T(2), n + 1)); break;
		case 16: put(v, Interpolate(x, shared->poly, 0, n)); put(v, PolyphaseNormalized(PolyphaseDecompose(shared->taps, 1 + n % 4))[0]); break;
		case 17: put(v, Resample(x, shared->poly, Rational<int64_t>{ 3 + var % 4, 5 }, Rational<int64_t>{ 1, 3 }, n / 2 + 1)); break;
		case 18: {
			const auto p = MeasureFilter(AsConstView(shared->response).subsignal(size_t(var), 170));
			put(v, double(p.index()));
			const auto q = MeasureLowpassFilter(AsConstView(shared->response).subsignal(size_t(var), 170));
			for (T e : { q.passbandEdge, q.stopbandEdge, q.passbandRipple, q.stopbandAtten }) {
				put(v, e);
			}
			break;
		}
		case 19: {
			auto f = shared->roots;
			f.resize(size_t(var) % 5, 1 + size_t(var) % 2);
			put(v, ExpandPolynomial(f).coefficients());
			put(v, ExpandPolynomial(shared->roots).coefficients());
			put(v, shared->roots(C(T(0.5), T(var) / T(16))));
			break;
		}
		case 20: {
			Rational<int64_t> r{ 1 + var, 7 };
			for (int i = 0; i < 6; ++i) {
				r = r * Rational<int64_t>{ 5 + i, 4 } - Rational<int64_t>{ 3, 2 + i };
				r = frac(r);
			}
			put(v, double(r));
			break;
		}
		case 21: {
			const T k = T(var) / T(25);
			put(v, EllipticK(k));
			put(v, EllipticSN(T(0.3) + k, k));
			put(v, EllipticArcSN(C(T(0.25), T(0.5)), k));
			break;
		}
		case 22: {
			const T c = T(1 + var) / T(30);
			put(v, Bisect([&](T t) { return t - c + T(0) * curve(std::abs(t) / T(2), 22, var, nested); }, T(-1), T(2)));
			put(v, NewtonRaphson([&](T t) { return t * t - c + T(0) * curve(std::abs(t) / T(3), 22, var, nested); }, [](T t) { return T(2) * t; }, T(2)));
			break;
		}
		case 23: {
			put(v, TransferFunction<T, eDiscretization::DISCRETE>(shared->zpk).numerator.coefficients());
			put(v, CascadedBiquad<T>(shared->zpk)(C(T(1), T(var) / T(8))));
			put(v, shared->zpk(C(T(1), T(var) / T(8))));
			put(v, shared->cascade(C(T(0.75), T(var) / T(8))));
			break;
		}
		case 24: put(v, FftShift(Fft(z))); put(v, Decimate(x, 1 + size_t(var) % 3)); put(v, Expand(y, 1 + size_t(var) % 3)); break;
		default: {
			DiscreteZeroPoleGain<T> h = Halfband2Bandpass(shared->zpk, T(0.2), T(0.5) + T(var) / T(64));
			put(v, h, 0);
			put(v, h(C(T(1), T(0.5))));
			break;
		}
	}
	return v;
}

//---------------------------------------------------------------- recording
std::vector<long> fixed(const Values& v) {
	std::vector<long> r;
	for (double x : v) {
		r.push_back(vp::scaled(x, 1e5));
	}
	return r;
}

// In a process that has not called anything
std::vector<long> alone(int kind, int var) {
	static std::map<std::pair<int, int>, std::vector<long>> done;
	auto [it, fresh] = done.try_emplace({ kind, var });
	if (!fresh) {
		return it->second;
	}
	int fd[2];
	if (pipe(fd) != 0) {
		std::abort();
	}
	fflush(nullptr);
	const pid_t pid = fork();
	if (pid == 0) {
		const auto r = fixed(run(kind, var, false));
		const size_t bytes = r.size() * sizeof(long);
		const bool ok = write(fd[1], r.data(), bytes) == ssize_t(bytes);
		_exit(ok ? 0 : 1);
	}
	close(fd[1]);
	long b[512];
	for (ssize_t got; (got = read(fd[0], b, sizeof(b))) > 0;) {
		it->second.insert(it->second.end(), b, b + size_t(got) / sizeof(long));
	}
	close(fd[0]);
	int status = 0;
	waitpid(pid, &status, 0);
	if (status != 0) {
		it->second = { vp::BAD };
	}
	return it->second;
}

struct Call {
	int thread, kind, var;
	bool nested;
};
struct Event {
	int ticket, thread, call;
	bool start;
};

void session(const std::vector<Call>& plan, int threads) {
	ctx.log(vp::Ev("Begin").i("threads", threads).i("shared", shared->digest()));
	++ctx.sessions;
	std::map<std::pair<int, int>, bool> seen;
	for (const auto& c : plan) {
		if (!seen[{ c.kind, c.var }]) {
			seen[{ c.kind, c.var }] = true;
			ctx.log(vp::Ev("Alone").a("task", std::array<int, 2>{ c.kind, c.var }).a("res", alone(c.kind, c.var)));
		}
	}
	// Tickets order the events without ordering the threads.
	std::atomic<int> ticket{ 0 };
	std::atomic<int> waiting{ threads };
	std::vector<std::vector<Event>> events(static_cast<size_t>(threads));
	std::vector<std::vector<long>> results(plan.size());
	races = 0;
	const auto work = [&](int t) {
		waiting.fetch_sub(1, std::memory_order_relaxed);
		while (waiting.load(std::memory_order_relaxed) > 0) {
			std::this_thread::yield();
		}
		for (size_t i = 0; i < plan.size(); ++i) {
			if (plan[i].thread != t) {
				continue;
			}
			events[size_t(t)].push_back({ ticket.fetch_add(1, std::memory_order_relaxed), t, int(i), true });
			results[i] = fixed(run(plan[i].kind, plan[i].var, plan[i].nested));
			events[size_t(t)].push_back({ ticket.fetch_add(1, std::memory_order_relaxed), t, int(i), false });
		}
	};
	std::vector<std::thread> pool;
	for (int t = 0; t < threads; ++t) {
		pool.emplace_back(work, t);
	}
	for (auto& t : pool) {
		t.join();
	}
	std::vector<Event> all;
	for (const auto& e : events) {
		all.insert(all.end(), e.begin(), e.end());
	}
	std::sort(all.begin(), all.end(), [](const Event& a, const Event& b) { return a.ticket < b.ticket; });
	for (const auto& e : all) {
		const Call& c = plan[size_t(e.call)];
		if (e.start) {
			ctx.log(vp::Ev("Start").i("thread", e.thread + 1).a("task", std::array<int, 2>{ c.kind, c.var }).b("nested", c.nested));
		}
		else {
			ctx.log(vp::Ev("Finish").i("thread", e.thread + 1).a("res", results[size_t(e.call)]));
		}
	}
	ctx.log(vp::Ev("End").i("races", races.load()).i("shared", shared->digest()));
}

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	const Shared operands;
	shared = &operands;
	std::vector<std::vector<Call>> plans;
	long idx = 0;
	for (const auto& line : ctx.script) {
		if (!ctx.mine(idx++)) {
			continue;
		}
		std::vector<Call> plan;
		std::stringstream all(line);
		for (std::string part; std::getline(all, part, ';');) {
			std::stringstream one(part);
			Call c{};
			int nested = 0;
			if (one >> c.thread >> c.kind >> c.var >> nested) {
				--c.thread;
				c.nested = nested != 0;
				plan.push_back(c);
			}
		}
		plans.push_back(plan);
	}
	// Before anything else is called
	for (const auto& p : plans) {
		for (const auto& c : p) {
			alone(c.kind, c.var);
		}
	}
	for (const auto& p : plans) {
		int threads = 1;
		for (const auto& c : p) {
			threads = std::max(threads, c.thread + 1);
		}
		session(p, threads);
	}
	return vp::finish(ctx);
}
