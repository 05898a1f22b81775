// Reductions and statistics.  VP_T, VP_U: element types of a and b.
#include "vp.hpp"

#include <array>
#include <cassert>
#include <stdexcept>

#include <dspbb/Math/DotProduct.hpp>
#include <dspbb/Math/Statistics.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>

using namespace dspbb;
using cf = std::complex<float>;
using cd = std::complex<double>;
using T = VP_T;
using U = VP_U;
constexpr auto DOM = eSignalDomain::TIME;
template <class X>
using Sig = BasicSignal<X, DOM>;
template <class X>
constexpr bool REAL = std::is_floating_point_v<X>;

vp::Ctx ctx;

template <class S>
auto range(const S& s, size_t off, size_t n) { return AsView(s).subsignal(off, n); }

template <class X>
std::string pair(const X& v) { return "[" + std::to_string(vp::re(v)) + "," + std::to_string(vp::im(v)) + "]"; }

template <class X>
void reduced(const char* f, size_t off, size_t n, size_t boff, const X& v) {
	ctx.log(vp::Ev("Reduce").s("f", f).i("off", long(off)).i("n", long(n)).i("boff", long(boff)).raw("res", pair(v)));
	ctx.count(f);
}

// Scaled so that it fits and keeps enough digits.
template <class X>
double scale_of(const X& v) {
	const double m = std::abs(v);
	return m < 1500 ? 1e6 : m < 1.5e6 ? 1e3 : 1;
}
template <class X>
void meaned(const char* f, size_t off, size_t n, const X& v) {
	const double sc = scale_of(v);
	long q = 0, qi = 0;
	if constexpr (vp::is_cplx_v<X>) {
		q = vp::scaled(v.real(), sc);
		qi = vp::scaled(v.imag(), sc);
	}
	else {
		q = vp::scaled(v, sc);
	}
	ctx.log(vp::Ev("Mean").s("f", f).i("off", long(off)).i("n", long(n)).a("res", std::array<long, 2>{ q, qi }).i("scale", long(sc)));
	ctx.count(f);
}

struct Stat {
	size_t off, n, boff;
	template <class X>
	void operator()(const char* f, const X& v, int k = 0, std::vector<long> mu = {}, std::vector<long> mut = {}) const {
		const double sc = scale_of(v);
		ctx.log(vp::Ev("Stat").s("f", f).i("off", long(off)).i("n", long(n)).i("boff", long(boff)).i("k", k).a("mu", mu).a("mut", mut).a("res", std::array<long, 1>{ vp::scaled(v, sc) }).i("scale", long(sc)));
		ctx.count(f);
	}
};

bool varies(const auto& s) {
	for (const auto& x : s) {
		if (x != s[0]) {
			return true;
		}
	}
	return false;
}

template <class S>
void one_signal(const S& whole, const Stat& st, vp::Rng& g) {
	using X = typename S::value_type;
	const auto s = range(whole, st.off, st.n);
	const size_t n = st.n;
	reduced("sum", st.off, n, 0, Sum(s));
	reduced("sumsq", st.off, n, 0, SumSquare(s));
	if constexpr (!vp::is_cplx_v<X>) {
		if (n > 0) {
			reduced("max", st.off, n, 0, Max(s));
			reduced("min", st.off, n, 0, Min(s));
		}
	}
	if constexpr (!std::is_integral_v<X>) {
		meaned("mean", st.off, n, Mean(s));
		meaned("meansq", st.off, n, MeanSquare(s));
	}
	if constexpr (REAL<X>) {
		if (n == 0) {
			return;
		}
		double peak = 0;
		for (const auto& x : s) {
			peak = std::max(peak, double(std::abs(x)));
		}
		st("rms", RootMeanSquare(s));
		st("norm", Norm(s));
		const long m = g.in(-2, 2);
		st("var", Variance(s));
		st("var", Variance(s, X(m)), 0, { m });
		st("std", StandardDeviation(s));
		st("std", StandardDeviation(s, X(m)), 0, { m });
		const int top = peak <= 1 ? 13 : peak <= 3 ? 7 : 4;
		for (int k = 1; k <= top; ++k) {
			st("moment", CentralMoment(s, size_t(k)), k);
			st("moment", CentralMoment(s, size_t(k), X(m)), k, { m });
		}
		if (n >= 2) {
			st("cvar", CorrectedVariance(s));
			st("cstd", CorrectedStandardDeviation(s));
		}
		if (!varies(s)) {
			return;
		}
		st("skew", Skewness(s));
		st("kurt", Kurtosis(s));
		if (n > 1 || s[0] != X(m)) {
			st("skew", Skewness(s, X(m)), 0, { m });
			st("kurt", Kurtosis(s, X(m)), 0, { m });
			for (int k = 2; k <= std::min(top, 8); ++k) {
				st("standard", StandardizedMoment(s, size_t(k)), k);
				st("standard", StandardizedMoment(s, size_t(k), X(m)), k, { m });
			}
		}
		if (n >= 3) {
			st("cskew", CorrectedSkewness(s));
		}
		if (n >= 4) {
			st("ckurt", CorrectedKurtosis(s));
		}
	}
}

template <class A, class B>
void two_signals(const A& wa, const B& wb, const Stat& st, vp::Rng& g) {
	const auto a = range(wa, st.off, st.n);
	const auto b = range(wb, st.boff, st.n);
	reduced("dot", st.off, st.n, st.boff, DotProduct(a, b));
	if constexpr (REAL<T> && std::is_same_v<T, U>) {
		if (st.n == 0) {
			return;
		}
		const long m = g.in(-2, 2);
		const long m2 = g.in(-2, 2);
		st("cov", Covariance(a, b));
		st("cov", Covariance(a, b, T(m), T(m2)), 0, { m }, { m2 });
		if (st.n >= 2) {
			st("ccov", CorrectedCovariance(a, b));
		}
		if (varies(a) && varies(b)) {
			st("corr", Correlation(a, b));
		}
	}
}

template <class V>
void extremes(const V& v, size_t n) {
	if constexpr (!vp::is_cplx_v<typename V::value_type>) {
		reduced("max", 0, n, 0, Max(v));
		reduced("min", 0, n, 0, Min(v));
	}
}

void session(vp::Rng& g, const Sig<T>& a, const Sig<U>& b, const std::vector<Stat>& ranges) {
	ctx.log(vp::Ev("Begin"));
	++ctx.sessions;
	ctx.log(vp::Ev("Load").sig("a", a).sig("b", b));
	for (const auto& st : ranges) {
		one_signal(a, st, g);
		two_signals(a, b, st, g);
	}
	ctx.log(vp::Ev("Kept").sig("a", a).sig("b", b));
}

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	long idx = 0;
	const int top = ctx.scale(75, 150);
	// All lengths, at aligned and other positions
	for (int n = 0; n <= top; ++n) {
		for (int rep = 0; rep < ctx.scale(n < 36 ? 3 : 2, 12); ++rep) {
			if (!ctx.mine(idx++)) {
				continue;
			}
			auto g = ctx.rng(uint64_t(n) * 100 + uint64_t(rep));
			const size_t off = rep == 0 ? 0 : size_t(g.in(0, 5));
			const size_t boff = rep == 0 ? 0 : size_t(g.in(0, 5));
			const size_t tail = rep == 0 ? 0 : size_t(g.in(0, 3));
			const long amp = rep % 3 == 0 ? 9 : rep % 3 == 1 ? 3 : 1;
			Sig<T> a(off + size_t(n) + tail);
			Sig<U> b(boff + size_t(n) + tail);
			for (auto& x : a) {
				x = vp::num<T>(g, -amp, amp);
			}
			for (auto& x : b) {
				x = vp::num<U>(g, -amp, amp);
			}
			// Guards that would show in any reduction they leaked into
			for (size_t i = 0; i < a.size(); ++i) {
				if (i < off || i >= off + size_t(n)) {
					a[i] = T(1000 + int(i));
				}
			}
			for (size_t i = 0; i < b.size(); ++i) {
				if (i < boff || i >= boff + size_t(n)) {
					b[i] = U(-1000 - int(i));
				}
			}
			session(g, a, b, { { off, size_t(n), boff } });
		}
	}
	// The decisive element at every position
	const int far = ctx.scale(40, 75);
	for (int n = 1; n <= far; ++n) {
		if (!ctx.mine(idx++)) {
			continue;
		}
		auto g = ctx.rng(uint64_t(n) + 900000);
		for (int at = 0; at < n; ++at) {
			Sig<T> a(size_t(n), T(0));
			Sig<U> b(size_t(n), U(0));
			for (auto& x : a) {
				x = vp::num<T>(g, -2, 2);
			}
			a[size_t(at)] = vp::num<T>(g, 5, 9) * T(g.coin() ? 1 : -1);
			b[size_t(at)] = vp::num<U>(g, 5, 9);
			ctx.log(vp::Ev("Begin"));
			++ctx.sessions;
			ctx.log(vp::Ev("Load").sig("a", a).sig("b", b));
			const auto v = range(a, 0, size_t(n));
			extremes(v, size_t(n));
			reduced("sum", 0, size_t(n), 0, Sum(v));
			reduced("sumsq", 0, size_t(n), 0, SumSquare(a));
			reduced("dot", 0, size_t(n), 0, DotProduct(a, b));
			ctx.log(vp::Ev("Kept").sig("a", a).sig("b", b));
		}
	}
	return vp::finish(ctx);
}
