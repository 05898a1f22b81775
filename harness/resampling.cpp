// Resampling.  VP_T: element type of the input; VP_P: of the filter.
#include "vp.hpp"

#include <array>
#include <cassert>
#include <numeric>
#include <stdexcept>

#include <dspbb/Filtering/Resample.hpp>

using namespace dspbb;
using cf = std::complex<float>;
using cd = std::complex<double>;
using T = VP_T;
using P = VP_P;
using R = multiplies_result_t<T, P>;
using Q = Rational<int64_t>;
constexpr auto DOM = eSignalDomain::TIME;
template <class X>
using Sig = BasicSignal<X, DOM>;
constexpr long SCALE = 1000;

vp::Ctx ctx;

template <class X>
Sig<X> random_signal(vp::Rng& g, size_t n, long amp) {
	Sig<X> s(n);
	for (auto& x : s) {
		x = vp::num<X>(g, -amp, amp);
	}
	return s;
}
template <class X>
void guard(const Sig<X>& before, const Sig<X>& after, size_t off, size_t n) {
	const auto rest = [&](const Sig<X>& s) {
		std::vector<X> r(s.begin(), s.begin() + ptrdiff_t(off));
		r.insert(r.end(), s.begin() + ptrdiff_t(off + n), s.end());
		return vp::Ev::sigstr(r);
	};
	ctx.log(vp::Ev("Guard").raw("before", rest(before)).raw("after", rest(after)));
}
template <class V>
std::string milli(const V& v) {
	Sig<R> s(v.begin(), v.end());
	for (auto& x : s) {
		x *= remove_complex_t<R>(SCALE);
	}
	return vp::Ev::sigstr(s, 0.6);
}
std::array<long, 2> q(const Q& t) {
	// (Values that do not fit are no values the specification knows.)
	const auto fit = [](int64_t v) { return v > vp::LIMIT || v < -vp::LIMIT ? vp::BAD : long(v); };
	return { fit(t.Numerator()), fit(t.Denominator()) };
}

struct Setup {
	Sig<T> x;
	Sig<P> h;
	size_t n;
	Q rate;
	Q t;
};
Setup make(vp::Rng& g, long lx, long lh, long n, long rn, long rd, long p, long d) {
	const long amp = n <= 3 ? 4 : 3;
	return { random_signal<T>(g, size_t(lx), amp), random_signal<P>(g, size_t(lh), 4), size_t(n), Q{ rn, rd }, Q{ p, d } };
}
void stream(const Setup& s) {
	ctx.log(vp::Ev("Begin"));
	++ctx.sessions;
	ctx.log(vp::Ev("Stream").sig("x", s.x).sig("h", s.h).i("n", long(s.n)).a("rate", q(s.rate)).a("t", q(s.t)));
}

void runs(const std::string& line, vp::Rng& g) {
	std::istringstream in(line);
	long lx, lh, n, rn, rd, p, d;
	in >> lx >> lh >> n >> rn >> rd >> p >> d;
	const auto s = make(g, lx, lh, n, rn, rd, p, d);
	const auto poly = PolyphaseDecompose(s.h, s.n);
	stream(s);
	size_t first = 0;
	Q start = s.t;
	for (size_t avail, len; in >> avail >> len;) {
		if (first >= avail) {
			continue;
		}
		const size_t before = size_t(g.in(0, 3)), after = size_t(g.in(0, 3));
		auto mem = random_signal<R>(g, before + len + after, 9);
		const auto copy = mem;
		Sig<T> there(s.x.begin() + ptrdiff_t(first), s.x.begin() + ptrdiff_t(avail));
		const auto out = AsView(mem).subsignal(before, len);
		const auto next = g.coin() ? Resample(out, there, poly, s.rate, start) : Resample(out, AsConstView(there), poly, s.rate, start);
		const auto nq = q(next.startPoint);
		ctx.log(vp::Ev("Run").i("first", long(first)).a("point", q(start)).i("avail", long(avail)).raw("y", milli(out)).i("scale", SCALE).a("next", std::array<long, 3>{ long(first + next.firstInputSample), nq[0], nq[1] }).raw("kept", "[" + vp::Ev::sigstr(s.x) + "," + vp::Ev::sigstr(s.h) + "]"));
		guard(copy, mem, before, len);
		first += next.firstInputSample;
		start = next.startPoint;
	}
}

void whole(vp::Rng& g, const Setup& s) {
	stream(s);
	auto poly = PolyphaseDecompose(s.h, s.n);
	const auto full = ResampleLength(s.x.size(), s.h.size(), s.n, s.rate, CONV_FULL);
	const auto central = ResampleLength(s.x.size(), s.h.size(), s.n, s.rate, CONV_CENTRAL);
	const std::array<long, 2> cut = { vp::scaled(InterpolFilterCutoff(s.n), 1e6), vp::scaled(ResampleFilterCutoff(s.rate, s.n), 1e6) };
	ctx.log(vp::Ev("Length").a("full", q(full)).a("central", q(central)).a("delay", q(ResampleDelay(s.h.size(), s.n, s.rate))).a("cutoff", cut));
	ctx.log(vp::Ev("Full").raw("y", milli(Resample(s.x, poly, s.rate, CONV_FULL))).i("scale", SCALE));
	ctx.log(vp::Ev("Central").raw("y", milli(Resample(s.x, poly, s.rate, CONV_CENTRAL))).i("scale", SCALE));
	if (s.t + int64_t(1) <= full) {
		const long most = floor(full - s.t);
		const long len = g.coin() ? most : g.in(0, most);
		ctx.log(vp::Ev("Window").a("t", q(s.t)).i("len", len).raw("y", milli(Resample(s.x, poly, s.rate, s.t, size_t(len)))).i("scale", SCALE));
	}
}

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	long idx = 0;
	for (const auto& line : ctx.script) {
		if (ctx.mine(idx++)) {
			auto g = ctx.rng(uint64_t(idx));
			runs(line, g);
		}
	}
	// Whole streams at all sorts of ratios
	for (int i = 0; i < ctx.scale(900, 12000); ++i) {
		if (ctx.mine(idx++)) {
			auto g = ctx.rng(uint64_t(idx) + 300000);
			const long rn = g.in(1, g.coin() ? 7 : 40), rd = g.in(1, g.coin() ? 7 : 40);
			whole(g, make(g, g.in(1, 14), g.in(1, 20), g.in(1, 7), rn, rd, g.in(0, 12), g.in(1, 7)));
		}
	}
	// Long ones: no drift
	const long usual[][2] = { { 147, 160 }, { 160, 147 }, { 80, 147 }, { 441, 320 }, { 2, 3 } };
	for (int i = 0; i < ctx.scale(10, 60); ++i) {
		if (ctx.mine(idx++)) {
			auto g = ctx.rng(uint64_t(idx) + 600000);
			const auto& u = usual[i % 5];
			whole(g, make(g, g.in(150, ctx.scale(300, 900)), g.in(8, 20), g.in(2, 6), u[0], u[1], g.in(0, 400), g.in(1, 9)));
		}
	}
	return vp::finish(ctx);
}
