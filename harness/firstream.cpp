// Streaming FIR filtering.  VP_U: input type, VP_V: filter type, VP_S: state type.
#include "vp.hpp"

#include <algorithm>
#include <dspbb/Filtering/FIR/Filter.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <numeric>

using namespace dspbb;
using cf = std::complex<float>;
using cd = std::complex<double>;
using U = VP_U;
using V = VP_V;
using R = multiplies_result_t<U, V>;
template <class T>
using Sig = BasicSignal<T, eSignalDomain::TIME>;

vp::Ctx ctx;
constexpr double TOL = 0.25;

template <class T>
Sig<T> rnd(vp::Rng& g, size_t n) {
	Sig<T> s(n);
	for (auto& x : s) {
		x = vp::num<T>(g, -4, 4);
	}
	return s;
}

struct Step {
	size_t len;
	int method;
};

void session(vp::Rng& g, size_t n, const std::vector<Step>& steps) {
	const auto taps = rnd<V>(g, n);
	const auto initial = g.coin() ? rnd<U>(g, n - 1) : Sig<U>(n - 1, U(0));
	auto state = initial;
	ctx.log(vp::Ev("Begin"));
	ctx.log(vp::Ev("Start").sig("taps", taps).sig("state", state));
	std::vector<U> all;
	for (const auto& s : steps) {
		const auto x = rnd<U>(g, s.len);
		const auto before = x;
		all.insert(all.end(), x.begin(), x.end());
		Sig<R> y(s.len, R(77));
		const size_t chunk = g.coin() ? 0 : 2 * n - 1 + g.in(0, 3);
		const int form = g.in(0, 3);
		if (s.method == 0) {
			if (form == 0) {
				y = Filter(x, taps, state, FILTER_CONV);
			}
			else if (form == 1) {
				auto sv = AsView(state);
				Filter(AsView(y), AsConstView(x), AsConstView(taps), sv, FILTER_CONV);
			}
			else if (form == 2) {
				Sig<R> big(s.len + 5, R(33));
				Filter(AsView(big).subsignal(2, s.len), x, taps, state, FILTER_CONV);
				std::copy(big.begin() + 2, big.begin() + 2 + s.len, y.begin());
				for (size_t k : { size_t(0), size_t(1), s.len + 2, s.len + 3, s.len + 4 }) {
					if (big[k] != R(33)) {
						ctx.log(vp::Ev("Overrun").i("at", k));
					}
				}
			}
			else {
				Filter(y, x, taps, state, FILTER_CONV);
			}
		}
		else {
			if (form == 0) {
				y = Filter(x, taps, state, FILTER_OLA, chunk);
			}
			else if (form == 1) {
				auto sv = AsView(state);
				Filter(AsView(y), AsConstView(x), AsConstView(taps), sv, FILTER_OLA, chunk);
			}
			else {
				Filter(y, x, taps, state, FILTER_OLA, chunk);
			}
		}
		ctx.log(vp::Ev("Block").i("method", s.method).sig("x", before).raw("post", "{\"out\":" + vp::Ev::sigstr(y, TOL) + ",\"state\":" + vp::Ev::sigstr(state) + ",\"taps\":" + vp::Ev::sigstr(taps) + ",\"x\":" + vp::Ev::sigstr(x) + "}"));
	}
	auto whole = initial;
	const Sig<U> x(all.begin(), all.end());
	const auto y = Filter(x, taps, whole, FILTER_CONV);
	ctx.log(vp::Ev("Whole").raw("post", "{\"out\":" + vp::Ev::sigstr(y, TOL) + ",\"state\":" + vp::Ev::sigstr(whole) + "}"));
	++ctx.sessions;
}

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	long idx = 0;
	for (const auto& line : ctx.script) {
		if (!ctx.mine(idx++)) {
			continue;
		}
		std::istringstream in(line);
		size_t n;
		in >> n;
		std::vector<Step> steps;
		Step s;
		while (in >> s.len >> s.method) {
			steps.push_back(s);
		}
		auto g = ctx.rng(1000 + idx);
		session(g, n, steps);
	}
	const std::vector<size_t> ntaps = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 35, 40, 47, 64, 65, 90 };
	for (int c = 0; c < ctx.scale(150, 1500); ++c) {
		if (!ctx.mine(idx++)) {
			continue;
		}
		auto g = ctx.rng(500000 + c);
		const size_t n = g.pick(ntaps);
		std::vector<Step> steps;
		const int count = g.in(1, 8);
		for (int k = 0; k < count; ++k) {
			const std::vector<size_t> lens = { 0, 1, 2, n - 1, n, n + 1, n / 2, 2 * n, size_t(g.in(0, 20)), size_t(g.in(0, 100)) };
			steps.push_back({ g.pick(lens), int(g.in(0, 1)) });
		}
		session(g, n, steps);
	}
	for (int c = 0; c < ctx.scale(3, 12); ++c) {
		if (!ctx.mine(idx++)) {
			continue;
		}
		auto g = ctx.rng(900000 + c);
		const size_t n = g.in(2, 9);
		const auto taps = rnd<V>(g, n);
		ctx.log(vp::Ev("Begin"));
		ctx.log(vp::Ev("Start").sig("taps", taps).sig("state", Sig<U>(n - 1)));
		for (const auto& [ss, is, os] : { std::array<size_t, 3>{ n, 4, 4 }, std::array<size_t, 3>{ n - 2, 4, 4 }, std::array<size_t, 3>{ n - 1, 4, 5 }, std::array<size_t, 3>{ n - 1, 4, 3 } }) {
			for (int method = 0; method < 2; ++method) {
				Sig<U> st(ss);
				const Sig<U> x(is);
				Sig<R> y(os);
				const auto o = vp::outcome([&] { method ? Filter(y, x, taps, st, FILTER_OLA) : Filter(y, x, taps, st, FILTER_CONV); });
				ctx.log(vp::Ev("Refuse").i("stateSize", ss).i("inSize", is).i("outSize", os).s("outcome", o));
			}
		}
	}
	return vp::finish(ctx);
}
