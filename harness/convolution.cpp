// Direct (VP_OLA=0) and overlap-add (VP_OLA=1) convolution, and non-streaming FIR filtering.  VP_U, VP_V: element types.
#include "vp.hpp"

#include <algorithm>
#include <dspbb/Filtering/FIR/Filter.hpp>
#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Math/OverlapAdd.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <random>

using namespace dspbb;
using cf = std::complex<float>;
using cd = std::complex<double>;
using U = VP_U;
using V = VP_V;
using R = multiplies_result_t<U, V>;
constexpr auto DOM = eSignalDomain::TIME;
template <class T>
using Sig = BasicSignal<T, DOM>;

constexpr double TOL = VP_OLA ? 0.25 : -1;
constexpr long AMP = VP_OLA ? 4 : 9;

vp::Ctx ctx;

template <class T>
Sig<T> rnd(vp::Rng& g, size_t n) {
	Sig<T> s(n);
	for (auto& x : s) {
		x = vp::num<T>(g, -AMP, AMP);
	}
	return s;
}

std::string memstr(const Sig<U>& u, const Sig<V>& v, const Sig<R>& o, double tol = -1) {
	return "{\"u\":" + vp::Ev::sigstr(u) + ",\"v\":" + vp::Ev::sigstr(v) + ",\"o\":" + vp::Ev::sigstr(o, tol) + "}";
}

size_t pick_chunk(vp::Rng& g, size_t lu, size_t lv) {
	const size_t least = 2 * std::min(lu, lv) - 1;
	switch (g.in(0, 5)) {
		case 0: return 0;
		case 1: return least;
		case 2: return least + 1;
		case 3: return least + 2;
		case 4: return least + g.in(0, 40);
		default: return lu + lv + g.in(0, 9);
	}
}

// One call with an output part in the middle of a larger buffer, or with an exactly sized output.
void into(vp::Rng& g, const Sig<U>& u, const Sig<V>& v, const std::string& mode, size_t off, size_t len, bool clear) {
	ctx.log(vp::Ev("Begin"));
	const bool exactly = g.coin();
	const size_t pos = exactly ? 0 : g.in(0, 3);
	Sig<R> o = rnd<R>(g, exactly ? len : pos + len + g.in(0, 20));
	ctx.log(vp::Ev("Load").raw("mem", memstr(u, v, o)));
	auto out = AsView(o).subsignal(pos, len);
	const size_t lu = u.size();
	const size_t lv = v.size();
#if VP_OLA
	const size_t chunk = pick_chunk(g, lu, lv);
	const int form = g.in(0, 2);
	if (mode == "full") {
		if (form == 0 && clear) {
			Filter(out, u, v, CONV_FULL, FILTER_OLA, chunk);
		}
		else {
			OverlapAdd(out, AsConstView(u), v, CONV_FULL, chunk, clear);
		}
	}
	else if (mode == "central") {
		if (form == 0 && clear) {
			Filter(out, u, v, CONV_CENTRAL, FILTER_OLA, chunk);
		}
		else {
			OverlapAdd(out, u, AsConstView(v), CONV_CENTRAL, chunk, clear);
		}
	}
	else {
		if (exactly) {
			OverlapAdd(o, u, v, off, chunk, clear);
		}
		else {
			OverlapAdd(out, u, v, off, chunk, clear);
		}
	}
	ctx.log(vp::Ev("Ola").s("mode", mode).i("pos", pos).i("len", len).i("off", off).b("clear", clear).i("chunk", chunk).raw("mem", memstr(u, v, o, TOL)));
#else
	const int form = g.in(0, 2);
	if (mode == "full") {
		if (form == 0 && clear) {
			Filter(out, u, v, CONV_FULL, FILTER_CONV);
		}
		else {
			Convolution(out, AsConstView(u), v, CONV_FULL, clear);
		}
	}
	else if (mode == "central") {
		if (form == 0 && clear) {
			Filter(out, u, v, CONV_CENTRAL, FILTER_CONV);
		}
		else {
			Convolution(out, u, AsConstView(v), CONV_CENTRAL, clear);
		}
	}
	else {
		if (exactly) {
			Convolution(o, u, v, off, clear);
		}
		else {
			Convolution(out, u, v, off, clear);
		}
	}
	ctx.log(vp::Ev("Conv").s("mode", mode).i("pos", pos).i("len", len).i("off", off).b("clear", clear).raw("mem", memstr(u, v, o)));
#endif
	++ctx.sessions;
}

void value(vp::Rng& g, const Sig<U>& u, const Sig<V>& v, const std::string& mode, size_t off, size_t len) {
	ctx.log(vp::Ev("Begin"));
	ctx.log(vp::Ev("Load").raw("mem", memstr(u, v, Sig<R>{})));
	Sig<R> o;
#if VP_OLA
	const size_t chunk = pick_chunk(g, u.size(), v.size());
	const bool form = g.coin();
	if (mode == "full") {
		o = form ? OverlapAdd(u, v, CONV_FULL, chunk) : Filter(u, v, CONV_FULL, FILTER_OLA, chunk);
	}
	else if (mode == "central") {
		o = form ? OverlapAdd(u, v, CONV_CENTRAL, chunk) : Filter(u, v, CONV_CENTRAL, FILTER_OLA, chunk);
	}
	else {
		o = OverlapAdd(u, v, off, len, chunk);
	}
	ctx.log(vp::Ev("OlaValue").s("mode", mode).i("len", len).i("off", off).i("chunk", chunk).raw("mem", memstr(u, v, o, TOL)));
#else
	const bool form = g.coin();
	if (mode == "full") {
		o = form ? Convolution(u, v, CONV_FULL) : Filter(u, v, CONV_FULL, FILTER_CONV);
	}
	else if (mode == "central") {
		o = form ? Convolution(u, v, CONV_CENTRAL) : Filter(u, v, CONV_CENTRAL, FILTER_CONV);
	}
	else {
		o = Convolution(u, v, off, len);
	}
	ctx.log(vp::Ev("ConvValue").s("mode", mode).i("len", len).i("off", off).raw("mem", memstr(u, v, o)));
#endif
	++ctx.sessions;
}

void refuse(vp::Rng& g, size_t lu, size_t lv) {
	const auto u = rnd<U>(g, lu);
	const auto v = rnd<V>(g, lv);
	const size_t full = ConvolutionLength(lu, lv, CONV_FULL);
	const size_t central = ConvolutionLength(lu, lv, CONV_CENTRAL);
	ctx.log(vp::Ev("Begin"));
	ctx.log(vp::Ev("Load").raw("mem", memstr(u, v, Sig<R>{})));
	const auto attempt = [&](const std::string& mode, size_t len, size_t off, size_t chunk) {
		Sig<R> o(len);
		const auto r = vp::outcome([&] {
#if VP_OLA
			if (mode == "full") {
				OverlapAdd(o, u, v, CONV_FULL, chunk);
			}
			else if (mode == "central") {
				OverlapAdd(o, u, v, CONV_CENTRAL, chunk);
			}
			else {
				OverlapAdd(o, u, v, off, chunk);
			}
#else
			if (mode == "full") {
				Convolution(o, u, v, CONV_FULL);
			}
			else if (mode == "central") {
				Convolution(o, u, v, CONV_CENTRAL);
			}
			else {
				Convolution(o, u, v, off);
			}
#endif
		});
		ctx.log(vp::Ev("Refuse").s("mode", mode).i("len", len).i("off", off).i("chunk", chunk).s("outcome", r));
	};
	attempt("window", full + 1, 0, 0);
	attempt("window", 2, full - 1, 0);
	attempt("full", full + 1, 0, 0);
	attempt("full", full - 1, 0, 0);
	attempt("central", central + 1, 0, 0);
#if VP_OLA
	if (std::min(lu, lv) >= 2) {
		attempt("full", full, 0, 2 * std::min(lu, lv) - 2);
		attempt("window", 2, 1, std::min(lu, lv));
	}
#endif
	++ctx.sessions;
}

void windows(vp::Rng& g, size_t lu, size_t lv, int count, size_t maxlen) {
	const auto u = rnd<U>(g, lu);
	const auto v = rnd<V>(g, lv);
	const size_t full = ConvolutionLength(lu, lv, CONV_FULL);
	const size_t lo = std::min(lu, lv);
	const size_t hi = std::max(lu, lv);
	for (int c = 0; c < count; ++c) {
		const std::vector<size_t> offs = { 0, 1, lo ? lo - 1 : 0, lo, hi ? hi - 1 : 0, hi, full ? full - 1 : 0, full, size_t(g.in(0, full)), size_t(g.in(0, full)), size_t(g.in(0, full)) };
		size_t off = std::min(full, g.pick(offs));
		const size_t rest = full - off;
		const std::vector<size_t> lens = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, rest, rest ? rest - 1 : 0, size_t(g.in(0, rest)), size_t(g.in(0, rest)), size_t(g.in(0, rest)) };
		const size_t len = std::min({ rest, maxlen, g.pick(lens) });
		if (g.coin(1, 5)) {
			value(g, u, v, "window", off, len);
		}
		else {
			into(g, u, v, "window", off, len, g.coin(2, 3));
		}
	}
}

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	long idx = 0;

	// All small length pairs: whole convolution, central part, every window.
	const size_t small = ctx.scale(VP_OLA ? 6 : 7, 10);
	for (size_t lu = 0; lu <= small; ++lu) {
		for (size_t lv = 0; lv <= small; ++lv) {
			if (!ctx.mine(idx++)) {
				continue;
			}
			auto g = ctx.rng(1000 + idx);
			const auto u = rnd<U>(g, lu);
			const auto v = rnd<V>(g, lv);
			const size_t full = lu && lv ? lu + lv - 1 : 0;
			const size_t central = lu && lv ? std::max(lu, lv) - std::min(lu, lv) + 1 : 0;
			ctx.log(vp::Ev("Begin"));
			ctx.log(vp::Ev("Length").i("lu", lu).i("lv", lv).i("full", ConvolutionLength(lu, lv, CONV_FULL)).i("central", ConvolutionLength(lu, lv, CONV_CENTRAL)));
			if (VP_OLA && (lu == 0 || lv == 0)) {
				into(g, u, v, "full", 0, 0, true);
				into(g, u, v, "central", 0, 0, true);
				continue;
			}
			for (const bool clear : { true, false }) {
				into(g, u, v, "full", 0, full, clear);
				into(g, u, v, "central", 0, central, clear);
			}
			value(g, u, v, "full", 0, full);
			value(g, u, v, "central", 0, central);
			if (lu * lv <= size_t(ctx.scale(20, 50)) && lu && lv) {
				for (size_t off = 0; off <= full; ++off) {
					for (size_t len = 0; len <= full - off; ++len) {
						into(g, u, v, "window", off, len, g.coin(2, 3));
					}
				}
			}
			else {
				windows(g, lu, lv, 4, 1000);
			}
		}
	}

	// Lengths around vector widths and around the sizes where the implementation may switch.
	const std::vector<size_t> pool = { 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 47, 48, 63, 64, 65, 100 };
	const int pairs = ctx.scale(VP_OLA ? 90 : 160, 1024);
	for (int c = 0; c < pairs; ++c) {
		if (!ctx.mine(idx++)) {
			continue;
		}
		auto g = ctx.rng(200000 + c);
		const size_t lu = pool[pairs >= 1024 ? c / 32 % 32 : g.in(0, 31)];
		const size_t lv = pool[pairs >= 1024 ? c % 32 : g.in(0, 31)];
		windows(g, lu, lv, 3, 60);
		const auto u = rnd<U>(g, lu);
		const auto v = rnd<V>(g, lv);
		if (c % 4 == 0) {
			into(g, u, v, "full", 0, lu + lv - 1, g.coin());
		}
		if (c % 4 == 1) {
			into(g, u, v, "central", 0, std::max(lu, lv) - std::min(lu, lv) + 1, g.coin());
		}
	}
	const std::vector<size_t> large = { 33, 40, 64, 200, 511, 512, 513, 514, 520, 600, 700 };
	const int larges = ctx.scale(VP_OLA ? 6 : 10, 80);
	for (int c = 0; c < larges; ++c) {
		if (!ctx.mine(idx++)) {
			continue;
		}
		auto g = ctx.rng(300000 + c);
		size_t lu = g.pick(large);
		size_t lv = g.pick(large);
		if (c % 3 == 0) {
			lu = 513 + g.in(0, 90);
			lv = 513 + g.in(0, 90);
		}
		windows(g, lu, lv, 3, 24);
	}

	for (int c = 0; c < ctx.scale(4, 24); ++c) {
		if (ctx.mine(idx++)) {
			auto g = ctx.rng(400000 + c);
			refuse(g, g.in(1, 8), g.in(1, 8));
		}
	}
	return vp::finish(ctx);
}
