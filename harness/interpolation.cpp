// Expanding, decimating, interpolating.  VP_T: element type of the input; VP_P: of the filter.
#include "vp.hpp"

#include <array>
#include <cassert>
#include <stdexcept>

#include <dspbb/Filtering/Resample.hpp>

using namespace dspbb;
using cf = std::complex<float>;
using cd = std::complex<double>;
using T = VP_T;
using P = VP_P;
using R = multiplies_result_t<T, P>;
constexpr auto DOM = eSignalDomain::TIME;
template <class X>
using Sig = BasicSignal<X, DOM>;

vp::Ctx ctx;

template <class X>
Sig<X> random_signal(vp::Rng& g, size_t n, long amp = 9) {
	Sig<X> s(n);
	for (auto& x : s) {
		x = vp::num<X>(g, -amp, amp);
	}
	return s;
}

template <class X>
void guard(const Sig<X>& before, const Sig<X>& after, size_t off, size_t n) {
	const auto rest = [&](const Sig<X>& s) {
		std::vector<X> r(s.begin(), s.begin() + ptrdiff_t(off));
		r.insert(r.end(), s.begin() + ptrdiff_t(off + n), s.end());
		return vp::Ev::sigstr(r);
	};
	ctx.log(vp::Ev("Guard").raw("before", rest(before)).raw("after", rest(after)));
}

void begin() {
	ctx.log(vp::Ev("Begin"));
	++ctx.sessions;
}

void stream(const Sig<T>& x, const Sig<P>& h, size_t n) {
	ctx.log(vp::Ev("Stream").sig("x", x).sig("h", h).i("n", long(n)));
}

void runs(const std::string& line, vp::Rng& g) {
	std::istringstream in(line);
	size_t lx, lh, n;
	in >> lx >> lh >> n;
	auto x = random_signal<T>(g, lx);
	auto h = random_signal<P>(g, lh, 5);
	const auto poly = PolyphaseDecompose(h, n);
	begin();
	stream(x, h, n);
	size_t first = 0, start = 0;
	for (size_t avail, len; in >> avail >> len;) {
		const size_t before = size_t(g.in(0, 3)), after = size_t(g.in(0, 3));
		auto mem = random_signal<R>(g, before + len + after);
		const auto copy = mem;
		if (first >= avail) {
			// Continuing needs nothing of what is there; wait for more.
			continue;
		}
		// The stream in memory of its own length, so that reading beyond what is there shows.
		Sig<T> there(x.begin() + ptrdiff_t(first), x.begin() + ptrdiff_t(avail));
		const auto out = AsView(mem).subsignal(before, len);
		InterpolSuspensionPoint next{};
		switch (g.in(0, 2)) {
			case 0: next = Interpolate(out, there, poly, start); break;
			case 1: next = Interpolate(out, AsView(there), poly, start); break;
			default: {
				auto p2 = PolyphaseDecompose(h, n);
				next = Interpolate(out, AsConstView(there), p2, start);
			}
		}
		std::string kept = "[" + vp::Ev::sigstr(x) + "," + vp::Ev::sigstr(h) + "]";
		ctx.log(vp::Ev("Run").i("first", long(first)).i("start", long(start)).i("avail", long(avail)).sig("y", out).a("next", std::array<size_t, 2>{ first + next.firstInputSample, next.startPoint }).raw("kept", kept));
		guard(copy, mem, before, len);
		first += next.firstInputSample;
		start = next.startPoint;
	}
}

void whole_windows(vp::Rng& g, size_t lx, size_t lh, size_t n) {
	auto x = random_signal<T>(g, lx);
	auto h = random_signal<P>(g, lh, 5);
	auto poly = PolyphaseDecompose(h, n);
	begin();
	stream(x, h, n);
	const size_t full = InterpolLength(lx, lh, n, CONV_FULL);
	const size_t central = InterpolLength(lx, lh, n, CONV_CENTRAL);
	ctx.log(vp::Ev("Length").i("x", long(lx)).i("h", long(lh)).i("n", long(n)).i("full", long(full)).i("central", long(central)));
	for (int k = 0; k < 4; ++k) {
		const size_t off = k == 0 ? 0 : size_t(g.in(0, long(full)));
		const size_t len = k == 0 ? full : k == 1 ? full - off : size_t(g.in(0, long(full - off)));
		const auto y = Interpolate(x, poly, off, len);
		ctx.log(vp::Ev("Window").i("off", long(off)).i("len", long(len)).sig("y", y));
	}
}

void rates(vp::Rng& g, size_t lx, size_t n) {
	const auto x = random_signal<T>(g, lx);
	begin();
	const auto e = Expand(x, n);
	ctx.log(vp::Ev("Expand").sig("x", x).i("n", long(n)).sig("y", e));
	const auto d = Decimate(x, n);
	ctx.log(vp::Ev("Decimate").sig("x", x).i("n", long(n)).sig("y", d));
	{
		auto mem = random_signal<T>(g, lx * n + 5);
		const auto copy = mem;
		Expand(AsView(mem).subsignal(2, lx * n), x, n);
		ctx.log(vp::Ev("Expand").sig("x", x).i("n", long(n)).sig("y", AsView(mem).subsignal(2, lx * n)));
		guard(copy, mem, 2, lx * n);
	}
	{
		const size_t m = (lx + n - 1) / n;
		auto mem = random_signal<T>(g, m + 5);
		const auto copy = mem;
		Decimate(AsView(mem).subsignal(2, m), AsView(x), n);
		ctx.log(vp::Ev("Decimate").sig("x", x).i("n", long(n)).sig("y", AsView(mem).subsignal(2, m)));
		guard(copy, mem, 2, m);
	}
}

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	long idx = 0;
	for (const auto& line : ctx.script) {
		if (ctx.mine(idx++)) {
			auto g = ctx.rng(uint64_t(idx));
			runs(line, g);
		}
	}
	const int top = ctx.scale(9, 13);
	for (int lx = 1; lx <= top; ++lx) {
		for (int lh = 1; lh <= ctx.scale(14, 30); lh += lh < 10 ? 1 : 3) {
			for (int n = 1; n <= ctx.scale(6, 11); ++n) {
				if (ctx.mine(idx++)) {
					auto g = ctx.rng(uint64_t(idx) + 500000);
					whole_windows(g, size_t(lx), size_t(lh), size_t(n));
				}
			}
		}
	}
	for (int lx = 0; lx <= ctx.scale(20, 60); ++lx) {
		for (int n = 1; n <= ctx.scale(9, 25); ++n) {
			if (ctx.mine(idx++)) {
				auto g = ctx.rng(uint64_t(idx) + 900000);
				rates(g, size_t(lx), size_t(n));
			}
		}
	}
	return vp::finish(ctx);
}
