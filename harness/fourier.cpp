// Fourier transforms.  VP_T: element type of the signals.
#include "vp.hpp"

#include <array>
#include <cassert>
#include <numeric>
#include <stdexcept>

#include <dspbb/Math/FFT.hpp>

using namespace dspbb;
using cf = std::complex<float>;
using cd = std::complex<double>;
using T = VP_T;
using U = remove_complex_t<T>;
using C = std::complex<U>;

vp::Ctx ctx;
constexpr double UNIT = 1048576.0;
constexpr bool REAL = !vp::is_cplx_v<T>;

struct Point {
	long pos, re, im;
};

template <class S>
std::string values(const S& s, double scale) {
	using V = std::decay_t<decltype(*std::begin(s))>;
	std::string r = "{\"r\":[", i = "\"i\":[";
	bool first = true;
	for (const auto& v : s) {
		r += (first ? "" : ",") + std::to_string(vp::scaled(std::real(v), scale));
		if (vp::is_cplx_v<V>) {
			i += (first ? "" : ",") + std::to_string(vp::scaled(std::imag(v), scale));
		}
		first = false;
	}
	return r + "]," + i + "]}";
}

struct List {
	std::string s;
	template <class S>
	void add(const S& v, double scale) { s += (s.empty() ? "" : ",") + values(v, scale); }
	template <class S>
	void points(const S& v) { s += (s.empty() ? "" : ",") + vp::Ev::sigstr(v, 1e-2); }
	template <class S>
	void ints(const S& v) {
		std::string t = "[";
		for (const auto& x : v) {
			t += (t.size() > 1 ? "," : "") + std::to_string(vp::exact(std::real(x)));
		}
		s += (s.empty() ? "" : ",") + t + "]";
	}
	std::string str() const { return "[" + s + "]"; }
};

template <class S>
void guards(std::vector<long>& g, const S& s, size_t off, size_t n) {
	for (size_t i = 0; i < s.size(); ++i) {
		if (i < off || i >= off + n) {
			g.push_back(vp::exact(std::real(s[i])));
			g.push_back(std::imag(s[i]) == U(0) ? 7 : vp::BAD);
		}
	}
}

void load(size_t n, const std::vector<Point>& x) {
	std::string s = "[";
	for (const auto& p : x) {
		s += (s.size() > 1 ? ",[" : "[") + std::to_string(p.pos) + "," + std::to_string(p.re) + "," + std::to_string(p.im) + "]";
	}
	ctx.log(vp::Ev("Load").i("n", long(n)).raw("x", s + "]"));
}

template <class V>
V value(const Point& p) {
	if constexpr (vp::is_cplx_v<V>) {
		return V(U(p.re), U(p.im));
	}
	else {
		return V(p.re);
	}
}

// Each session transforms points forward, and other points backward.
template <class V>
void forward(size_t n, std::vector<Point> x, vp::Rng& g) {
	if (!vp::is_cplx_v<V>) {
		for (auto& p : x) {
			p.im = 0;
		}
	}
	load(n, x);
	Signal<V> s(n, V(0));
	for (const auto& p : x) {
		s[size_t(p.pos)] = value<V>(p);
	}
	List full, half, back;
	std::vector<long> clean;
	const size_t off = size_t(g.in(1, 5));
	Signal<V> wide(n + 9, V(U(7)));
	std::copy(s.begin(), s.end(), wide.begin() + off);
	const auto in = AsConstView(wide).subsignal(off, n);

	Spectrum<C> out(n, C(3, 3));
	Fft(out, s);
	full.add(out, UNIT);
	Spectrum<C> wideOut(n + 9, C(7, 0));
	Fft(AsView(wideOut).subsignal(off, n), in);
	full.add(AsView(wideOut).subsignal(off, n), UNIT);
	guards(clean, wideOut, off, n);
	Signal<V> r(n, V(U(5)));
	Signal<V> wideR(n + 9, V(U(7)));
	if constexpr (vp::is_cplx_v<V>) {
		full.add(Fft(s), UNIT);
		full.add(Fft(in), UNIT);
		Ifft(r, out);
		back.points(r);
		Ifft(AsView(wideR).subsignal(off, n), AsConstView(wideOut).subsignal(off, n));
		back.points(AsView(wideR).subsignal(off, n));
		back.points(Ifft(out));
		back.points(Ifft(AsConstView(out)));
	}
	else {
		const size_t h = n / 2 + 1;
		full.add(Fft(s, FFT_FULL), UNIT);
		full.add(Fft(in, FFT_FULL), UNIT);
		half.add(Fft(s, FFT_HALF), UNIT);
		half.add(Fft(in, FFT_HALF), UNIT);
		Spectrum<C> outHalf(h, C(3, 3));
		Fft(outHalf, in);
		half.add(outHalf, UNIT);
		Spectrum<C> wideHalf(n + 9, C(7, 0));
		Fft(AsView(wideHalf).subsignal(off, h), s);
		half.add(AsView(wideHalf).subsignal(off, h), UNIT);
		guards(clean, wideHalf, off, h);
		Ifft(r, out);
		back.points(r);
		Signal<V> r2(n, V(U(5)));
		Ifft(r2, outHalf);
		back.points(r2);
		Ifft(AsView(wideR).subsignal(off, n), AsConstView(wideHalf).subsignal(off, h));
		back.points(AsView(wideR).subsignal(off, n));
		back.points(Ifft(out, FFT_FULL));
		back.points(Ifft(AsConstView(wideOut).subsignal(off, n), FFT_FULL));
		back.points(Ifft(outHalf, FFT_HALF, n % 2 == 0));
		back.points(Ifft(AsConstView(wideHalf).subsignal(off, h), FFT_HALF, n % 2 == 0));
	}
	guards(clean, wideR, off, n);
	guards(clean, wide, off, n);
	ctx.log(vp::Ev("Forward").b("float", std::is_same_v<U, float>).raw("full", full.str()).raw("half", half.str()).raw("back", back.str()).a("guards", clean).sig("kept", s));
}

void backward(size_t n, const std::vector<Point>& points, vp::Rng& g) {
	std::vector<Point> x = points;
	if (REAL) {
		x.clear();
		for (const auto& p : points) {
			const long m = (long(n) - p.pos) % long(n);
			bool twice = false;
			for (const auto& q : x) {
				twice = twice || q.pos == p.pos;
			}
			if (twice) {
				continue;
			}
			x.push_back({ p.pos, p.re, m == p.pos ? 0 : p.im });
			if (m != p.pos) {
				x.push_back({ m, p.re, -p.im });
			}
		}
	}
	load(n, x);
	Spectrum<C> s(n, C(0, 0));
	for (const auto& p : x) {
		s[size_t(p.pos)] = C(U(p.re), U(p.im));
	}
	List real, cplx;
	std::vector<long> clean;
	const size_t off = size_t(g.in(1, 5));
	const double unit = UNIT * double(n);
	Signal<C> c(n, C(4, 4));
	Ifft(c, s);
	cplx.add(c, unit);
	cplx.add(Ifft(s), unit);
	Signal<C> wideC(n + 9, C(7, 0));
	Ifft(AsView(wideC).subsignal(off, n), s);
	cplx.add(AsView(wideC).subsignal(off, n), unit);
	guards(clean, wideC, off, n);
	if (REAL) {
		const size_t h = n / 2 + 1;
		const auto half = AsConstView(s).subsignal(0, h);
		Signal<U> r(n, U(9));
		Ifft(r, s);
		real.add(r, unit);
		Signal<U> wide(n + 9, U(7));
		Ifft(AsView(wide).subsignal(off, n), half);
		real.add(AsView(wide).subsignal(off, n), unit);
		guards(clean, wide, off, n);
		real.add(Ifft(s, FFT_FULL), unit);
		real.add(Ifft(half, FFT_HALF, n % 2 == 0), unit);
	}
	ctx.log(vp::Ev("Backward").b("float", std::is_same_v<U, float>).raw("complex", cplx.str()).raw("real", real.str()).a("guards", clean));
}

template <class S>
void shifts(size_t n, vp::Rng& g) {
	S s(n);
	const bool count = g.coin();
	for (size_t i = 0; i < n; ++i) {
		s[i] = T(U(count ? long(i) : g.in(-9, 9)));
	}
	List a, b;
	const S before = s;
	a.ints(FftShift(s));
	b.ints(IfftShift(s));
	S out(n, T(U(3)));
	FftShift(out, s);
	a.ints(out);
	IfftShift(out, s);
	b.ints(out);
	FftShift(AsView(out), AsConstView(s));
	a.ints(out);
	out = s;
	FftShift(out, out);
	a.ints(out);
	out = s;
	IfftShift(out, out);
	b.ints(out);
	out = s;
	FftShift(AsView(out), AsView(out));
	a.ints(out);
	out = s;
	IfftShift(AsView(out), out);
	b.ints(out);
	// The same views
	out = s;
	const auto v = AsView(out);
	IfftShift(v, v);
	b.ints(out);
	List x;
	x.ints(s);
	if (std::equal(s.begin(), s.end(), before.begin(), before.end())) {
		ctx.log(vp::Ev("Shift").raw("x", x.s).raw("centred", a.str()).raw("uncentred", b.str()));
	}
	else {
		ctx.log(vp::Ev("InputChanged"));
	}
}

void bins(vp::Rng& g) {
	const long n = g.in(1, 2000), rate = g.in(1, 1000), b = g.in(0, n - 1);
	const double f = FourierBin2Frequency(size_t(b), size_t(n), uint64_t(rate));
	ctx.log(vp::Ev("Bin").i("bins", n).i("rate", rate).i("bin", b).i("freq", vp::scaled(f, 1000.0)).i("back", long(FourierFrequency2Bin(f, size_t(n), uint64_t(rate)))));
	const long h = g.in(0, rate);
	if ((2 * h * n + rate) % (2 * rate) != 0) {
		ctx.log(vp::Ev("Nearest").i("bins", n).i("rate", rate).i("f", h).i("q", long(FourierFrequency2Bin(double(h), size_t(n), uint64_t(rate)))));
	}
}

std::vector<Point> points(size_t n, size_t count, vp::Rng& g) {
	std::vector<long> pos(n);
	std::iota(pos.begin(), pos.end(), 0);
	std::vector<Point> x;
	for (size_t i = 0; i < std::min(n, count); ++i) {
		std::swap(pos[i], pos[size_t(g.in(long(i), long(n) - 1))]);
		x.push_back({ pos[i], g.in(-9, 9), g.in(-9, 9) });
	}
	return x;
}

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	long idx = 0;
	const auto session = [&](size_t n, size_t count) {
		if (!ctx.mine(idx++)) {
			return;
		}
		auto g = ctx.rng(uint64_t(idx));
		ctx.log(vp::Ev("Begin"));
		++ctx.sessions;
		forward<T>(n, points(n, count, g), g);
		backward(n, points(n, count, g), g);
	};
	// All lengths, with all points; and each position of a single point
	const int dense = ctx.scale(36, 90);
	for (int n = 1; n <= dense; ++n) {
		session(size_t(n), size_t(n));
		session(size_t(n), size_t((n + 1) / 2));
	}
	for (int n = 1; n <= ctx.scale(130, 700); ++n) {
		session(size_t(n), 3);
	}
	for (int k = 0; k < ctx.scale(12, 150); ++k) {
		auto g = ctx.rng(uint64_t(k) + 90000);
		session(size_t(g.in(200, ctx.scale(1200, 4000))), 2);
	}
	for (int k = 0; k < 12; ++k) {
		session(size_t(1) << k, 2);
		session((size_t(1) << k) + 1, 2);
	}
	for (int n = 0; n <= ctx.scale(40, 120); ++n) {
		if (ctx.mine(idx++)) {
			auto g = ctx.rng(uint64_t(idx));
			ctx.log(vp::Ev("Begin"));
			++ctx.sessions;
			shifts<Spectrum<T>>(size_t(n), g);
			shifts<Signal<T>>(size_t(n), g);
		}
	}
	for (int k = 0; k < ctx.scale(30, 300); ++k) {
		if (ctx.mine(idx++)) {
			auto g = ctx.rng(uint64_t(idx));
			ctx.log(vp::Ev("Begin"));
			++ctx.sessions;
			for (int j = 0; j < 20; ++j) {
				bins(g);
			}
		}
	}
	return vp::finish(ctx);
}
