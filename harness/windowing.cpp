// Window functions.  VP_T: element type.
#include "vp.hpp"

#include <array>
#include <cassert>
#include <stdexcept>

#include <dspbb/Filtering/Windowing.hpp>

using namespace dspbb;
using cf = std::complex<float>;
using cd = std::complex<double>;
using T = VP_T;
using U = remove_complex_t<T>;

vp::Ctx ctx;
constexpr double ONE = 268435456.0;

template <class C>
std::string fixed(const C& c) {
	std::string s = "[";
	for (const auto& v : c) {
		s += (s.size() > 1 ? "," : "") + std::to_string(vp::scaled(std::real(v), ONE));
	}
	return s + "]";
}

struct Machine {
	Signal<T> mem;

	Machine() {
		ctx.log(vp::Ev("Begin"));
		++ctx.sessions;
	}
	void reserve(size_t n) {
		mem = Signal<T>(n, T(U(2)));
		ctx.log(vp::Ev("Reserve").i("size", long(n)).i("v", 2 * long(ONE)).raw("mem", fixed(mem)));
	}
	// Not every window is there for complex values, and for spectra.
	template <bool VALUE = true, bool SPECTRUM = true, class Into, class Value, class Object>
	void generate(const char* kind, size_t off, size_t n, int p, int q, Into&& into, Value&& value, Object object) {
		into(AsView(mem).subsignal(off, n));
		std::string forms = "[", imag = "[";
		const auto more = [&](const auto& s) {
			forms += (forms.size() > 1 ? "," : "") + fixed(s);
			for (const auto& v : s) {
				if (std::imag(v) != U(0)) {
					imag += imag.size() > 1 ? ",1" : "1";
				}
			}
		};
		if constexpr (VALUE) {
			more(value.template operator()<TIME_DOMAIN>(n));
			more(object.template operator()<T>(n));
		}
		if constexpr (VALUE && SPECTRUM) {
			more(value.template operator()<FREQUENCY_DOMAIN>(n));
			more(object.template operator()<T, FREQUENCY_DOMAIN>(n));
		}
		std::conditional_t<SPECTRUM, Spectrum<T>, Signal<T>> out(n, T(U(3)));
		into(out);
		more(out);
		Signal<T> out2(n, T(U(3)));
		object(out2);
		more(out2);
		object(AsView(out));
		more(out);
		for (const auto& v : mem) {
			if (std::imag(v) != U(0)) {
				imag += imag.size() > 1 ? ",1" : "1";
			}
		}
		ctx.log(vp::Ev("Generate").s("kind", kind).i("off", long(off)).i("n", long(n)).a("a", std::array<int, 2>{ p, q }).b("float", std::is_same_v<U, float>).raw("mem", fixed(mem)).raw("forms", forms + "]").raw("imag", imag + "]"));
	}
};

#define PLAIN(NAME, FN, OBJ) m.generate( \
	NAME, off, n, 0, 1, [&](auto&& o) { FN(o); }, [&]<eSignalDomain D>(size_t k) { return FN<T, D>(k); }, OBJ)
#define WITH(NAME, FN, OBJ, SPECTRUM, P, Q) m.generate<!vp::is_cplx_v<T>, SPECTRUM>( \
	NAME, off, n, P, Q, [&](auto&& o) { FN(o, U(P) / U(Q)); }, [&]<eSignalDomain D>(size_t k) { return FN<T, D>(k, T(U(P) / U(Q))); }, OBJ)

void session(size_t n, vp::Rng& g, bool dolph) {
	Machine m;
	size_t off = size_t(g.in(0, 9));
	m.reserve(off + n + size_t(g.in(0, 9)));
	PLAIN("rectangular", RectangularWindow, windows::rectangular);
	PLAIN("triangular", TriangularWindow, windows::triangular);
	PLAIN("hamming", HammingWindow, windows::hamming);
	PLAIN("blackman", BlackmanWindow, windows::blackman);
	PLAIN("blackmanHarris", BlackmanHarrisWindow, windows::blackmanHarris);
	PLAIN("flattop", FlatTopWindow, windows::flattop);
	PLAIN("lanczos", LanczosWindow, windows::lanczos);
	const std::array<std::array<int, 2>, 6> sigmas = { { { 1, 1 }, { 1, 2 }, { 1, 3 }, { 2, 5 }, { 2, 1 }, { 3, 4 } } };
	const auto s = g.pick(sigmas);
	WITH("gaussian", GaussianWindow, windows::gaussian.sigma(double(s[0]) / s[1]), true, s[0], s[1]);
	const std::array<std::array<int, 2>, 6> alphas = { { { 1, 1 }, { 1, 2 }, { 3, 2 }, { 2, 1 }, { 5, 2 }, { 9, 5 } } };
	const auto a = g.pick(alphas);
	WITH("kaiser", KaiserWindow, windows::kaiser.alpha(double(a[0]) / a[1]), true, a[0], a[1]);
	if (dolph) {
		const std::array<std::array<int, 2>, 5> levels = { { { 1, 2 }, { 1, 10 }, { 1, 100 }, { 1, 30 }, { 1, 60 } } };
		const auto d = g.pick(levels);
		WITH("dolphChebyshev", DolphChebyshevWindow, windows::dolphChebyshev.attenuation(double(d[0]) / d[1]), false, d[0], d[1]);
	}
	if constexpr (!vp::is_cplx_v<T>) {
		m.generate(
			"gaussian", off, n, 1, 1, [&](auto&& o) { GaussianWindow(o, U(1)); }, [&]<eSignalDomain D>(size_t k) { return GaussianWindow<T, D>(k); }, windows::gaussian);
		m.generate(
			"kaiser", off, n, 1, 1, [&](auto&& o) { KaiserWindow(o, U(1)); }, [&]<eSignalDomain D>(size_t k) { return KaiserWindow<T, D>(k); }, windows::kaiser);
	}
}

void gains(vp::Rng& g) {
	const size_t n = size_t(g.in(1, 70));
	Signal<T> s(n);
	Spectrum<T> f(n);
	for (size_t i = 0; i < n; ++i) {
		s[i] = f[i] = T(U(g.in(-20, 20)));
	}
	const Signal<T> c = s;
	Signal<T> wide(n + 6, T(U(50)));
	std::copy(s.begin(), s.end(), wide.begin() + 3);
	const auto v = AsConstView(wide).subsignal(3, n);
	using A = std::array<double, 4>;
	ctx.log(vp::Ev("Gain").x("x", s)
				.q("coherent", A{ double(std::real(CoherentGain(s))), double(std::real(CoherentGain(c))), double(std::real(CoherentGain(AsConstView(f)))), double(std::real(CoherentGain(v))) }, 1000.0)
				.q("energy", A{ double(std::real(EnergyGain(s))), double(std::real(EnergyGain(c))), double(std::real(EnergyGain(AsConstView(f)))), double(std::real(EnergyGain(v))) }, 1000.0));
}

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	long idx = 0;
	const int top = ctx.scale(40, 90);
	for (int n = 1; n <= top; ++n) {
		for (int r = 0; r < ctx.scale(1, 3); ++r) {
			if (ctx.mine(idx++)) {
				auto g = ctx.rng(uint64_t(idx));
				session(size_t(n), g, n <= ctx.scale(24, 48));
			}
		}
	}
	for (int r = 0; r < ctx.scale(6, 30); ++r) {
		if (ctx.mine(idx++)) {
			auto g = ctx.rng(uint64_t(idx));
			session(size_t(g.in(top, 600)), g, false);
		}
	}
	for (int r = 0; r < ctx.scale(10, 60); ++r) {
		if (ctx.mine(idx++)) {
			auto g = ctx.rng(uint64_t(idx));
			ctx.log(vp::Ev("Begin"));
			++ctx.sessions;
			for (int k = 0; k < 20; ++k) {
				gains(g);
			}
		}
	}
	return vp::finish(ctx);
}
