// Transforms of impulse responses.  VP_T: element type.
#include "vp.hpp"

#include <array>
#include <cassert>
#include <stdexcept>

#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Primitives/SignalView.hpp>

using namespace dspbb;
using cf = std::complex<float>;
using cd = std::complex<double>;
using T = VP_T;
using U = remove_complex_t<T>;
using Other = std::conditional_t<std::is_same_v<U, float>, double, float>;
using OtherT = std::conditional_t<vp::is_cplx_v<T>, std::complex<Other>, Other>;

vp::Ctx ctx;
constexpr double ONE = 268435456.0;
const char* const kinds[] = { "mirror", "complement", "shift", "odd", "even" };

template <class C>
std::string part(const C& c, bool imag) {
	std::string s = "[";
	for (const auto& v : c) {
		s += (s.size() > 1 ? "," : "") + std::to_string(vp::scaled(imag ? std::imag(v) : std::real(v), ONE));
	}
	return s + "]";
}

template <class R, class S>
void apply(int kind, R& out, const S& in, const std::array<int, 2>& a) {
	switch (kind) {
		case 0:fir::MirrorResponse(out, in); break;
		case 1: fir::ComplementaryResponse(out, in); break;
		case 2: fir::ShiftResponse(out, in, U(a[0]) / U(a[1])); break;
		case 3: fir::HalfbandToHilbertOdd(out, in); break;
		default: fir::HalfbandToHilbertEven(out, in); break;
	}
}

bool defined(int kind, size_t n, size_t m) {
	switch (kind) {
		case 1:
		case 3: return n % 2 == 1 && m == n;
		case 4: return m % 2 == 0 && n == 2 * m - 1;
		default: return m == n;
	}
}

struct Machine {
	Signal<T> mem;

	Machine() {
		ctx.log(vp::Ev("Begin"));
		++ctx.sessions;
	}
	void fill(size_t n, vp::Rng& g) {
		mem.resize(n);
		for (auto& v : mem) {
			v = vp::num<T>(g, -16, 16) / U(16);
		}
		log();
	}
	void log() {
		ctx.log(vp::Ev("Fill").raw("re", part(mem, false)).raw("im", vp::is_cplx_v<T> ? part(mem, true) : "[]"));
	}
	// The range that is about to be transformed stays below one.
	void calm(size_t from, size_t n, vp::Rng& g) {
		bool loud = false;
		for (size_t i = from; i < from + n; ++i) {
			loud = loud || std::abs(std::real(mem[i])) > U(1) || std::abs(std::imag(mem[i])) > U(1);
		}
		if (loud) {
			for (size_t i = from; i < from + n; ++i) {
				mem[i] = vp::num<T>(g, -16, 16) / U(16);
			}
			log();
		}
	}
	void transform(int kind, size_t from, size_t n, size_t to, size_t m, std::array<int, 2> a, bool more) {
		std::string forms = "[", formsi = "[";
		const auto form = [&](const auto& s) {
			forms += (forms.size() > 1 ? "," : "") + part(s, false);
			if constexpr (vp::is_cplx_v<T>) {
				formsi += (formsi.size() > 1 ? "," : "") + part(s, true);
			}
		};
		if (more) {
			const Signal<T> in(mem.begin() + from, mem.begin() + from + n);
			Signal<T> out(m, T(U(3)));
			apply(kind, out, in, a);
			form(out);
			const Spectrum<T> in2(mem.begin() + from, mem.begin() + from + n);
			Spectrum<T> out2(m, T(U(3)));
			auto v = AsView(out2);
			apply(kind, v, AsView(in2), a);
			form(out2);
			if (kind == 0) {
				Signal<OtherT> out3(m);
				fir::MirrorResponse(out3, in);
				form(out3);
				fir::MirrorResponse(AsView(out).subsignal(0), AsView(mem).subsignal(from, n));
				form(out);
			}
			if (n == m) {
				Signal<T> same = in;
				apply(kind, same, same, a);
				form(same);
			}
		}
		auto out = AsView(mem).subsignal(to, m);
		apply(kind, out, AsConstView(mem).subsignal(from, n), a);
		std::string s = "{\"re\":" + part(mem, false) + ",\"im\":" + (vp::is_cplx_v<T> ? part(mem, true) : "[]") + ",\"forms\":" + forms + "],\"formsi\":" + formsi + "]}";
		ctx.log(vp::Ev("Transform").s("kind", kinds[kind]).i("from", long(from)).i("n", long(n)).i("to", long(to)).i("m", long(m)).a("a", a).b("float", std::is_same_v<U, float>).raw("mem", s));
	}
};

const std::array<std::array<int, 2>, 8> shifts = { { { 0, 1 }, { 1, 1 }, { 1, 2 }, { 1, 3 }, { 2, 5 }, { 3, 4 }, { 1, 10 }, { 7, 9 } } };

// Every transform of one length, apart and in place, and a chain of them.
void session(size_t n, vp::Rng& g) {
	Machine m;
	const size_t before = size_t(g.in(0, 5));
	const size_t between = size_t(g.in(0, 5));
	m.fill(before + 2 * n + between + size_t(g.in(0, 5)), g);
	const size_t a = before, b = before + n + between;
	for (int kind = 0; kind < 5; ++kind) {
		const size_t out = kind == 4 ? (n + 1) / 2 : n;
		if (!defined(kind, n, out)) {
			continue;
		}
		const bool swap = g.coin();
		m.calm(swap ? b : a, n, g);
		m.transform(kind, swap ? b : a, n, swap ? a : b, out, g.pick(shifts), true);
	}
	const int links = n > 100 ? 2 : 6;
	for (int r = 0; r < links; ++r) {
		const int kind = int(g.in(0, 3));
		if (defined(kind, n, n)) {
			const size_t from = g.coin() ? a : b;
			const size_t to = g.coin(2, 3) ? from : a + b - from;
			m.calm(from, n, g);
			m.transform(kind, from, n, to, n, g.pick(shifts), false);
		}
	}
}

void refusals(vp::Rng& g) {
	ctx.log(vp::Ev("Begin"));
	++ctx.sessions;
	for (int r = 0; r < 24; ++r) {
		const int kind = int(g.in(0, 4));
		const size_t n = size_t(g.coin() ? g.in(1, 12) : g.in(1, 80));
		const size_t m = g.coin() ? n : kind == 4 && g.coin() ? (n + 1) / 2 : size_t(g.in(1, 80));
		if (defined(kind, n, m)) {
			continue;
		}
		const Signal<T> in(n, T(U(1)));
		Signal<T> out(m, T(U(1)));
		const auto o = vp::outcome([&] { apply(kind, out, in, { 1, 2 }); });
		ctx.log(vp::Ev("Refuse").s("kind", kinds[kind]).i("n", long(n)).i("m", long(m)).s("outcome", o));
	}
}

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	long idx = 0;
	const int top = ctx.scale(70, 200);
	for (int n = 1; n <= top; ++n) {
		for (int r = 0; r < ctx.scale(1, 3); ++r) {
			if (ctx.mine(idx++)) {
				auto g = ctx.rng(uint64_t(idx));
				session(size_t(n), g);
			}
		}
	}
	for (int r = 0; r < ctx.scale(20, 120); ++r) {
		if (ctx.mine(idx++)) {
			auto g = ctx.rng(uint64_t(idx));
			session(size_t(g.in(top, ctx.scale(200, 600))), g);
		}
	}
	for (int r = 0; r < ctx.scale(8, 40); ++r) {
		if (ctx.mine(idx++)) {
			auto g = ctx.rng(uint64_t(idx));
			refusals(g);
		}
	}
	return vp::finish(ctx);
}
