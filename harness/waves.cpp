// Waveforms and spaces.  VP_T: element type.
#include "vp.hpp"

#include <array>
#include <cassert>
#include <stdexcept>

#include <dspbb/Generators/Spaces.hpp>
#include <dspbb/Generators/Waveforms.hpp>
#include <dspbb/Primitives/SignalView.hpp>

using namespace dspbb;
using cf = std::complex<float>;
using cd = std::complex<double>;
using T = VP_T;
using U = remove_complex_t<T>;

vp::Ctx ctx;
constexpr double ONE = 268435456.0;
using Frac = std::array<long, 2>;

template <class C>
std::string fixed(const C& c, double scale = ONE) {
	std::string s = "[";
	for (const auto& v : c) {
		s += (s.size() > 1 ? "," : "") + std::to_string(vp::scaled(std::real(v), scale));
	}
	return s + "]";
}

struct Forms {
	double scale = ONE;
	std::string forms = "";
	std::string imag = "";
	std::string guards = "";
	template <class S>
	void more(const S& s) {
		forms += (forms.empty() ? "" : ",") + fixed(s, scale);
		parts(s);
	}
	template <class S>
	void parts(const S& s) {
		for (const auto& v : s) {
			if (std::imag(v) != U(0)) {
				imag += imag.empty() ? "1" : ",1";
			}
		}
	}
	template <class S>
	void guard(const S& s, size_t off, size_t n) {
		for (size_t i = 0; i < s.size(); ++i) {
			if (i < off || i >= off + n) {
				guards += (guards.empty() ? "" : ",") + std::to_string(vp::exact(std::real(s[i])));
			}
		}
	}
	vp::Ev& log(vp::Ev& e) { return e.raw("forms", "[" + forms + "]").raw("imag", "[" + imag + "]"); }
};

double turns(const Frac& p) { return 2.0 * pi_v<double> * double(p[0]) / double(p[1]); }
double quot(const Frac& p) { return double(p[0]) / double(p[1]); }

struct Machine {
	Signal<T> mem;
	Machine() {
		ctx.log(vp::Ev("Begin"));
		++ctx.sessions;
	}
	void reserve(size_t n) {
		mem = Signal<T>(n, T(U(2)));
		ctx.log(vp::Ev("Reserve").i("size", long(n)).i("v", 2 * long(ONE)).raw("mem", fixed(mem)));
	}
	template <class Into, class Value>
	void wave(vp::Ev& e, size_t off, size_t n, const Into& into, const Value& value) {
		into(AsView(mem).subsignal(off, n));
		Forms f;
		f.more(value.template operator()<TIME_DOMAIN>());
		f.more(value.template operator()<FREQUENCY_DOMAIN>());
		Signal<T> out(n, T(U(3)));
		into(out);
		f.more(out);
		f.parts(mem);
		e.i("off", long(off)).i("n", long(n)).b("float", std::is_same_v<U, float>).raw("mem", fixed(mem));
		ctx.log(f.log(e));
	}
	void tones(size_t off, size_t n, long rate, Frac f, Frac p0, Frac a) {
		const double fr = quot(f), ph = turns(p0);
		const uint64_t sr = uint64_t(rate);
		const auto ev = [&](const char* kind) { return vp::Ev("Tone").s("kind", kind).i("rate", rate).a("f", f).a("p0", p0).a("a", a); };
		auto e1 = ev("sine"), e2 = ev("sawtooth"), e3 = ev("pwm"), e4 = ev("square");
		wave(e1, off, n, [&](auto&& o) { SineWave(o, sr, fr, ph); }, [&]<eSignalDomain D>() { return SineWave<T, D>(n, sr, fr, ph); });
		wave(e2, off, n, [&](auto&& o) { SawtoothWave(o, sr, fr, ph, quot(a)); }, [&]<eSignalDomain D>() { return SawtoothWave<T, D>(n, sr, fr, ph, quot(a)); });
		wave(e3, off, n, [&](auto&& o) { PwmWave(o, sr, fr, ph, quot(a)); }, [&]<eSignalDomain D>() { return PwmWave<T, D>(n, sr, fr, ph, quot(a)); });
		wave(e4, off, n, [&](auto&& o) { SquareWave(o, sr, fr, ph); }, [&]<eSignalDomain D>() { return SquareWave<T, D>(n, sr, fr, ph); });
		// Defaults
		p0 = { 0, 1 };
		a = { 1, 1 };
		auto d1 = ev("sine"), d2 = ev("sawtooth"), d4 = ev("square");
		wave(d1, off, n, [&](auto&& o) { SineWave(o, sr, fr); }, [&]<eSignalDomain D>() { return SineWave<T, D>(n, sr, fr); });
		wave(d2, off, n, [&](auto&& o) { SawtoothWave(o, sr, fr); }, [&]<eSignalDomain D>() { return SawtoothWave<T, D>(n, sr, fr); });
		wave(d4, off, n, [&](auto&& o) { SquareWave(o, sr, fr); }, [&]<eSignalDomain D>() { return SquareWave<T, D>(n, sr, fr); });
		a = { 1, 2 };
		auto d3 = ev("pwm");
		wave(d3, off, n, [&](auto&& o) { PwmWave(o, sr, fr); }, [&]<eSignalDomain D>() { return PwmWave<T, D>(n, sr, fr); });
	}
	void chirps(size_t off, size_t n, long rate, long f, long g, Frac p0, Frac a) {
		const double ph = turns(p0), f1 = double(f), f2 = double(g);
		const uint64_t sr = uint64_t(rate);
		const auto ev = [&](const char* kind) { return vp::Ev("Chirp").s("kind", kind).i("rate", rate).i("f", f).i("g", g).a("p0", p0).a("a", a); };
		auto e1 = ev("sine"), e2 = ev("sawtooth"), e3 = ev("pwm"), e4 = ev("square");
		wave(e1, off, n, [&](auto&& o) { SineChirp(o, sr, f1, f2, ph); }, [&]<eSignalDomain D>() { return SineChirp<T, D>(n, sr, f1, f2, ph); });
		wave(e2, off, n, [&](auto&& o) { SawtoothChirp(o, sr, f1, f2, ph, quot(a)); }, [&]<eSignalDomain D>() { return SawtoothChirp<T, D>(n, sr, f1, f2, ph, quot(a)); });
		wave(e3, off, n, [&](auto&& o) { PwmChirp(o, sr, f1, f2, ph, quot(a)); }, [&]<eSignalDomain D>() { return PwmChirp<T, D>(n, sr, f1, f2, ph, quot(a)); });
		wave(e4, off, n, [&](auto&& o) { SquareChirp(o, sr, f1, f2, ph); }, [&]<eSignalDomain D>() { return SquareChirp<T, D>(n, sr, f1, f2, ph); });
		p0 = { 0, 1 };
		a = { 1, 1 };
		auto d1 = ev("sine"), d2 = ev("sawtooth"), d4 = ev("square");
		wave(d1, off, n, [&](auto&& o) { SineChirp(o, sr, f1, f2); }, [&]<eSignalDomain D>() { return SineChirp<T, D>(n, sr, f1, f2); });
		wave(d2, off, n, [&](auto&& o) { SawtoothChirp(o, sr, f1, f2); }, [&]<eSignalDomain D>() { return SawtoothChirp<T, D>(n, sr, f1, f2); });
		wave(d4, off, n, [&](auto&& o) { SquareChirp(o, sr, f1, f2); }, [&]<eSignalDomain D>() { return SquareChirp<T, D>(n, sr, f1, f2); });
		a = { 1, 2 };
		auto d3 = ev("pwm");
		wave(d3, off, n, [&](auto&& o) { PwmChirp(o, sr, f1, f2); }, [&]<eSignalDomain D>() { return PwmChirp<T, D>(n, sr, f1, f2); });
	}
};

template <class S>
void space(vp::Ev& e, double scale, size_t n, bool closed, const S& into, auto&& values) {
	Forms f;
	f.scale = scale;
	Signal<T> out(n, T(U(3)));
	into(out);
	f.more(out);
	Spectrum<T> wide(n + 5, T(U(7)));
	into(AsView(wide).subsignal(2, n));
	f.more(AsView(wide).subsignal(2, n));
	f.guard(wide, 2, n);
	values(f);
	e.i("n", long(n)).b("closed", closed).b("float", std::is_same_v<U, float>).raw("guards", "[" + f.guards + "]");
	ctx.log(f.log(e));
}

void spaces(size_t n, vp::Rng& g) {
	const long a = g.in(-300, 300), b = g.in(-300, 300);
	for (const bool closed : { true, false }) {
		vp::Ev e("Lin");
		e.i("a", a).i("b", b);
		space(
			e, 1000.0, n, closed, [&](auto&& o) { closed && n % 2 ? LinSpace(o, U(a), U(b)) : LinSpace(o, U(a), U(b), closed); },
			[&](Forms& f) {
				f.more(LinSpace<T, TIME_DOMAIN>(U(a), U(b), n, closed));
				f.more(LinSpace<T, FREQUENCY_DOMAIN>(U(a), U(b), n, closed));
				if (closed) {
					f.more(LinSpace<T, TIME_DOMAIN>(U(a), U(b), n));
				}
			});
		const long scale = g.in(1, 8), la = g.in(-2 * scale, scale / 2), lb = g.in(-2 * scale, scale / 2);
		const Frac base = g.pick(std::array<Frac, 5>{ { { 10, 1 }, { 10, 1 }, { 2, 1 }, { 3, 2 }, { 1, 2 } } });
		const U ua = U(la) / U(scale), ub = U(lb) / U(scale), ubase = U(base[0]) / U(base[1]);
		vp::Ev e2("Log");
		e2.i("a", la).i("b", lb).i("scale", scale).a("base", base);
		space(
			e2, ONE, n, closed, [&](auto&& o) { closed && base[0] == 10 ? LogSpace(o, ua, ub) : LogSpace(o, ua, ub, ubase, closed); },
			[&](Forms& f) {
				f.more(LogSpace<T, TIME_DOMAIN>(ua, ub, n, ubase, closed));
				f.more(LogSpace<T, FREQUENCY_DOMAIN>(ua, ub, n, ubase, closed));
				if (closed && base[0] == 10) {
					f.more(LogSpace<T, TIME_DOMAIN>(ua, ub, n));
				}
			});
	}
	const long base = g.pick(std::array<long, 3>{ 2, 3, 10 }), pa = g.in(0, 2), pb = g.in(pa, 6);
	Forms f;
	f.scale = 100.0;
	const size_t count = size_t(pb - pa + 1);
	f.more(LogSpace<T, TIME_DOMAIN>(U(pa), U(pb), count, U(base)));
	f.more(LogSpace<T, TIME_DOMAIN>(U(pa), U(pb + 1), count, U(base), false));
	vp::Ev e("Powers");
	e.i("a", pa).i("b", pb).i("base", base);
	ctx.log(f.log(e));
}

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	long idx = 0;
	const std::array<Frac, 8> parts = { { { 1, 2 }, { 0, 1 }, { 1, 1 }, { 1, 4 }, { 3, 4 }, { 1, 3 }, { 9, 10 }, { 2, 5 } } };
	for (int k = 0; k < ctx.scale(120, 1500); ++k) {
		if (!ctx.mine(idx++)) {
			continue;
		}
		auto g = ctx.rng(uint64_t(idx));
		Machine m;
		for (int j = 0; j < 4; ++j) {
			const size_t off = size_t(g.in(0, 4));
			const bool chirp = g.coin();
			const size_t n = size_t(g.in(0, 3) == 0 ? g.in(0, 3) : g.in(4, 40));
			m.reserve(off + n + size_t(g.in(0, 4)));
			// Eighths of a turn are where waves jump, together with small rates.
			const long q = g.pick(std::array<long, 4>{ 1, 4, 8, 12 });
			const Frac p0 = { g.coin(1, 4) ? 0 : g.in(-3 * q, 3 * q), q };
			const Frac a = g.pick(parts);
			if (chirp) {
				const long rate = g.pick(std::array<long, 5>{ 1, 16, 100, 64, 441 });
				m.chirps(off, n, rate, g.in(-rate, rate), g.in(-rate, rate), p0, a);
			}
			else {
				const long rate = g.pick(std::array<long, 6>{ 1, 8, 100, 1000, 11025, 44100 });
				const long fd = rate <= 1000 ? g.pick(std::array<long, 3>{ 1, 2, 3 }) : 1;
				const Frac p = rate > 20000 ? Frac{ p0[0], std::min(8L, q) } : p0;
				m.tones(off, n, rate, Frac{ g.coin(1, 8) ? 0 : g.coin() ? g.in(-rate, rate) : g.in(0, rate / 4 + 2), fd }, p, a);
			}
		}
	}
	for (int n = 0; n <= ctx.scale(40, 150); ++n) {
		if (ctx.mine(idx++)) {
			auto g = ctx.rng(uint64_t(idx));
			Machine m;
			for (int j = 0; j < 4; ++j) {
				spaces(size_t(n), g);
			}
		}
	}
	return vp::finish(ctx);
}
