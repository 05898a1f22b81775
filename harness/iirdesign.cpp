// Designs of IIR filters, from scripts of the specification.  VP_T: type of the filters.
#include "vp.hpp"

#include <array>
#include <cassert>
#include <cmath>
#include <stdexcept>

#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Filtering/IIR.hpp>

using namespace dspbb;
using T = VP_T;

vp::Ctx ctx;
constexpr double ONE = 268435456.0;
const char* const methods[] = { "", "butterworth", "chebyshev1", "chebyshev2", "elliptic" };
const char* const types[] = { "", "lowpass", "highpass", "bandpass", "bandstop" };
enum { METHOD, TYPE, ORDER, PRECISION, LOWER, UPPER, PASS, STOP };
using Plan = std::vector<int>;

std::string num(double v) { return std::to_string(vp::scaled(v, ONE)); }
template <class R>
std::string reals(const R& r) {
	std::string s = "[";
	for (const auto& v : r) {
		s += (s.size() > 1 ? "," : "") + num(v);
	}
	return s + "]";
}
template <class R>
std::string pairs(const R& r) {
	std::string s = "[";
	for (const auto& v : r) {
		s += (s.size() > 1 ? ",[" : "[") + num(v.real()) + "," + num(v.imag()) + "]";
	}
	return s + "]";
}
std::string filter(const DiscreteZeroPoleGain<T>& f) {
	int e = 0;
	const double m = std::frexp(double(f.gain), &e);
	return "{\"zr\":" + reals(f.zeros.real_roots()) + ",\"zc\":" + pairs(f.zeros.complex_pairs()) + ",\"pr\":" + reals(f.poles.real_roots()) + ",\"pc\":" + pairs(f.poles.complex_pairs()) + ",\"gain\":[" + num(m) + "," + std::to_string(e) + "]}";
}

template <class P, class D, class F>
void withRipples(const Plan& p, const D& d, F&& f) {
	const auto at = [&](int i) { return P(p[i]) / P(64); };
	if constexpr (requires { d.PassbandRipple(P(0)).StopbandRipple(P(0)); }) {
		f(d.StopbandRipple(at(STOP)).PassbandRipple(at(PASS)));
	}
	else if constexpr (requires { d.PassbandRipple(P(0)); }) {
		f(d.PassbandRipple(at(PASS)));
	}
	else if constexpr (requires { d.StopbandRipple(P(0)); }) {
		f(d.StopbandRipple(at(STOP)));
	}
	else {
		f(d);
	}
}
template <class P, class A, class B, class C, class D, class F>
void four(const Plan& p, const A& low, const B& high, const C& pass, const D& stop, F&& f) {
	const P a = P(p[LOWER]) / P(64), b = P(p[UPPER]) / P(64);
	switch (p[TYPE]) {
		case 1: return withRipples<P>(p, low.Cutoff(a), f);
		case 2: return withRipples<P>(p, high.Cutoff(a), f);
		case 3: return withRipples<P>(p, pass.Band(a, b), f);
		default: return withRipples<P>(p, stop.Band(a, b), f);
	}
}
template <class P, class F>
void described(const Plan& p, F&& f) {
	switch (p[METHOD]) {
		case 1: return four<P>(p, Iir.Lowpass.Butterworth, Iir.Highpass.Butterworth, Iir.Bandpass.Butterworth, Iir.Bandstop.Butterworth, f);
		case 2: return four<P>(p, Iir.Lowpass.Chebyshev1, Iir.Highpass.Chebyshev1, Iir.Bandpass.Chebyshev1, Iir.Bandstop.Chebyshev1, f);
		case 3: return four<P>(p, Iir.Lowpass.Chebyshev2, Iir.Highpass.Chebyshev2, Iir.Bandpass.Chebyshev2, Iir.Bandstop.Chebyshev2, f);
		default: return four<P>(p, Iir.Lowpass.Elliptic, Iir.Highpass.Elliptic, Iir.Bandpass.Elliptic, Iir.Bandstop.Elliptic, f);
	}
}
DiscreteZeroPoleGain<T> design(const Plan& p) {
	DiscreteZeroPoleGain<T> r;
	const auto f = [&](const auto& d) { r = DesignFilter<T>(size_t(p[ORDER]), d); };
	p[PRECISION] ? described<double>(p, f) : described<float>(p, f);
	return r;
}
std::string desc(const Plan& p) {
	const std::string e = p[TYPE] <= 2 ? std::to_string(p[LOWER]) : std::to_string(p[LOWER]) + "," + std::to_string(p[UPPER]);
	return std::string("{\"method\":\"") + methods[p[METHOD]] + "\",\"type\":\"" + types[p[TYPE]] + "\",\"e\":[" + e + "],\"pass\":[" + std::to_string(p[PASS]) + ",64],\"stop\":[" + std::to_string(p[STOP]) + ",64]}";
}
void step(const Plan& p) {
	if (p[TYPE] > 2 && p[ORDER] % 2 == 1) {
		const auto outcome = vp::outcome([&] { (void)design(p); });
		ctx.log(vp::Ev("Refuse").raw("d", desc(p)).i("order", p[ORDER]).s("outcome", outcome));
		return;
	}
	const auto f = design(p);
	ctx.log(vp::Ev("Design").raw("d", desc(p)).i("order", p[ORDER]).b("float", std::is_same_v<T, float>).raw("f", filter(f)).raw("again", filter(design(p))));
	ctx.count(std::string(methods[p[METHOD]]) + "-" + types[p[TYPE]]);
}

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	long idx = 0;
	for (const auto& line : ctx.script) {
		if (!ctx.mine(idx++)) {
			continue;
		}
		ctx.log(vp::Ev("Begin"));
		++ctx.sessions;
		std::stringstream all(line);
		for (std::string part; std::getline(all, part, ';');) {
			std::stringstream one(part);
			Plan s;
			for (int n; one >> n;) {
				s.push_back(n);
			}
			step(s);
		}
	}
	return vp::finish(ctx);
}
