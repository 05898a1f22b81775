// Designs of FIR filters, from scripts of the specification.  VP_T: type of the taps.
#include "vp.hpp"

#include <array>
#include <cassert>
#include <stdexcept>

#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Primitives/SignalView.hpp>

using namespace dspbb;
using T = VP_T;

vp::Ctx ctx;
constexpr double ONE = 268435456.0;
const char* const types[] = { "", "lowpass", "highpass", "bandpass", "bandstop", "arbitrary", "hilbert" };
enum { LOW = 1, HIGH, PASS, STOP, ARBITRARY, HILBERT };
enum { METHOD, TYPE, TAPS, PRECISION, EDGE, WKIND = 8, WP, WQ, CURVE, WCURVE, GRID, WEIGHT };
using Plan = std::vector<int>;

struct Curve {
	int id = 0;
	template <class F>
	F operator()(F f) const {
		return id == 0 ? F(1) : id == 1 ? F(1) - f / F(2) : id == 2 ? F(f < F(0.5)) + F(0.25) : F(0.5) + f * f;
	}
};

struct AnyWindow {
	int kind;
	double a;
	template <class S>
	void operator()(S&& s) const {
		switch (kind) {
			case 1: return windows::hamming(s);
			case 2: return windows::rectangular(s);
			case 3: return windows::triangular(s);
			case 4: return windows::blackman(s);
			case 6: return windows::gaussian.sigma(a)(s);
			case 10: // Not symmetric
				for (size_t k = 0; k < s.size(); ++k) {
					using F = std::decay_t<decltype(s[0])>;
					s[k] = F(s.size() + k) / F(2 * s.size());
				}
				return;
			default: return windows::lanczos(s);
		}
	}
};

template <class S>
std::string values(const S& s) {
	std::string r = "[";
	for (const auto& v : s) {
		r += (r.size() > 1 ? "," : "") + std::to_string(vp::scaled(v, ONE));
	}
	return r + "]";
}
std::string ints(const std::vector<int>& s) {
	std::string r = "[";
	for (const auto& v : s) {
		r += (r.size() > 1 ? "," : "") + std::to_string(v);
	}
	return r + "]";
}

struct Machine {
	Signal<T> mem;
	vp::Rng g;
	Signal<T> table;

	explicit Machine(vp::Rng g)
		: g(g) {
		ctx.log(vp::Ev("Begin"));
		++ctx.sessions;
		mem.resize(80);
		for (auto& v : mem) {
			v = T(this->g.in(-64, 64)) / T(64);
		}
		ctx.log(vp::Ev("Reserve").raw("v", values(mem)));
	}
	static std::vector<int> edges(const Plan& p) {
		const bool first = p[WQ] == 1;
		const int* e = &p[EDGE];
		if (p[TYPE] <= HIGH) {
			return p[METHOD] == 1 ? std::vector<int>{ first ? e[0] : e[3] } : first ? std::vector<int>{ e[0], e[1] } : std::vector<int>{ e[2], e[3] };
		}
		return p[TYPE] > STOP ? std::vector<int>{} : p[METHOD] == 1 ? std::vector<int>{ e[0], e[2] } : std::vector<int>{ e[0], e[1], e[2], e[3] };
	}
	static std::vector<int> weights(const Plan& p) {
		const size_t n = p[TYPE] <= HIGH ? 3 : p[TYPE] <= STOP ? 5 : p[TYPE] == HILBERT ? 1 : 0;
		return { p.begin() + WEIGHT, p.begin() + WEIGHT + n };
	}
	std::string window(const Plan& p) {
		static const char* const names[] = { "hamming", "hamming", "rectangular", "triangular", "blackman", "kaiser", "gaussian", "lanczos", "table", "table", "ramp" };
		return std::string("{\"kind\":\"") + names[p[WKIND]] + "\",\"a\":[" + std::to_string(p[WP]) + "," + std::to_string(p[WQ]) + "],\"table\":" + values(table) + "}";
	}
	std::string desc(const Plan& p) {
		return std::string("{\"method\":\"") + (p[METHOD] == 1 ? "windowed" : "leastSquares") + "\",\"type\":\"" + types[p[TYPE]] + "\",\"e\":" + ints(edges(p)) + ",\"width\":" + std::to_string(p[EDGE])
			   + ",\"curve\":" + std::to_string(p[CURVE]) + ",\"wcurve\":" + std::to_string(p[WCURVE]) + ",\"grid\":" + std::to_string(p[GRID]) + ",\"weight\":" + ints(weights(p)) + ",\"w\":" + window(p) + "}";
	}

	template <class F>
	void withWindow(const Plan& p, F&& f) {
		const double a = double(p[WP]) / double(p[WQ]);
		switch (p[WKIND]) {
			case 0: return f([](auto d) { return d; });
			case 5: return f([a](auto d) { return d.Window(windows::kaiser.alpha(a)); });
			case 8:
			case 9: return f([this](auto d) { return d.Window(table); });
			default: return f([&p, a](auto d) { return d.Window(AnyWindow{ p[WKIND], a }); });
		}
	}
	// Descriptions with edges of type P
	template <class P, class F>
	void windowed(const Plan& p, F&& f) {
		const auto e = edges(p);
		const auto at = [&](int i) { return P(e[i]) / P(64); };
		withWindow(p, [&](auto with) {
			switch (p[TYPE]) {
				case LOW: return f(with(Fir.Lowpass.Windowed.Cutoff(at(0))));
				case HIGH: return f(with(Fir.Highpass.Windowed.Cutoff(at(0))));
				case PASS: return f(with(Fir.Bandpass.Windowed.Band(at(0), at(1))));
				case STOP: return f(with(Fir.Bandstop.Windowed.Band(at(0), at(1))));
				case ARBITRARY: return f(with(Fir.Arbitrary.Windowed.Response(Curve{ p[CURVE] })));
				default: return f(with(Fir.Hilbert.Windowed));
			}
		});
	}
	template <class P, class F>
	void leastSquares(const Plan& p, F&& f) {
		const auto e = edges(p);
		const auto at = [&](int i) { return P(e[i]) / P(64); };
		const P scale = p[TYPE] == HILBERT ? P(1) / P(16) : P(p[WP]) / P(16);
		const auto w = [&](int i) { return P(p[WEIGHT + i]) * scale; };
		const size_t grid = size_t(p[GRID]);
		switch (p[TYPE]) {
			case LOW: return f(Fir.Lowpass.LeastSquares.Cutoff(at(0), at(1)).Weight(w(0), w(1), w(2)).Grid(grid));
			case HIGH: return f(Fir.Highpass.LeastSquares.Cutoff(at(0), at(1)).Weight(w(0), w(1), w(2)).Grid(grid));
			case PASS: return f(Fir.Bandpass.LeastSquares.Band(at(0), at(1), at(2), at(3)).Weight(w(0), w(1), w(2), w(3), w(4)).Grid(grid));
			case STOP: return f(Fir.Bandstop.LeastSquares.Band(at(0), at(1), at(2), at(3)).Weight(w(0), w(1), w(2), w(3), w(4)).Grid(grid));
			case ARBITRARY: return f(Fir.Arbitrary.LeastSquares.Response(Curve{ p[CURVE] }).Weight(Curve{ p[WCURVE] }).Grid(grid));
			default: return f(Fir.Hilbert.LeastSquares.TransitionWidth(P(p[EDGE]) / P(64)).TransitionWeight(w(0)).Grid(grid));
		}
	}
	template <class F>
	void described(const Plan& p, F&& f) {
		if (p[METHOD] == 1) {
			p[PRECISION] ? windowed<double>(p, f) : windowed<float>(p, f);
		}
		else {
			p[PRECISION] ? leastSquares<double>(p, f) : leastSquares<float>(p, f);
		}
	}
	void step(const Plan& p) {
		const size_t n = size_t(p[TAPS]);
		const size_t fit = p[TYPE] == HILBERT && n % 2 == 0 ? 2 * n - 1 : n;
		const bool isTable = p[METHOD] == 1 && (p[WKIND] == 8 || p[WKIND] == 9);
		size_t v = 0;
		table.clear();
		if (isTable) {
			v = p[WKIND] == 8 ? fit : fit > 4 ? fit - p[WP] : fit + p[WP];
			table.resize(v);
			for (auto& x : table) {
				x = T(g.in(128, 256)) / T(256);
			}
		}
		const bool allowed = (p[TYPE] == HILBERT || n % 2 == 1) && (v == 0 || v == fit);
		if (!allowed) {
			const auto outcome = vp::outcome([&] {
				Signal<T> out(n, T(3));
				described(p, [&](const auto& d) { DesignFilter(out, d); });
			});
			ctx.log(vp::Ev("Refuse").raw("d", desc(p)).i("n", long(n)).i("v", long(v)).s("outcome", outcome));
			return;
		}
		std::string forms = "[", half = "[]";
		const auto form = [&](const auto& s) { forms += (forms.size() > 1 ? "," : "") + values(s); };
		const size_t off = size_t(g.in(0, long(mem.size() - n)));
		described(p, [&](const auto& d) {
			form(DesignFilter<T, TIME_DOMAIN>(n, d));
			Signal<T> own(n, T(3));
			DesignFilter(own, d);
			form(own);
			if (p[METHOD] == 2 && p[TYPE] == HILBERT) {
				using P = double;
				const P width = P(p[EDGE]) / P(64);
				half = values(DesignFilter<T, TIME_DOMAIN>(fit, Fir.Lowpass.LeastSquares.Cutoff(P(0.5) - width, P(0.5) + width).Weight(P(1), P(p[WEIGHT]) / P(16), P(1)).Grid(size_t(p[GRID]))));
			}
			auto view = AsView(mem).subsignal(off, n);
			DesignFilter(view, d);
			if (g.coin()) {
				DesignFilter(AsView(mem).subsignal(off, n), d);
			}
		});
		ctx.log(vp::Ev("Design").raw("d", desc(p)).i("n", long(n)).i("v", long(v)).i("off", long(off)).b("float", std::is_same_v<T, float>).b("sharp", true).raw("half", half).raw("mem", values(mem)).raw("forms", forms + "]"));
		ctx.count(std::string(p[METHOD] == 1 ? "windowed-" : "leastSquares-") + types[p[TYPE]]);
	}
};

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	long idx = 0;
	for (const auto& line : ctx.script) {
		if (!ctx.mine(idx++)) {
			continue;
		}
		Machine m(ctx.rng(idx));
		std::stringstream all(line);
		for (std::string part; std::getline(all, part, ';');) {
			std::stringstream one(part);
			Plan s;
			for (int n; one >> n;) {
				s.push_back(n);
			}
			m.step(s);
		}
	}
	return vp::finish(ctx);
}
