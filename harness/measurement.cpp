// Measuring filters.  VP_T: precision.
#include "vp.hpp"

#include <array>
#include <cassert>
#include <stdexcept>

#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Filtering/MeasureFilter.hpp>
#include <dspbb/Primitives/SignalView.hpp>

using namespace dspbb;
using T = VP_T;

vp::Ctx ctx;
constexpr double ONE = 268435456.0;
constexpr int UNIT = 16384;
constexpr double PART = 64.0;

template <class C>
std::string list(const C& c, double scale) {
	std::string s = "[";
	for (const auto& v : c) {
		s += (s.size() > 1 ? "," : "") + std::to_string(vp::scaled(double(v), scale));
	}
	return s + "]";
}

struct Found {
	std::vector<T> edges, ripples;
};
Found parts(const LowpassParameters<T>& p) { return { { p.passbandEdge, p.stopbandEdge }, { p.passbandRipple, p.stopbandAtten } }; }
Found parts(const HighpassParameters<T>& p) { return { { p.stopbandEdge, p.passbandEdge }, { p.stopbandAtten, p.passbandRipple } }; }
Found parts(const BandpassParameters<T>& p) {
	return { { p.lowerStopbandEdge, p.passbandLowerEdge, p.passbandUpperEdge, p.upperStopbandEdge }, { p.lowerStopbandAtten, p.passbandRipple, p.upperStopbandAtten } };
}
Found parts(const BandstopParameters<T>& p) {
	return { { p.lowerPassbandEdge, p.stopbandLowerEdge, p.stopbandUpperEdge, p.upperPassbandEdge }, { p.lowerPassbandRipple, p.stopbandAtten, p.upperPassbandRipple } };
}
Found parts(const std::monostate&) { return {}; }
const char* const names[] = { "none", "low", "high", "band", "stop" };

struct Machine {
	std::vector<int> resp;

	Machine() {
		ctx.log(vp::Ev("Begin"));
		++ctx.sessions;
	}
	void samples(const std::vector<int>& v) {
		resp.insert(resp.end(), v.begin(), v.end());
		ctx.log(vp::Ev("Samples").a("v", v));
	}
	void shape(int n, const std::vector<std::array<int, 2>>& skirts, bool pass) {
		resp.clear();
		for (int k = 0; k < n; ++k) {
			size_t j = 0;
			for (size_t i = 0; i < skirts.size(); ++i) {
				j = std::abs(k - skirts[i][0]) < std::abs(k - skirts[j][0]) ? i : j;
			}
			const double e = std::erf(double(k - skirts[j][0]) / double(skirts[j][1]));
			resp.push_back(int(std::lround(double(UNIT) * 0.5 * (1.0 + ((j % 2 == 1) == pass ? e : -e)))));
		}
		std::string s = "[";
		for (const auto& k : skirts) {
			s += (s.size() > 1 ? ",[" : "[") + std::to_string(k[0]) + "," + std::to_string(k[1]) + "]";
		}
		ctx.log(vp::Ev("Shape").i("n", n).raw("skirts", s + "]").b("pass", pass).a("v", resp));
	}
	template <class F>
	std::string one(const char* kind, F&& f) {
		Found found;
		bool ok = true;
		try {
			found = parts(f());
		}
		catch (std::invalid_argument&) {
			ok = false;
		}
		return describe(kind, ok, found);
	}
	std::string describe(const char* kind, bool ok, const Found& found) {
		return std::string("{\"kind\":\"") + kind + "\",\"ok\":" + (ok ? "true" : "false") + ",\"e\":" + list(found.edges, double(resp.size()) * PART) + ",\"r\":" + list(found.ripples, UNIT) + "}";
	}
	void measure(vp::Rng& g) {
		Spectrum<T> s(resp.size());
		for (size_t i = 0; i < resp.size(); ++i) {
			s[i] = T(resp[i]) / T(UNIT);
		}
		Spectrum<T> wide(resp.size() + 9, T(g.in(0, 1)));
		std::copy(s.begin(), s.end(), wide.begin() + 4);
		const SpectrumView<const T> v = AsConstView(wide).subsignal(4, resp.size());
		std::string got = "[";
		got += one("low", [&] { return MeasureLowpassFilter(s); }) + ",";
		got += one("high", [&] { return MeasureHighpassFilter(s); }) + ",";
		got += one("band", [&] { return MeasureBandpassFilter(s); }) + ",";
		got += one("stop", [&] { return MeasureBandstopFilter(s); }) + ",";
		got += one("low", [&] { return MeasureLowpassFilter(v); }) + ",";
		got += one("high", [&] { return MeasureHighpassFilter(v); }) + ",";
		got += one("band", [&] { return MeasureBandpassFilter(v); }) + ",";
		got += one("stop", [&] { return MeasureBandstopFilter(v); });
		const FilterParameters<T> a = MeasureFilter(s);
		const FilterParameters<T> b = MeasureFilter(v);
		for (const auto& p : { a, b }) {
			if (p.index() != 0) {
				got += "," + describe(names[p.index()], true, std::visit([](const auto& x) { return parts(x); }, p));
			}
		}
		ctx.log(vp::Ev("Measure").raw("kinds", std::string("[\"") + names[a.index()] + "\",\"" + names[b.index()] + "\"]").raw("got", got + "]"));
	}
};

std::vector<int> region(bool pass, int n, vp::Rng& g) {
	std::vector<int> v;
	const int style = int(g.in(0, 3));
	const int base = pass ? (g.coin() ? UNIT : int(g.in(9000, 20000))) : (g.coin() ? 0 : int(g.in(0, 7500)));
	for (int k = 0; k < n; ++k) {
		int x = base;
		switch (style) {
			case 0: break;
			case 1: x += int(g.in(-600, 600)); break;
			case 2: x += int(std::lround(700.0 * std::sin(double(k) * 0.7) * std::exp(-0.02 * k))); break;
			default: x = pass ? int(g.in(8250, 30000)) : int(g.in(0, 8100)); break;
		}
		v.push_back(pass ? std::max(x, 8201) : std::max(0, std::min(x, 8183)));
	}
	// Samples near the threshold, on the region's own side or unsure
	for (int& x : v) {
		if (g.coin(1, 12)) {
			x = int(pass ? g.in(8184, 8230) : g.in(8150, 8200));
		}
	}
	return v;
}

void session(vp::Rng& g, int bands, int longest) {
	Machine m;
	bool pass = g.coin();
	for (int b = 0; b < bands; ++b, pass = !pass) {
		auto v = region(pass, int(g.coin(1, 4) ? g.in(1, 3) : g.in(1, longest)), g);
		if (b == 0) {
			// Unsure on its own side, or sure
			v[0] = g.coin(1, 3) ? int(pass ? g.in(8193, 8200) : g.in(8184, 8192)) : pass ? UNIT : 0;
		}
		const int ramp = int(g.in(0, 5)); // On the way to the next
		const bool unsure = g.coin(1, 3);
		for (int k = 0; k < ramp; ++k) {
			v.push_back(unsure ? int(g.in(8184, 8200)) : pass ? UNIT - UNIT * k / (2 * ramp) : UNIT * k / (2 * ramp));
		}
		m.samples(v);
		if (b + 1 == bands || g.coin()) {
			m.measure(g);
		}
	}
}

void skirts(vp::Rng& g) {
	Machine m;
	for (int r = 0; r < 2; ++r) {
		const int w = int(g.coin() ? g.in(1, 6) : g.in(2, ctx.scale(16, 30)));
		const int w2 = int(g.coin() ? w : g.in(1, 10));
		std::vector<std::array<int, 2>> s = { { int(4 * w + g.in(4, 40)), w } };
		if (g.coin()) {
			s.push_back({ s[0][0] + 4 * (w + w2) + int(g.in(8, 40)), w2 });
		}
		m.shape(s.back()[0] + 4 * s.back()[1] + int(g.in(6, 50)), s, g.coin());
		m.measure(g);
	}
}

// All short responses over levels on both sides of the threshold and in the margin
void small(int length, long code) {
	const std::array<int, 4> levels = { 0, 8190, 8195, UNIT };
	std::vector<int> v;
	for (int k = 0; k < length; ++k, code /= 4) {
		v.push_back(levels[size_t(code % 4)]);
	}
	Machine m;
	auto g = ctx.rng(7);
	m.samples(v);
	m.measure(g);
}

std::vector<double> times(const std::vector<double>& a, const std::vector<double>& b) {
	std::vector<double> r(a.size() + b.size() - 1, 0.0);
	for (size_t i = 0; i < a.size(); ++i) {
		for (size_t j = 0; j < b.size(); ++j) {
			r[i + j] += a[i] * b[j];
		}
	}
	return r;
}

struct Responses {
	std::string forms = "";
	void more(const std::pair<Spectrum<T>, Spectrum<T>>& r) {
		forms += (forms.empty() ? "{" : ",{") + std::string("\"mag\":") + list(r.first, ONE) + ",\"phase\":" + list(r.second, 4e5 / (2.0 * pi_v<double>)) + "}";
	}
	void log(const std::vector<double>& num, const std::vector<double>& den, long p, long q, size_t grid) {
		ctx.log(vp::Ev("Response").q("num", num, ONE).q("den", den, ONE).a("turn", std::array<long, 2>{ p, q }).i("grid", long(grid)).raw("forms", "[" + forms + "]"));
	}
};

void impulse(vp::Rng& g) {
	const size_t n = size_t(g.in(1, 12));
	Signal<T> h(n);
	std::vector<double> c; // The response is a polynomial of 1 / z: its conjugate is the transform.
	for (auto& v : h) {
		v = T(g.in(-8, 8)) / T(8 * n);
		c.push_back(double(v));
	}
	const size_t hint = size_t(g.coin(1, 4) ? 0 : g.in(1, 40));
	const size_t padded = std::max(n, 2 * (hint ? hint : 10 * n) - 1);
	Responses r;
	r.more(FrequencyResponse(h, hint));
	r.more(FrequencyResponse(AsConstView(h), hint));
	r.log(c, { 1.0 }, -1, long(padded), padded / 2 + 1);
}

void system(vp::Rng& g) {
	// Roots in eighths, inside of the unit circle
	DiscreteZeroPoleGain<T> zpk;
	std::vector<double> num = { 1.0 }, den = { 1.0 };
	std::vector<std::complex<T>> zeros, poles;
	std::vector<T> rzeros, rpoles;
	const auto draw = [&](std::vector<double>& poly, auto& pairs, auto& reals, int np, int nr, int lim) {
		for (int k = 0; k < np; ++k) {
			const double a = double(g.in(-lim, lim)) / 8, b = double(g.in(1, lim)) / 8;
			poly = times(poly, { a * a + b * b, -2 * a, 1.0 });
			pairs.push_back(std::complex<T>(T(a), T(b)));
		}
		for (int k = 0; k < nr; ++k) {
			const double a = double(g.in(-lim, lim)) / 8;
			poly = times(poly, { -a, 1.0 });
			reals.push_back(T(a));
		}
	};
	const int np = int(g.in(0, 1)), nr = int(g.in(0, 2));
	draw(den, poles, rpoles, np, nr, 3);
	draw(num, zeros, rzeros, int(g.in(0, np)), int(g.in(0, nr)), 8);
	const size_t numRoots = num.size() - 1, order = den.size() - 1;
	// Gain such that the response stays below two
	double total = 0;
	for (double v : num) {
		total += std::abs(v);
	}
	const double least = std::pow(0.37, double(order));
	const double gain = std::ldexp(1.0, int(std::floor(std::log2(1.9 * least / total))));
	for (double& v : num) {
		v *= gain;
	}
	double most = 0;
	for (double v : den) {
		most += std::abs(v);
	}
	for (double& v : num) {
		v /= std::ldexp(1.0, int(std::ceil(std::log2(most))));
	}
	for (double& v : den) {
		v /= std::ldexp(1.0, int(std::ceil(std::log2(most))));
	}
	zpk.gain = T(gain);
	zpk.zeros.resize(rzeros.size(), zeros.size());
	zpk.poles.resize(rpoles.size(), poles.size());
	std::copy(rzeros.begin(), rzeros.end(), zpk.zeros.real_roots().begin());
	std::copy(zeros.begin(), zeros.end(), zpk.zeros.complex_pairs().begin());
	std::copy(rpoles.begin(), rpoles.end(), zpk.poles.real_roots().begin());
	std::copy(poles.begin(), poles.end(), zpk.poles.complex_pairs().begin());
	const size_t hint = size_t(g.coin(1, 4) ? 0 : g.in(2, 40));
	Responses r;
	r.more(FrequencyResponse(zpk, hint));
	r.more(FrequencyResponse(DiscreteTransferFunction<T>(zpk), hint));
	(void)numRoots;
	const size_t grid = hint ? hint : (1 + order) * 20;
	r.log(num, den, 1, 2 * (long(grid) - 1), grid);
	if (order > 0) {
		Responses b;
		const CascadedBiquad<T> biquad(zpk);
		b.more(FrequencyResponse(biquad, grid));
		b.log(num, den, 1, 2 * (long(grid) - 1), grid);
	}
}

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	long idx = 0;
	for (int length = 1; length <= ctx.scale(5, 6); ++length) {
		for (long code = 0; code < (1l << (2 * length)); ++code) {
			if (ctx.mine(idx++)) {
				small(length, code);
			}
		}
	}
	for (int r = 0; r < ctx.scale(160, 1200); ++r) {
		if (ctx.mine(idx++)) {
			auto g = ctx.rng(uint64_t(idx));
			session(g, int(g.in(1, 5)), r % 10 == 0 ? 150 : 40);
		}
	}
	for (int r = 0; r < ctx.scale(40, 300); ++r) {
		if (ctx.mine(idx++)) {
			auto g = ctx.rng(uint64_t(idx));
			skirts(g);
		}
	}
	for (int r = 0; r < ctx.scale(60, 500); ++r) {
		if (ctx.mine(idx++)) {
			auto g = ctx.rng(uint64_t(idx));
			ctx.log(vp::Ev("Begin"));
			++ctx.sessions;
			impulse(g);
			system(g);
		}
	}
	return vp::finish(ctx);
}
