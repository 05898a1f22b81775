// Histories of filter descriptions, from scripts of the specification.  VP_T: type of the filters; VP_PART: methods.
#include "vp.hpp"

#include <array>
#include <cassert>
#include <optional>
#include <stdexcept>

#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/FilterUtility.hpp>
#include <dspbb/Filtering/IIR.hpp>
#include <dspbb/Primitives/SignalView.hpp>

using namespace dspbb;
using T = VP_T;

vp::Ctx ctx;
constexpr double MILLION = 1e6;
const char* const methods[] = { "", "windowed", "leastSquares", "butterworth", "chebyshev1", "chebyshev2", "elliptic" };
const char* const types[] = { "", "lowpass", "highpass", "bandpass", "bandstop", "hilbert", "arbitrary" };
const char* const names[] = { "", "edges", "weight", "grid", "window", "response", "passRipple", "stopRipple", "width" };
enum { EDGES = 1, WEIGHT, GRID, WINDOW, RESPONSE, PASS, STOP, WIDTH };

//---------------------------------------------------------------- values of settings
struct Curve {
	int id = 0;
	template <class F>
	F operator()(F f) const {
		return id == 0 ? F(1) : id == 1 ? F(1) - f / F(2) : id == 2 ? F(f < F(0.5)) + F(0.25) : F(0.5) + f * f;
	}
};
struct Shape {
	int id = 0;
	template <class S>
	void operator()(S&& s) const {
		for (size_t i = 0; i < s.size(); ++i) {
			s[i] = T(1) + T(id * i * (s.size() - 1 - i)) / T(32);
		}
	}
};
size_t taps = 9;
Signal<T> signalWindow(int p) {
	Signal<T> w(taps);
	for (size_t i = 0; i < taps; ++i) {
		w[i] = T(1) + T(p * int(i * (taps - 1 - i))) / T(64);
	}
	return w;
}
template <class F>
auto withWindow(int id, int p, F&& f) {
	switch (id) {
		case 0: return f(windows::hamming);
		case 1: return f(windows::rectangular);
		case 2: return f(windows::blackman);
		case 3: return f(windows::kaiser.alpha(double(p)));
		case 4: return f(signalWindow(p));
		default: return f(Shape{ p });
	}
}

using Json = std::string;
Json nums(std::initializer_list<double> v) {
	Json s = "[";
	for (double x : v) {
		s += (s.size() > 1 ? "," : "") + std::to_string(std::isnan(x) ? vp::BAD : vp::scaled(x, MILLION));
	}
	return s + "]";
}
Json shown(const windows::Hamming&) { return "[0]"; }
Json shown(const windows::Rectangular&) { return "[1]"; }
Json shown(const windows::Blackman&) { return "[2]"; }
Json shown(const windows::Kaiser& k) { return "[3," + std::to_string(vp::exact(k.m_alpha)) + "]"; }
Json shown(const Signal<T>& w) {
	const long p = w.size() == taps ? vp::exact((w[1] - T(1)) * T(64) / T(taps - 2)) : vp::BAD;
	const auto other = signalWindow(int(p));
	return "[4," + std::to_string(std::equal(w.begin(), w.end(), other.begin(), other.end()) ? p : vp::BAD) + "]";
}
Json shown(const Shape& s) { return "[5," + std::to_string(s.id) + "]"; }
Json shown(const Curve& c) { return "[" + std::to_string(c.id) + "]"; }
// A default response or weight: one everywhere
template <class F>
	requires requires(const F& f) { double(f(T(0.5))); }
Json shown(const F& f) {
	return std::string("[") + (f(T(0)) == T(1) && f(T(0.25)) == T(1) && f(T(1)) == T(1) ? "0" : std::to_string(vp::BAD)) + "]";
}

//---------------------------------------------------------------- what a description says
struct Fields {
	Json s = "";
	Fields& add(const char* k, const Json& v) {
		s += (s.empty() ? "\"" : ",\"") + Json(k) + "\":" + v;
		return *this;
	}
};
template <class D>
constexpr bool isShown = requires(const D& d) { d.window; } || requires(const D& d) { d.grid; } || requires(const D& d) { d.cutoff; } || requires(const D& d) { d.lower; };

template <class D>
Json describe(const D& d) {
	Fields f;
	if constexpr (requires { d.cutoff; }) {
		f.add("edges", nums({ double(d.cutoff) }));
	}
	else if constexpr (requires { d.lower; }) {
		f.add("edges", nums({ double(d.lower), double(d.upper) }));
	}
	else if constexpr (requires { d.cutoffBegin; }) {
		f.add("edges", nums({ double(d.cutoffBegin), double(d.cutoffEnd) }));
		f.add("weight", nums({ double(d.weightLow), double(d.weightTransition), double(d.weightHigh) }));
	}
	else if constexpr (requires { d.lowerBegin; }) {
		f.add("edges", nums({ double(d.lowerBegin), double(d.lowerEnd), double(d.upperBegin), double(d.upperEnd) }));
		f.add("weight", nums({ double(d.weightLow), double(d.weightTransition1), double(d.weightMid), double(d.weightTransition2), double(d.weightHigh) }));
	}
	else if constexpr (requires { d.transitionWidth; }) {
		f.add("width", nums({ double(d.transitionWidth) }));
		f.add("weight", nums({ double(d.transitionWeight) }));
	}
	if constexpr (requires { d.responseFunc; }) {
		f.add("response", shown(d.responseFunc));
	}
	if constexpr (requires { d.weightFunc; }) {
		f.add("weight", shown(d.weightFunc));
	}
	if constexpr (requires { d.passbandRipple; }) {
		f.add("passRipple", nums({ double(d.passbandRipple) }));
	}
	if constexpr (requires { d.stopbandRipple; }) {
		f.add("stopRipple", nums({ double(d.stopbandRipple) }));
	}
	if constexpr (requires { d.window; }) {
		f.add("window", shown(d.window));
	}
	if constexpr (requires { d.grid; }) {
		f.add("grid", "[" + std::to_string(d.grid) + "]");
	}
	return "{" + f.s + "}";
}

// The type of a description's numbers
template <class D>
struct Param {
	using type = float;
};
template <template <class, class...> class D, class P, class... W>
struct Param<D<P, W...>> {
	using type = std::conditional_t<std::is_floating_point_v<P>, P, float>;
};

//---------------------------------------------------------------- histories
struct Values {
	std::vector<double> edges, weight, width, pass, stop;
	int grid = 0, window = 0, windowParam = 0, response = 0, weightCurve = 0;
};
using Step = std::vector<int>;

template <class P, class D>
auto setEdges(const D& d, const std::vector<double>& v) {
	if constexpr (requires { d.Cutoff(P(0)); }) {
		return d.Cutoff(P(v.at(0)));
	}
	else if constexpr (requires { d.Cutoff(P(0), P(0)); }) {
		return d.Cutoff(P(v.at(0)), P(v.at(1)));
	}
	else if constexpr (requires { d.Band(P(0), P(0)); }) {
		return d.Band(P(v.at(0)), P(v.at(1)));
	}
	else if constexpr (requires { d.Band(P(0), P(0), P(0), P(0)); }) {
		return d.Band(P(v.at(0)), P(v.at(1)), P(v.at(2)), P(v.at(3)));
	}
}
template <class P, class D>
auto setWeight(const D& d, const std::vector<double>& v) {
	if constexpr (requires { d.Weight(P(0), P(0), P(0)); }) {
		return d.Weight(P(v.at(0)), P(v.at(1)), P(v.at(2)));
	}
	else if constexpr (requires { d.Weight(P(0), P(0), P(0), P(0), P(0)); }) {
		return d.Weight(P(v.at(0)), P(v.at(1)), P(v.at(2)), P(v.at(3)), P(v.at(4)));
	}
	else if constexpr (requires { d.TransitionWeight(P(0)); }) {
		return d.TransitionWeight(P(v.at(0)));
	}
}
template <class D>
constexpr bool hasEdges = !std::is_void_v<decltype(setEdges<float>(std::declval<const D&>(), {}))>;
template <class D>
constexpr bool hasWeight = !std::is_void_v<decltype(setWeight<float>(std::declval<const D&>(), {}))>;

std::string filterOf(const DiscreteZeroPoleGain<T>& f) {
	std::string s = "[" + std::to_string(vp::scaled(f.gain, 268435456.0));
	for (const auto* r : { &f.zeros, &f.poles }) {
		for (const auto& x : r->real_roots()) {
			s += "," + std::to_string(vp::scaled(x, 268435456.0));
		}
		for (const auto& x : r->complex_pairs()) {
			s += "," + std::to_string(vp::scaled(x.real(), 268435456.0)) + "," + std::to_string(vp::scaled(x.imag(), 268435456.0));
		}
	}
	return s + "]";
}
template <class S>
std::string filterOf(const S& f) {
	std::string s = "[";
	for (const auto& x : f) {
		s += (s.size() > 1 ? "," : "") + std::to_string(vp::scaled(x, 268435456.0));
	}
	return s + "]";
}

// Filters of descriptions, and what the last of them said
struct Designer {
	std::string got = "[";
	Json canon;
	template <class D>
	void operator()(const D& desc) {
		if constexpr (VP_PART < 2) {
			got += (got.size() > 1 ? "," : "") + filterOf(DesignFilter<T, TIME_DOMAIN>(taps, desc));
			Signal<T> out(taps, T(3));
			DesignFilter(out, desc);
			got += "," + filterOf(out);
		}
		else {
			got += (got.size() > 1 ? "," : "") + filterOf(DesignFilter<T>(size_t(4), desc));
		}
		canon = describe(desc);
	}
};

template <class Root>
struct History {
	Root root;
	Values now;
	std::vector<Step> steps;

	bool designable() const {
		const auto& e = now.edges;
		for (size_t i = 0; i < e.size(); ++i) {
			if (e[i] <= 0.0 || e[i] >= 1.0 || (i > 0 && e[i] <= e[i - 1])) {
				return false;
			}
		}
		if (!now.pass.empty() && !now.stop.empty() && now.pass[0] + now.stop[0] > 0.5) {
			return false;
		}
		return now.width.empty() || (now.width[0] > 0.0 && now.width[0] < 0.5);
	}
	template <class D>
	void log(vp::Ev e, const D& d) {
		ctx.log(e.b("shown", isShown<D>).raw("desc", describe(d)));
	}
	template <class D, class F>
	void put(const D& d, size_t i, const Json& v, F&& f, const std::function<void(Values&)>& track) {
		using R = std::decay_t<decltype(f())>;
		std::optional<R> r;
		const char* outcome = "ok";
		try {
			r.emplace(f());
		}
		catch (std::domain_error&) {
			outcome = "domain";
		}
		catch (std::invalid_argument&) {
			outcome = "order";
		}
		vp::Ev e("Put");
		e.s("name", names[steps[i][0]]).raw("v", v).s("outcome", outcome);
		if (r) {
			track(now);
			log(e, *r);
			run(*r, i + 1);
		}
		else {
			log(e, d);
			run(d, i + 1);
		}
	}
	template <class D, class F>
	void numbers(const D& d, size_t i, std::vector<double> Values::*field, F&& f) {
		std::vector<double> v;
		Json json = "[";
		for (size_t k = 2; k < steps[i].size(); ++k) {
			v.push_back(steps[i][k] == 999 ? std::nan("") : double(steps[i][k]) / 64.0);
			json += (k > 2 ? "," : "") + std::to_string(steps[i][k] == 999 ? vp::BAD : long(steps[i][k]) * 15625);
		}
		put(d, i, json + "]", [&] { return f(v); }, [&](Values& n) { n.*field = v; });
	}
	template <class D>
	void run(const D& d, size_t i) {
		if (i == steps.size()) {
			if (designable()) {
				design(d);
			}
			return;
		}
		const Step& s = steps[i];
		const int a = s.size() > 2 ? s[2] : 0;
		const bool wide = s[1] == 1;
		switch (s[0]) {
			case EDGES:
				if constexpr (hasEdges<D>) {
					if (wide) {
						numbers(d, i, &Values::edges, [&](const auto& v) { return setEdges<double>(d, v); });
					}
					else {
						numbers(d, i, &Values::edges, [&](const auto& v) { return setEdges<float>(d, v); });
					}
				}
				break;
			case WEIGHT:
				if constexpr (hasWeight<D>) {
					if (wide) {
						numbers(d, i, &Values::weight, [&](const auto& v) { return setWeight<double>(d, v); });
					}
					else {
						numbers(d, i, &Values::weight, [&](const auto& v) { return setWeight<float>(d, v); });
					}
				}
				else if constexpr (requires { d.Weight(Curve{}); }) {
					put(d, i, "[" + std::to_string(a) + "]", [&] { return d.Weight(Curve{ a }); }, [&](Values& n) { n.weightCurve = a; });
				}
				break;
			case WIDTH:
				if constexpr (requires { d.TransitionWidth(0.5); }) {
					if (wide) {
						numbers(d, i, &Values::width, [&](const auto& v) { return d.TransitionWidth(v[0]); });
					}
					else {
						numbers(d, i, &Values::width, [&](const auto& v) { return d.TransitionWidth(float(v[0])); });
					}
				}
				break;
			case PASS:
				if constexpr (requires { d.PassbandRipple(0.5); }) {
					if (wide) {
						numbers(d, i, &Values::pass, [&](const auto& v) { return d.PassbandRipple(v[0]); });
					}
					else {
						numbers(d, i, &Values::pass, [&](const auto& v) { return d.PassbandRipple(float(v[0])); });
					}
				}
				break;
			case STOP:
				if constexpr (requires { d.StopbandRipple(0.5); }) {
					if (wide) {
						numbers(d, i, &Values::stop, [&](const auto& v) { return d.StopbandRipple(v[0]); });
					}
					else {
						numbers(d, i, &Values::stop, [&](const auto& v) { return d.StopbandRipple(float(v[0])); });
					}
				}
				break;
			case GRID:
				if constexpr (requires { d.Grid(size_t(1)); }) {
					put(d, i, "[" + std::to_string(a) + "]", [&] { return d.Grid(size_t(a)); }, [&](Values& n) { n.grid = a; });
				}
				else { // Not before the type of the numbers is known
					run(d, i + 1);
				}
				break;
			case WINDOW:
				if constexpr (requires { d.Window(windows::hamming); }) {
					const int p = a > 2 ? s.at(3) : 0;
					withWindow(a, p, [&](const auto& w) {
						put(d, i, a > 2 ? "[" + std::to_string(a) + "," + std::to_string(p) + "]" : "[" + std::to_string(a) + "]", [&] { return d.Window(w); }, [&](Values& n) { n.window = a, n.windowParam = p; });
					});
				}
				break;
			case RESPONSE:
				if constexpr (requires { d.Response(Curve{}); }) {
					put(d, i, "[" + std::to_string(a) + "]", [&] { return d.Response(Curve{ a }); }, [&](Values& n) { n.response = a; });
				}
				break;
		}
	}
	// The same settings in the declared order, once each
	template <class P>
	void fresh(Designer& f) {
		const auto& r = root;
		if constexpr (hasEdges<Root>) {
			const auto e = setEdges<P>(r, now.edges);
			if constexpr (requires { e.Window(windows::hamming); }) {
				withWindow(now.window, now.windowParam, [&](const auto& w) { f(e.Window(w)); });
			}
			else if constexpr (requires { e.grid; }) {
				f(setWeight<P>(e, now.weight).Grid(size_t(now.grid)));
			}
			else if constexpr (requires { e.passbandRipple; } && requires { e.stopbandRipple; }) {
				f(e.PassbandRipple(P(now.pass[0])).StopbandRipple(P(now.stop[0])));
			}
			else if constexpr (requires { e.passbandRipple; }) {
				f(e.PassbandRipple(P(now.pass[0])));
			}
			else if constexpr (requires { e.stopbandRipple; }) {
				f(e.StopbandRipple(P(now.stop[0])));
			}
			else {
				f(e);
			}
		}
		else if constexpr (requires { r.TransitionWidth(P(0)); }) {
			f(r.TransitionWidth(P(now.width[0])).TransitionWeight(P(now.weight[0])).Grid(size_t(now.grid)));
		}
		else if constexpr (requires { r.Response(Curve{}).Window(windows::hamming); }) {
			withWindow(now.window, now.windowParam, [&](const auto& w) { f(r.Response(Curve{ now.response }).Window(w)); });
		}
		else if constexpr (requires { r.Response(Curve{}); }) {
			f(r.Response(Curve{ now.response }).Weight(Curve{ now.weightCurve }).Grid(size_t(now.grid)));
		}
		else {
			withWindow(now.window, now.windowParam, [&](const auto& w) { f(r.Window(w)); });
		}
	}
	template <class D>
	void design(const D& d) {
		if constexpr (isShown<D>) {
			Designer one;
			one(d);
			const D copy = d;
			one(copy);
			fresh<typename Param<D>::type>(one);
			ctx.log(vp::Ev("Design").raw("fresh", one.canon).raw("got", one.got + "]"));
		}
	}
};

template <class Root>
void session(int method, int type, const Root& root, const std::vector<Step>& steps) {
	ctx.log(vp::Ev("Begin"));
	++ctx.sessions;
	taps = 7 + 2 * (steps.size() % 4);
	Values v;
	if (type <= 4) {
		v.edges = method == 2 ? (type <= 2 ? std::vector<double>{ 0.45, 0.55 } : std::vector<double>{ 0.2, 0.3, 0.7, 0.8 }) : type <= 2 ? std::vector<double>{ 0.5 } : std::vector<double>{ 0.25, 0.75 };
		if (method == 2) {
			v.weight = type <= 2 ? std::vector<double>{ 1, 0, 1 } : std::vector<double>{ 1, 0, 1, 0, 1 };
		}
	}
	else if (method == 2 && type == 5) {
		v.weight = { 1 };
		v.width = { 1 };
	}
	if (method == 4 || method == 6) {
		v.pass = { 0.1 };
	}
	if (method == 5 || method == 6) {
		v.stop = { 0.1 };
	}
	History<Root> h{ root, v, steps };
	h.log(vp::Ev("Start").raw("kind", std::string("[\"") + methods[method] + "\",\"" + types[type] + "\"]"), root);
	h.run(root, 0);
}

template <class A, class B, class C, class D>
void four(int method, int type, const A& a, const B& b, const C& c, const D& d, const std::vector<Step>& steps) {
	switch (type) {
		case 1: return session(method, type, a, steps);
		case 2: return session(method, type, b, steps);
		case 3: return session(method, type, c, steps);
		default: return session(method, type, d, steps);
	}
}

template <int PART>
void dispatch(int method, int type, const std::vector<Step>& s) {
	if constexpr (PART == 0) {
		if (method == 1) {
			type == 5 ? session(1, 5, Fir.Hilbert.Windowed, s) : type == 6 ? session(1, 6, Fir.Arbitrary.Windowed, s) : four(1, type, Fir.Lowpass.Windowed, Fir.Highpass.Windowed, Fir.Bandpass.Windowed, Fir.Bandstop.Windowed, s);
		}
	}
	else if constexpr (PART == 1) {
		if (method == 2) {
			type == 5 ? session(2, 5, Fir.Hilbert.LeastSquares, s) : type == 6 ? session(2, 6, Fir.Arbitrary.LeastSquares, s) : four(2, type, Fir.Lowpass.LeastSquares, Fir.Highpass.LeastSquares, Fir.Bandpass.LeastSquares, Fir.Bandstop.LeastSquares, s);
		}
	}
	else {
		switch (method) {
			case 3: return four(3, type, Iir.Lowpass.Butterworth, Iir.Highpass.Butterworth, Iir.Bandpass.Butterworth, Iir.Bandstop.Butterworth, s);
			case 4: return four(4, type, Iir.Lowpass.Chebyshev1, Iir.Highpass.Chebyshev1, Iir.Bandpass.Chebyshev1, Iir.Bandstop.Chebyshev1, s);
			case 5: return four(5, type, Iir.Lowpass.Chebyshev2, Iir.Highpass.Chebyshev2, Iir.Bandpass.Chebyshev2, Iir.Bandstop.Chebyshev2, s);
			case 6: return four(6, type, Iir.Lowpass.Elliptic, Iir.Highpass.Elliptic, Iir.Bandpass.Elliptic, Iir.Bandstop.Elliptic, s);
			default: return;
		}
	}
}

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	long idx = 0;
	for (const auto& line : ctx.script) {
		if (!ctx.mine(idx++)) {
			continue;
		}
		std::vector<Step> plan;
		std::stringstream all(line);
		for (std::string part; std::getline(all, part, ';');) {
			std::stringstream one(part);
			Step s;
			for (int n; one >> n;) {
				s.push_back(n);
			}
			plan.push_back(s);
		}
		dispatch<VP_PART>(plan.at(0).at(0), plan.at(0).at(1), { plan.begin() + 1, plan.end() });
	}
	// Frequencies in quarters of hertz
	ctx.log(vp::Ev("Begin"));
	++ctx.sessions;
	auto g = ctx.rng(700000);
	for (int c = 0; c < ctx.scale(60, 600); ++c) {
		const long rate = g.coin(1, 4) ? g.in(1, 9) : g.in(1, 4000);
		const long quarters = g.in(0, 2 * rate);
		const T hz = T(quarters) / T(4);
		const T r = g.coin() ? NormalizedFrequency(hz, rate) : g.coin() ? NormalizedFrequency(hz, T(rate)) : NormalizedFrequency(hz, size_t(rate));
		ctx.log(vp::Ev("Normalized").i("quarters", quarters).i("rate", rate).i("post", vp::scaled(r, 1e5)));
	}
	return vp::finish(ctx);
}
