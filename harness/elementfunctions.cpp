// Element-wise functions.  VP_T: element type.  The script lists the points of the grid each function is used at.
#include "vp.hpp"

#include <cassert>
#include <stdexcept>

#include <dspbb/Math/Functions.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>

using namespace dspbb;
using cf = std::complex<float>;
using cd = std::complex<double>;
using T = VP_T;
constexpr bool CPLX = vp::is_cplx_v<T>;
constexpr auto DOM = eSignalDomain::FREQUENCY;
template <class X>
using Sig = BasicSignal<X, DOM>;

vp::Ctx ctx;

// In units of 1e-5
template <class S>
std::string sig5(const S& s) {
	std::vector<long> r, i;
	for (const auto& v : s) {
		if constexpr (vp::is_cplx_v<std::decay_t<decltype(v)>>) {
			r.push_back(vp::scaled(v.real(), 1e5));
			i.push_back(vp::scaled(v.imag(), 1e5));
		}
		else {
			r.push_back(vp::scaled(v, 1e5));
		}
	}
	const auto list = [](const std::vector<long>& v) {
		std::string t = "[";
		for (size_t k = 0; k < v.size(); ++k) {
			t += (k ? "," : "") + std::to_string(v[k]);
		}
		return t + "]";
	};
	return "{\"r\":" + list(r) + ",\"i\":" + list(i) + "}";
}

template <class X>
X point(long p) {
	if constexpr (vp::is_cplx_v<X>) {
		using Y = typename X::value_type;
		return X(Y(p / 9 - 4) / 2, Y(p % 9 - 4) / 2);
	}
	else {
		return X(p) / 8;
	}
}

struct Fn {
	std::string name;
	std::vector<long> points;
};

template <class A, class B>
std::string memstr(const A& x, const B& o) { return "{\"x\":" + sig5(x) + ",\"o\":" + sig5(o) + "}"; }

template <class X>
Sig<X> content(vp::Rng& g, size_t n) {
	Sig<X> s(n);
	for (auto& v : s) {
		v = vp::is_cplx_v<X> ? point<X>(g.in(0, 80)) : point<X>(g.in(-40, 40));
	}
	return s;
}

// fn(out, in) and fn(in) as callables
template <class O, class F2, class F1>
void run(const Fn& fn, F2 two, F1 one) {
	const size_t longest = ctx.scale(21, 45);
	for (size_t n = 0; n <= longest; ++n) {
		auto g = ctx.rng(std::hash<std::string>{}(fn.name) % 100000 * 100 + n);
		const size_t off = g.in(0, 3);
		Sig<T> x = content<T>(g, off + n + g.in(0, 3));
		for (size_t k = 0; k < n; ++k) {
			x[off + k] = point<T>(g.pick(fn.points));
		}
		const auto begin = [&](const Sig<T>& x, const Sig<O>& o) {
			ctx.log(vp::Ev("Begin"));
			ctx.log(vp::Ev("Load").raw("mem", memstr(x, o)));
			++ctx.sessions;
		};
		{
			const size_t ooff = g.in(0, 3);
			Sig<O> o = content<O>(g, ooff + n + g.in(0, 5));
			begin(x, o);
			if (g.coin()) {
				two(AsView(o).subsignal(ooff, n), AsConstView(x).subsignal(off, n));
			}
			else {
				two(AsView(o).subsignal(ooff, n), AsView(x).subsignal(off, n));
			}
			ctx.log(vp::Ev("Into").s("f", fn.name).i("off", off).i("n", n).i("ooff", ooff).raw("mem", memstr(x, o)));
		}
		{
			Sig<O> o;
			begin(x, o);
			size_t from = off;
			size_t count = n;
			if (n == x.size() && g.coin()) {
				o = one(x);
			}
			else if (n > 0) {
				from = off + g.in(0, n - 1);
				count = off + n - from;
				o = one(AsConstView(x).subsignal(from, count));
			}
			else {
				o = one(AsConstView(x).subsignal(from, count));
			}
			ctx.log(vp::Ev("Value").s("f", fn.name).i("off", from).i("n", count).raw("mem", memstr(x, o)));
		}
		if constexpr (std::is_same_v<O, T>) {
			const Sig<T> o;
			begin(x, o);
			two(AsView(x).subsignal(off, n), AsView(x).subsignal(off, n));
			ctx.log(vp::Ev("InPlace").s("f", fn.name).i("off", off).i("n", n).raw("mem", memstr(x, o)));
		}
	}
}

#define FN(STR, NAME, FUNC)                                         \
	if (fn.name == STR) {                                           \
		using O = decltype(std::FUNC(std::declval<X>()));           \
		run<O>(                                                     \
			fn, [](auto&& o, const auto& i) { NAME(o, i); }, [](const auto& i) -> Sig<O> { return NAME(i); }); \
		return true;                                                \
	}

template <class X>
bool run_any(const Fn& fn) {
	FN("abs", Abs, abs)
	FN("arg", Arg, arg)
	FN("real", Real, real)
	FN("imag", Imag, imag)
	FN("conj", Conj, conj)
	FN("log", Log, log)
	FN("log10", Log10, log10)
	FN("exp", Exp, exp)
	FN("sqrt", Sqrt, sqrt)
	FN("sin", Sin, sin)
	FN("cos", Cos, cos)
	FN("tan", Tan, tan)
	FN("asin", Asin, asin)
	FN("acos", Acos, acos)
	FN("atan", Atan, atan)
	FN("sinh", Sinh, sinh)
	FN("cosh", Cosh, cosh)
	FN("tanh", Tanh, tanh)
	FN("asinh", Asinh, asinh)
	FN("acosh", Acosh, acosh)
	FN("atanh", Atanh, atanh)
	if (fn.name.rfind("pow", 0) == 0) {
		const bool half = fn.name[3] == 'h';
		const auto digits = fn.name.substr(half ? 4 : 3);
		const double p = (digits[0] == 'm' ? -std::stod(digits.substr(1)) : std::stod(digits)) / (half ? 2 : 1);
		// By value only signals: a view can not own the result.
		run<X>(
			fn, [p](auto&& o, const auto& i) { Pow(o, i, X(p)); }, [p](const auto& i) { const Sig<X> c(i.begin(), i.end()); return Pow(c, X(p)); });
		return true;
	}
	return false;
}
template <class X>
bool run_real(const Fn& fn) {
	if constexpr (!vp::is_cplx_v<X>) {
		FN("log2", Log2, log2)
		FN("cbrt", Cbrt, cbrt)
		FN("erf", Erf, erf)
		FN("erfc", Erfc, erfc)
		FN("tgamma", TGamma, tgamma)
		FN("lgamma", LGamma, lgamma)
	}
	return false;
}

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	long idx = 0;
	for (const auto& line : ctx.script) {
		std::istringstream in(line);
		Fn fn;
		int real = 0;
		in >> fn.name >> real;
		for (long p; in >> p;) {
			fn.points.push_back(p);
		}
		if ((real != 0) == CPLX || !ctx.mine(idx++)) {
			continue;
		}
		if (run_any<T>(fn) || run_real<T>(fn)) {
			ctx.count("functions");
		}
		else {
			ctx.count("skipped");
		}
	}
	return vp::finish(ctx);
}
