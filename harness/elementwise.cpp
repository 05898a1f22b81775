// Element-wise arithmetic.  VP_T, VP_U: element types of a and b; VP_R: of r.
#include "vp.hpp"

#include <cassert>
#include <stdexcept>

#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalArithmetic.hpp>
#include <dspbb/Primitives/SignalView.hpp>

using namespace dspbb;
using cf = std::complex<float>;
using cd = std::complex<double>;
using T = VP_T;
using U = VP_U;
using R = VP_R;
using P = decltype(std::declval<T>() * std::declval<U>());
constexpr auto DOM = eSignalDomain::TIME;
template <class X>
using Sig = BasicSignal<X, DOM>;
constexpr bool INTS = std::is_integral_v<T>;

vp::Ctx ctx;

// Whole-number quotients: multiples of four by units, two, four and 1 +- i.
template <class X>
X value(vp::Rng& g, bool div, bool divisor) {
	if (INTS) {
		const auto v = X(g.in(-30, 30));
		return div && divisor && v == X(0) ? X(7) : v;
	}
	if (!div) {
		return vp::num<X>(g, -9, 9);
	}
	if (!divisor) {
		return vp::num<X>(g, -5, 5) * X(4);
	}
	const int re[] = { 1, -1, 2, -2, 4, -4, 0, 0, 0, 1, -1, 1, -1 };
	const int im[] = { 0, 0, 0, 0, 0, 0, 1, -1, 2, 1, -1, -1, 1 };
	if constexpr (vp::is_cplx_v<X>) {
		const auto k = g.in(0, 12);
		return X(re[k], im[k]);
	}
	else {
		return X(re[g.in(0, 5)]);
	}
}

struct Mem {
	Sig<T> a;
	Sig<U> b;
	Sig<R> r;
	std::string str() const { return "{\"a\":" + vp::Ev::sigstr(a) + ",\"b\":" + vp::Ev::sigstr(b) + ",\"r\":" + vp::Ev::sigstr(r) + "}"; }
};

template <class F, class A, class B, class C>
void three(const std::string& f, A&& r, const B& x, const C& y, F) {
	if (f == "add") {
		Add(r, x, y);
	}
	else if (f == "sub") {
		Subtract(r, x, y);
	}
	else if (f == "mul") {
		Multiply(r, x, y);
	}
	else {
		Divide(r, x, y);
	}
}
template <class A, class B>
auto op(const std::string& f, const A& x, const B& y) {
	if (f == "add") {
		return x + y;
	}
	if (f == "sub") {
		return x - y;
	}
	if (f == "mul") {
		return x * y;
	}
	return x / y;
}
template <class A, class B>
void compound(const std::string& f, A&& x, const B& y) {
	if (f == "add") {
		x += y;
	}
	else if (f == "sub") {
		x -= y;
	}
	else if (f == "mul") {
		x *= y;
	}
	else {
		x /= y;
	}
}

// The addressed range of a signal, in any form it may be passed.
template <class S, class F>
void as_operand(int kind, S& s, size_t off, size_t n, F f) {
	if (off == 0 && n == s.size() && kind == 0) {
		f(s);
	}
	else if (kind == 1) {
		f(AsView(s).subsignal(off, n));
	}
	else {
		f(AsConstView(s).subsignal(off, n));
	}
}
template <class S, class F>
void as_output(int kind, S& s, size_t off, size_t n, F f) {
	if (off == 0 && n == s.size() && kind == 0) {
		f(s);
	}
	else {
		f(AsView(s).subsignal(off, n));
	}
}

std::string range(const char* buf, size_t off) { return std::string("{\"buf\":\"") + buf + "\",\"off\":" + std::to_string(off) + "}"; }
template <class X>
std::string scalar(const X& v) { return "{\"buf\":\"scalar\",\"v\":[" + std::to_string(vp::re(v)) + "," + std::to_string(vp::im(v)) + "]}"; }

struct Case {
	Mem m;
	size_t n, oa, ob, orr;
	std::string f;
	T sa;
	U sb;
};

Case start(vp::Rng& g, const std::string& f, size_t n) {
	const bool div = f == "div";
	Case c{ {}, n, 0, 0, 0, f, value<T>(g, div, false), value<U>(g, div, true) };
	const auto fill = [&](auto& s, size_t& off, bool divisor) {
		using X = typename std::decay_t<decltype(s)>::value_type;
		const bool exactly = g.coin();
		off = exactly ? 0 : g.in(0, 4);
		s.resize(exactly ? n : off + n + g.in(0, 5));
		for (auto& x : s) {
			x = value<X>(g, div, divisor);
		}
	};
	fill(c.m.a, c.oa, false);
	fill(c.m.b, c.ob, true);
	fill(c.m.r, c.orr, false);
	ctx.log(vp::Ev("Begin"));
	ctx.log(vp::Ev("Load").raw("mem", c.m.str()).b("int", INTS));
	++ctx.sessions;
	return c;
}

void log_into(const Case& c, const char* buf, size_t off, const std::string& x, const std::string& y) {
	ctx.log(vp::Ev("Into").s("f", c.f).s("buf", buf).i("off", off).i("n", c.n).raw("x", x).raw("y", y).raw("mem", c.m.str()));
}

// Into r: two ranges, or a range and a scalar.
void into(vp::Rng& g, const std::string& f, size_t n, int what) {
	auto c = start(g, f, n);
	const int kx = g.in(0, 2);
	const int ky = g.in(0, 2);
	as_output(g.in(0, 1), c.m.r, c.orr, n, [&](auto&& r) {
		if (what == 0) {
			as_operand(kx, c.m.a, c.oa, n, [&](auto&& x) {
				as_operand(ky, c.m.b, c.ob, n, [&](auto&& y) { three(f, r, x, y, 0); });
			});
			log_into(c, "r", c.orr, range("a", c.oa), range("b", c.ob));
		}
		else if (what == 1) {
			as_operand(kx, c.m.a, c.oa, n, [&](auto&& x) { three(f, r, x, c.sb, 0); });
			log_into(c, "r", c.orr, range("a", c.oa), scalar(c.sb));
		}
		else {
			as_operand(ky, c.m.b, c.ob, n, [&](auto&& y) { three(f, r, c.sa, y, 0); });
			log_into(c, "r", c.orr, scalar(c.sa), range("b", c.ob));
		}
	});
}

// The output is one of the operands.
template <class A>
void inplace_a(vp::Rng& g, const std::string& f, size_t n, int what) {
	if constexpr (std::is_same_v<A, P>) {
		auto c = start(g, f, n);
		const int ky = g.in(0, 2);
		as_output(g.in(0, 1), c.m.a, c.oa, n, [&](auto&& x) {
			if (what == 0) {
				as_operand(ky, c.m.b, c.ob, n, [&](auto&& y) { compound(f, x, y); });
			}
			else if (what == 1) {
				compound(f, x, c.sb);
			}
			else if (what == 2) {
				as_operand(ky, c.m.b, c.ob, n, [&](auto&& y) { three(f, x, x, y, 0); });
			}
			else {
				three(f, x, x, c.sb, 0);
			}
		});
		log_into(c, "a", c.oa, range("a", c.oa), what % 2 ? scalar(c.sb) : range("b", c.ob));
	}
}
template <class B>
void inplace_b(vp::Rng& g, const std::string& f, size_t n, int what) {
	if constexpr (std::is_same_v<B, P>) {
		auto c = start(g, f, n);
		const int kx = g.in(0, 2);
		as_output(g.in(0, 1), c.m.b, c.ob, n, [&](auto&& y) {
			if (what == 0) {
				as_operand(kx, c.m.a, c.oa, n, [&](auto&& x) { three(f, y, x, y, 0); });
			}
			else {
				three(f, y, c.sa, y, 0);
			}
		});
		log_into(c, "b", c.ob, what == 0 ? range("a", c.oa) : scalar(c.sa), range("b", c.ob));
	}
}

// A new signal
template <class Y>
void value_of(vp::Rng& g, const std::string& f, size_t n, int what) {
	if constexpr (std::is_same_v<Y, P>) {
		auto c = start(g, f, n);
		const int kx = g.in(0, 2);
		const int ky = g.in(0, 2);
		if (what == 0) {
			as_operand(kx, c.m.a, c.oa, n, [&](auto&& x) {
				as_operand(ky, c.m.b, c.ob, n, [&](auto&& y) { c.m.r = op(f, x, y); });
			});
		}
		else if (what == 1) {
			as_operand(kx, c.m.a, c.oa, n, [&](auto&& x) { c.m.r = op(f, x, c.sb); });
		}
		else {
			as_operand(ky, c.m.b, c.ob, n, [&](auto&& y) { c.m.r = op(f, c.sa, y); });
		}
		ctx.log(vp::Ev("Value").s("f", f).i("n", n).raw("x", what == 2 ? scalar(c.sa) : range("a", c.oa)).raw("y", what == 1 ? scalar(c.sb) : range("b", c.ob)).b("real", !vp::is_cplx_v<P>).raw("mem", c.m.str()));
	}
}

// Different lengths
template <class Y>
void refuse(vp::Rng& g, const std::string& f) {
	const auto with = [&](const std::vector<long>& lens, auto call) {
		ctx.log(vp::Ev("Refuse").a("lens", lens).s("outcome", vp::outcome(call)));
	};
	for (int k = 0; k < 3; ++k) {
		auto c = start(g, f, g.in(1, 9));
		const long n = c.n;
		const long d = g.coin() ? g.in(1, n) : -g.in(1, 20);
		Sig<T> a(n, T(4)), a2(n - d, T(4));
		Sig<U> b(n, U(1)), b2(n - d, U(1));
		Sig<R> r(n), r2(n - d);
		with({ n, n, n - d }, [&] { three(f, r, a, AsView(b2), 0); });
		with({ n, n - d, n }, [&] { three(f, r, AsConstView(a2), b, 0); });
		with({ n - d, n, n }, [&] { three(f, r2, a, b, 0); });
		with({ n - d, n - d, n }, [&] { three(f, r2, a2, b, 0); });
		with({ n - d, n }, [&] { three(f, r2, a, U(1), 0); });
		with({ n - d, n }, [&] { three(f, r2, T(4), b, 0); });
		if constexpr (std::is_same_v<Y, P>) {
			with({ n, n, n - d }, [&] { (void)op(f, a, b2); });
		}
		if constexpr (std::is_same_v<T, P>) {
			with({ n, n, n - d }, [&] { compound(f, a, b2); });
		}
	}
}

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	long idx = 0;
	const std::vector<std::string> ops = { "add", "sub", "mul", "div" };
	const int rounds = ctx.scale(1, 8);
	for (int round = 0; round < rounds; ++round) {
		for (size_t n = 0; n <= size_t(ctx.scale(36, 80)); ++n) {
			for (const auto& f : ops) {
				if (!ctx.mine(idx++)) {
					continue;
				}
				auto g = ctx.rng(1000 + idx);
				for (int what = 0; what < 3; ++what) {
					into(g, f, n, what);
					value_of<R>(g, f, n, what);
				}
				inplace_a<T>(g, f, n, 0);
				inplace_a<T>(g, f, n, 1);
				inplace_a<T>(g, f, n, g.in(2, 3));
				inplace_b<U>(g, f, n, 0);
				inplace_b<U>(g, f, n, 1);
			}
		}
	}
	for (int c = 0; c < ctx.scale(1, 6); ++c) {
		for (const auto& f : ops) {
			if (ctx.mine(idx++)) {
				auto g = ctx.rng(500000 + idx);
				refuse<R>(g, f);
			}
		}
	}
	return vp::finish(ctx);
}
