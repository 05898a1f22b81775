// Rationals.  VP_T: integer type.
#include "vp.hpp"

#include <array>
#include <cassert>
#include <sstream>

#include <dspbb/Math/Rational.hpp>

using namespace dspbb;
using T = VP_T;
using Q = Rational<T>;
using Other = std::conditional_t<std::is_same_v<T, int>, int64_t, int>;
using Long = Rational<Other>;

vp::Ctx ctx;

std::string str(const Q& q) { return "[" + std::to_string(vp::exact(q.Numerator())) + "," + std::to_string(vp::exact(q.Denominator())) + "]"; }

struct Operand {
	int r; // Register, or zero for the integer
	T i;
	std::string str() const { return r ? "[" + std::to_string(r) + "]" : "[0," + std::to_string(i) + "]"; }
};

struct Machine {
	std::array<Q, 3> reg = { Q{ 0 }, Q{ 0 }, Q{ 0 } };

	Machine() {
		ctx.log(vp::Ev("Begin"));
		++ctx.sessions;
	}
	std::string post() const { return "[" + str(reg[0]) + "," + str(reg[1]) + "," + str(reg[2]) + "]"; }
	Q& at(int k) { return reg[size_t(k - 1)]; }

	void set(int k, T n, T d, bool whole) {
		if (whole && d == 1) {
			at(k) = Q{ n };
		}
		else {
			at(k) = Q{ n, d };
		}
		ctx.log(vp::Ev("Set").i("k", k).i("n", n).i("d", d).raw("post", post()));
	}
	template <class A, class B>
	static Q apply(int f, const A& a, const B& b) {
		return f == 1 ? a + b : f == 2 ? a - b : f == 3 ? a * b : a / b;
	}
	static const char* name(int f) { return f == 1 ? "+" : f == 2 ? "-" : f == 3 ? "*" : "/"; }
	void binary(int k, int f, Operand a, Operand b) {
		if (a.r && b.r) {
			at(k) = apply(f, at(a.r), at(b.r));
		}
		else if (a.r) {
			at(k) = apply(f, at(a.r), b.i);
		}
		else {
			at(k) = apply(f, a.i, at(b.r));
		}
		ctx.log(vp::Ev("Binary").i("k", k).s("f", name(f)).raw("a", a.str()).raw("b", b.str()).raw("post", post()));
	}
	template <class B>
	static Q& compound(int f, Q& a, const B& b) {
		return f == 1 ? a += b : f == 2 ? a -= b : f == 3 ? a *= b : a /= b;
	}
	void compound(int k, int f, Operand b) {
		Q& r = b.r ? compound(f, at(k), at(b.r)) : compound(f, at(k), b.i);
		ctx.log(vp::Ev("Compound").i("k", k).s("f", name(f)).raw("b", b.str()).raw("post", post()).raw("ret", str(r)));
	}
	void step(int k, int by, bool prefix) {
		Q ret{ 77 };
		if (prefix) {
			ret = by > 0 ? ++at(k) : --at(k);
		}
		else {
			ret = by > 0 ? at(k)++ : at(k)--;
		}
		ctx.log(vp::Ev("Step").i("k", k).i("by", by).b("prefix", prefix).raw("post", post()).raw("ret", str(ret)));
	}

	template <class A, class B>
	static std::string relations(const A& a, const B& b) {
		std::ostringstream s;
		s << "[" << int(a == b) << "," << int(a != b) << "," << int(a < b) << "," << int(a > b) << "," << int(a <= b) << "," << int(a >= b) << "]";
		return s.str();
	}
	// Whether the integer type holds the operands over a common denominator.
	bool comparable(Operand a, Operand b) {
		const auto x = a.r ? at(a.r) : Q{ a.i }, y = b.r ? at(b.r) : Q{ b.i };
		const auto fits = [](T p, T q) { return std::abs(double(p) * double(q)) < 0.99 * double(std::numeric_limits<T>::max()); };
		return fits(x.Numerator(), y.Denominator()) && fits(y.Numerator(), x.Denominator()) && fits(x.Denominator(), y.Denominator());
	}
	void compare(Operand a, Operand b) {
		if (!comparable(a, b)) {
			return;
		}
		std::string s = "[";
		if (a.r && b.r) {
			const Q x = at(a.r), y = at(b.r);
			s += relations(x, y) + "," + relations(x, Long{ Other(y.Numerator()), Other(y.Denominator()) }) + ","
				 + relations(Long{ Other(x.Numerator()), Other(x.Denominator()) }, y);
		}
		else if (a.r) {
			s += relations(at(a.r), b.i) + "," + relations(at(a.r), Q{ b.i });
		}
		else {
			s += relations(a.i, at(b.r)) + "," + relations(Q{ a.i }, at(b.r));
		}
		ctx.log(vp::Ev("Compare").raw("a", a.str()).raw("b", b.str()).raw("rel", s + "]"));
	}
	void parts(int k) {
		ctx.log(vp::Ev("Parts").i("k", k).i("floor", vp::exact(floor(at(k)))).i("ceil", vp::exact(ceil(at(k)))).raw("frac", str(frac(at(k)))));
	}
	void value(int k) {
		const double v = double(at(k).Numerator()) / double(at(k).Denominator());
		long scale = 1;
		while (scale < 1000000 && std::abs(v) * double(scale) < 1e8) {
			scale *= 10;
		}
		const std::array<double, 2> q = { double(at(k)), double(float(at(k))) };
		ctx.log(vp::Ev("Value").i("k", k).i("scale", scale).q("q", q, double(scale)));
	}
	// Everything that can be asked
	void observe(vp::Rng& g) {
		for (int k = 1; k <= 3; ++k) {
			parts(k);
			value(k);
		}
		for (int a = 1; a <= 3; ++a) {
			for (int b = 1; b <= 3; ++b) {
				compare({ a, 0 }, { b, 0 });
			}
			const T near = T(at(a).Numerator() / at(a).Denominator()) + T(g.in(-1, 1));
			compare({ a, 0 }, { 0, near });
			compare({ 0, near }, { a, 0 });
		}
	}
};

void replay(const std::string& line, vp::Rng& g) {
	std::stringstream steps(line);
	std::string s;
	Machine m;
	while (std::getline(steps, s, ';')) {
		std::stringstream in(s);
		int c = 0, k = 0;
		in >> c >> k;
		if (c == 0) {
			long n, d;
			in >> n >> d;
			m.set(k, T(n), T(d), g.coin());
		}
		else if (c == 1) {
			int f, a, b;
			long i;
			in >> f >> a >> b >> i;
			m.binary(k, f, { a, T(i) }, { b, T(i) });
		}
		else if (c == 2) {
			int f, b;
			long i;
			in >> f >> b >> i;
			m.compound(k, f, { b, T(i) });
		}
		else {
			int by, prefix;
			in >> by >> prefix;
			m.step(k, by, prefix != 0);
		}
		if (g.coin(1, 5)) {
			m.observe(g);
		}
	}
	m.observe(g);
}

// Large terms whose result is small enough, although intermediate products need not be.
void large(vp::Rng& g) {
	const auto gcd = [](__int128 a, __int128 b) {
		a = a < 0 ? -a : a;
		while (b != 0) {
			const auto t = a % b;
			a = b;
			b = t;
		}
		return a;
	};
	const auto fits = [](__int128 a) { return a < vp::LIMIT && a > -vp::LIMIT; };
	const auto small = [&] { return g.in(1, g.pick(std::array<int, 3>{ 3, 100, 3000 })); };
	for (int k = 0; k < 12; ++k) {
		const int f = int(g.in(1, 4));
		const long c = g.in(1, 300000), d = g.in(1, 300000);
		__int128 an = small(), ad = small(), bn = small(), bd = small();
		if (f == 3) {
			an *= c, bd *= c, ad *= d, bn *= d;
		}
		else if (f == 4) {
			an *= c, bn *= c, ad *= d, bd *= d;
		}
		else {
			an *= small(), bn *= small(), ad *= c, bd *= c;
		}
		an = g.coin() ? an : -an;
		bn = g.coin() ? bn : -bn;
		if (!fits(an) || !fits(ad) || !fits(bn) || !fits(bd)) {
			continue;
		}
		const Q a{ T(an), T(ad) }, b{ T(bn), T(bd) };
		an = a.Numerator(), ad = a.Denominator(), bn = b.Numerator(), bd = b.Denominator();
		const auto lcm = ad / gcd(ad, bd) * bd;
		const auto x = an * (lcm / ad), y = bn * (lcm / bd);
		vp::Ev e("Large");
		e.s("f", Machine::name(f)).raw("a", str(a)).raw("b", str(b));
		if (f <= 2) {
			if (!fits(lcm) || !fits(x) || !fits(y) || !fits(f == 1 ? x + y : x - y)) {
				continue;
			}
			e.raw("rel", "[" + Machine::relations(a, b) + "]");
		}
		else {
			const auto n = f == 3 ? an * bn : an * bd, m = f == 3 ? ad * bd : ad * bn;
			if (!fits(n / gcd(n, m < 0 ? -m : m)) || !fits(m / gcd(n, m < 0 ? -m : m))) {
				continue;
			}
			e.raw("rel", "[]");
		}
		e.raw("ret", str(Machine::apply(f, a, b)));
		ctx.log(e);
	}
}

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	long idx = 0;
	for (const auto& line : ctx.script) {
		if (ctx.mine(idx++)) {
			auto g = ctx.rng(uint64_t(idx));
			replay(line, g);
		}
	}
	for (int k = 0; k < ctx.scale(150, 3000); ++k) {
		if (ctx.mine(idx++)) {
			auto g = ctx.rng(uint64_t(idx) + 500000);
			Machine m;
			large(g);
		}
	}
	// All pairs of small rationals and integers under all operators
	const int n = ctx.scale(6, 12), d = ctx.scale(4, 9);
	for (int n1 = -n; n1 <= n; ++n1) {
		for (int d1 = 1; d1 <= d; ++d1) {
			if (!ctx.mine(idx++)) {
				continue;
			}
			Machine m;
			for (int d2 = 1; d2 <= d; ++d2) {
				m.set(1, n1, d1, d2 % 2);
				if (d2 == 1) {
					m.parts(1);
					m.value(1);
				}
				for (int n2 = -n; n2 <= n; ++n2) {
					m.set(2, n2, d2, d2 % 3);
					m.compare({ 1, 0 }, { 2, 0 });
					for (int f = 1; f <= 4; ++f) {
						if (f == 4 && n2 == 0) {
							continue;
						}
						m.binary(3, f, { 1, 0 }, { 2, 0 });
						if (d2 == 1) {
							m.binary(3, f, { 1, 0 }, { 0, T(n2) });
							m.compare({ 1, 0 }, { 0, T(n2) });
							m.compare({ 0, T(n2) }, { 1, 0 });
							m.set(3, n1, d1, false);
							m.compound(3, f, { 0, T(n2) });
						}
						if (d2 == 1 && (f < 4 || n1 != 0)) {
							m.binary(3, f, { 0, T(n2) }, { 1, 0 });
						}
						m.set(3, n1, d1, false);
						m.compound(3, f, { 2, 0 });
					}
				}
			}
			// An operand that is the result
			for (int f = 1; f <= 4; ++f) {
				if (f == 4 && n1 == 0) {
					continue;
				}
				m.set(1, n1, d1, false);
				m.compound(1, f, { 1, 0 });
				m.set(1, n1, d1, false);
				m.binary(1, f, { 1, 0 }, { 1, 0 });
			}
			for (int by : { -1, 1 }) {
				m.step(2, by, true);
				m.step(2, by, false);
			}
		}
	}
	return vp::finish(ctx);
}
