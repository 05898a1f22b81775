// Linear systems, their representations and substitutions.  VP_T: real type.
#include "vp.hpp"

#include <array>
#include <dspbb/Filtering/IIR/BandTransforms.hpp>
#include <dspbb/LTISystems/DiscretizationTransforms.hpp>
#include <dspbb/LTISystems/Systems.hpp>

using namespace dspbb;
using T = VP_T;
using C = std::complex<T>;
using CD = std::complex<double>;
constexpr bool isFloat = std::is_same_v<T, float>;

vp::Ctx ctx;

struct Roots {
	std::vector<long> real, re, im;
	std::string str() const {
		const auto l = [](const std::vector<long>& v) {
			std::string s = "[";
			for (auto x : v) {
				s += (s.size() > 1 ? "," : "") + std::to_string(x);
			}
			return s + "]";
		};
		return "{\"real\":" + l(real) + ",\"re\":" + l(re) + ",\"im\":" + l(im) + "}";
	}
	size_t count() const { return real.size() + 2 * re.size(); }
	double norm() const {
		double n = 1;
		for (auto r : real) {
			n *= 1 + std::abs(r);
		}
		for (size_t i = 0; i < re.size(); ++i) {
			n *= 1 + 2 * std::abs(re[i]) + re[i] * re[i] + im[i] * im[i];
		}
		return n;
	}
	FactoredPolynomial<T> poly() const {
		FactoredPolynomial<T> p;
		p.resize(real.size(), re.size());
		for (size_t i = 0; i < real.size(); ++i) {
			p.real_roots()[i] = T(real[i]);
		}
		for (size_t i = 0; i < re.size(); ++i) {
			p.complex_pairs()[i] = C(T(re[i]), T(im[i]));
		}
		return p;
	}
	// Bound of the terms of the product at u / v
	double magnitude(CD u, CD v) const {
		double y = 1;
		for (auto r : real) {
			y *= std::max(1.0, std::abs(u) + double(std::abs(r)) * std::abs(v));
		}
		for (size_t i = 0; i < re.size(); ++i) {
			const double f = std::abs(u) + std::abs(CD(re[i], im[i])) * std::abs(v);
			y *= std::max(1.0, f * f);
		}
		return y;
	}
	CD at(CD u, CD v) const {
		CD y = 1;
		for (auto r : real) {
			y *= u - double(r) * v;
		}
		for (size_t i = 0; i < re.size(); ++i) {
			y *= (u - CD(re[i], im[i]) * v) * (u - CD(re[i], -im[i]) * v);
		}
		return y;
	}
	bool has(long n, long d) const { // n / d is one of the real roots
		for (auto r : real) {
			if (n == r * d) {
				return true;
			}
		}
		return false;
	}
};

using Poly = std::vector<long>;
struct Sub { // What the argument was replaced by; only to know which numbers stay small.
	Poly u{ 0, 1 }, v{ 1 };
};
CD at(const Poly& p, CD z) {
	CD y = 0;
	for (size_t i = p.size(); i-- > 0;) {
		y = y * z + double(p[i]);
	}
	return y;
}
// First-degree substitution m after f
Sub compose(const Sub& m, const Sub& f) {
	const auto h = [&](const Poly& p) {
		Poly r(std::max(f.u.size(), f.v.size()), 0);
		const long c0 = p[0];
		const long c1 = p.size() > 1 ? p[1] : 0;
		for (size_t i = 0; i < r.size(); ++i) {
			r[i] = c0 * (i < f.v.size() ? f.v[i] : 0) + c1 * (i < f.u.size() ? f.u[i] : 0);
		}
		return r;
	};
	return { h(m.u), h(m.v) };
}
void reduce(Sub& s) {
	long g = 0;
	for (auto x : s.u) {
		g = std::gcd(g, x);
	}
	for (auto x : s.v) {
		g = std::gcd(g, x);
	}
	for (auto& x : s.u) {
		x /= g;
	}
	for (auto& x : s.v) {
		x /= g;
	}
}

Roots makeRoots(vp::Rng& g, int maxReal, int maxPairs) {
	Roots r;
	for (long n = g.in(0, maxReal); n > 0; --n) {
		r.real.push_back(g.in(-3, 3));
	}
	for (long n = g.in(0, maxPairs); n > 0; --n) {
		r.re.push_back(g.in(-3, 3));
		r.im.push_back(g.in(1, 3));
	}
	return r;
}

struct Session {
	vp::Rng& g;
	long gain;
	Roots zeros, poles;
	bool continuous;
	Sub sub;
	bool identity = true;
	ContinuousZeroPoleGain<T> c;
	DiscreteZeroPoleGain<T> d;

	// Scale for values at z; zero if the numbers would get too large or the value is infinite.
	long scaleAt(CD z, bool rounded) {
		const CD u = at(sub.u, z), v = at(sub.v, z);
		if (std::abs(u) > 1e3 || std::abs(v) > 1e3) {
			return 0;
		}
		CD n = double(gain) * zeros.at(u, v);
		CD dd = poles.at(u, v);
		const long diff = long(poles.count()) - long(zeros.count());
		for (long i = 0; i < std::abs(diff); ++i) {
			(diff >= 0 ? n : dd) *= v;
		}
		if (std::abs(n) > 2e5 || std::abs(dd) > 2e5 || std::abs(dd) < 0.5) {
			return 0;
		}
		long s = 10000;
		while (double(s) * std::abs(n) > 1e8) {
			s /= 10;
		}
		const double far = std::pow(std::max(1.0, std::abs(v)), double(std::abs(diff)));
		const double top = std::max(1.0, std::abs(double(gain))) * zeros.magnitude(u, v) * (diff >= 0 ? far : 1.0);
		const double bottom = poles.magnitude(u, v) * (diff >= 0 ? 1.0 : far);
		if (top > 1e9 || bottom > 1e9) {
			return 0;
		}
		// The roots of substituted systems are rounded: points where the factors cancel are judged coarser.
		if (rounded) {
			const double eps = isFloat ? 4e-6 : 1e-13;
			const double err = eps * (top / std::abs(dd) + std::abs(n) / std::abs(dd) * bottom / std::abs(dd));
			while (s > 0 && double(s) * err > 1.0) {
				s /= 10;
			}
		}
		return s;
	}
	static std::string value(C v, long s) {
		return "[" + std::to_string(vp::scaled(v.real(), double(s))) + "," + std::to_string(vp::scaled(v.imag(), double(s))) + "]";
	}
	template <class Sys>
	std::string values(const Sys& sys, long x, long y, long s) {
		std::string r = value(sys(C(T(x), T(y))), s);
		if (y == 0) {
			r += "," + value(C(sys(T(x))), s);
		}
		return r;
	}
	void evals(int n) {
		for (int i = 0; i < n; ++i) {
			const long x = g.in(-3, 3);
			const long y = g.coin() ? 0 : g.in(-2, 2);
			const long s = scaleAt(CD(x, y), !identity);
			if (s == 0) {
				continue;
			}
			std::string v;
			if (continuous) {
				v = values(c, x, y, s) + "," + values(ContinuousTransferFunction<T>(c), x, y, s);
			}
			else {
				v = values(d, x, y, s) + "," + values(CascadedBiquad<T>(d), x, y, s);
				if (identity || !isFloat) {
					v += "," + values(DiscreteTransferFunction<T>(d), x, y, s);
				}
			}
			ctx.log(vp::Ev("Eval").raw("z", "[" + std::to_string(x) + "," + std::to_string(y) + "]").i("scale", s).raw("post", "[" + v + "]"));
			ctx.count("evals");
		}
	}
	void orders() {
		std::vector<size_t> o;
		const auto add = [&](const auto& zpk, const auto& tf) {
			for (auto n : { zpk.zeros.num_roots(), zpk.poles.num_roots(), zpk.order(), tf.numerator.order(), tf.denominator.order(), tf.order() }) {
				o.push_back(n);
			}
		};
		if (continuous) {
			add(c, ContinuousTransferFunction<T>(c));
		}
		else {
			add(d, DiscreteTransferFunction<T>(d));
			o.push_back(CascadedBiquad<T>(d).order());
		}
		ctx.log(vp::Ev("Orders").a("post", o));
	}
	static std::string ints(const auto& c) {
		std::string s = "[";
		for (const auto& x : c) {
			s += (s.size() > 1 ? "," : "") + std::to_string(vp::scaled(x, 1.0, 1e-2));
		}
		return s + "]";
	}
	void representations() {
		const auto tf = [&](const auto& t) {
			ctx.log(vp::Ev("Transfer").raw("post", "{\"num\":" + ints(t.numerator.coefficients()) + ",\"den\":" + ints(t.denominator.coefficients()) + "}"));
		};
		if (continuous) {
			tf(ContinuousTransferFunction<T>(c));
			return;
		}
		tf(DiscreteTransferFunction<T>(d));
		std::string s = "[";
		for (const auto& sec : CascadedBiquad<T>(d).sections) {
			s += std::string(s.size() > 1 ? "," : "") + "{\"n\":" + ints(sec.numerator) + ",\"d\":" + ints(sec.denominator)
				 + ",\"no\":" + std::to_string(int(sec.numOrder)) + ",\"do\":" + std::to_string(int(sec.denOrder)) + "}";
		}
		ctx.log(vp::Ev("Cascade").raw("post", s + "]"));
	}
	// May the argument be replaced by this?  (No finite root may go to infinity.)
	bool regular(const Sub& to) {
		const size_t n = std::max(to.u.size(), to.v.size());
		const long u = to.u.size() == n ? to.u.back() : 0;
		const long v = to.v.size() == n ? to.v.back() : 0;
		return !zeros.has(u, v) && !poles.has(u, v) && (v != 0 || zeros.count() == poles.count());
	}
	void prewarp() {
		const long w = g.in(1, 3);
		const long fs = g.in(1, 5);
		const long s = scaleAt(CD(0, double(w)), true);
		if (s == 0) {
			return;
		}
		const auto dis = BilinearTransform(c, T(fs), std::optional<T>(T(w)));
		const C z = std::polar(T(1), T(double(w) / double(fs)));
		ctx.log(vp::Ev("Prewarp").i("w", w).i("scale", s).raw("post", value(dis(z), s)));
	}
	void bilinear() {
		const long k = g.in(1, 4);
		const Sub to = compose(sub, { { -k, k }, { 1, 1 } });
		if (!regular(to)) {
			return;
		}
		d = BilinearTransform(c, T(k) / T(2));
		sub = to;
		identity = false;
		continuous = false;
		ctx.log(vp::Ev("Bilinear").i("k", k));
	}
	void band() {
		static const std::array<std::array<long, 3>, 10> angles = { { { 3, 4, 5 }, { 4, 3, 5 }, { 0, 5, 5 }, { -3, 4, 5 }, { -4, 3, 5 }, { 5, 12, 13 }, { 12, 5, 13 }, { 0, 13, 13 }, { -5, 12, 13 }, { -12, 5, 13 } } };
		const auto a = g.pick(angles);
		const auto b = g.pick(angles);
		const long m = a[2];
		const int which = g.in(0, 3);
		static const char* const names[] = { "low", "high", "pass", "stop" };
		const T wa = T(std::atan2(double(a[1]), double(a[0])) / pi_v<double>);
		const T wb = T(std::atan2(double(b[1]), double(b[0])) / pi_v<double>);
		Sub f;
		if (which == 0) {
			f = { { -a[0], m + a[1] }, { m + a[1], -a[0] } };
		}
		else if (which == 1) {
			f = { { a[0], -(m + a[1]) }, { m + a[1], -a[0] } };
		}
		else {
			if (b[2] != m || !(wa < wb)) {
				return;
			}
			const long tn = b[1] * a[0] - b[0] * a[1], td = m * m + a[0] * b[0] + a[1] * b[1];
			const long an = a[1] * b[0] + a[0] * b[1], ad = m * (a[1] + b[1]);
			const long hi = ad * (td + tn), mid = -2 * an * td, lo = ad * (td - tn);
			const long sg = which == 2 ? -1 : 1;
			f = { { sg * lo, sg * mid, sg * hi }, { hi, mid, lo } };
		}
		reduce(f);
		const Sub to = compose(sub, f);
		if (!regular(to)) {
			return;
		}
		// With different numbers of zeros and poles, infinity must map to a finite point of the half-band system as well.
		if (zeros.count() != poles.count() && f.v.back() == 0) {
			return;
		}
		d = which == 0 ? Halfband2Lowpass(d, wa) : which == 1 ? Halfband2Highpass(d, wa) :
									   which == 2			  ? Halfband2Bandpass(d, wa, wb) :
																Halfband2Bandstop(d, wa, wb);
		sub = to;
		identity = false;
		ctx.log(vp::Ev("Band").s("which", names[which]).i("m", m).a("w", std::array<long, 4>{ a[0], a[1], b[0], b[1] }));
		ctx.count(names[which]);
	}
	void go() {
		c = { T(gain), zeros.poly(), poles.poly() };
		d = { T(gain), zeros.poly(), poles.poly() };
		ctx.log(vp::Ev("Begin"));
		ctx.log(vp::Ev("System").i("gain", gain).raw("zeros", zeros.str()).raw("poles", poles.str()).s("kind", continuous ? "continuous" : "discrete"));
		orders();
		representations();
		evals(3);
		if (continuous) {
			prewarp();
			bilinear();
			if (!continuous) {
				orders();
				evals(4);
			}
		}
		if (!continuous) {
			const auto before = sub.u.size() + sub.v.size();
			const bool was = identity;
			band();
			if (sub.u.size() + sub.v.size() != before || was != identity) {
				orders();
				evals(6);
			}
		}
		++ctx.sessions;
	}
};

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	const int n = ctx.scale(4000, 40000);
	for (int i = 0; i < n; ++i) {
		if (!ctx.mine(i)) {
			continue;
		}
		auto g = ctx.rng(i);
		const bool small = g.coin(2, 3);
		Session s{ g, g.in(-3, 3), makeRoots(g, small ? 2 : 5, small ? 1 : 2), makeRoots(g, small ? 2 : 5, small ? 1 : 2), g.coin() };
		if (s.zeros.norm() * 3 > (isFloat ? 2e5 : 1e7) || s.poles.norm() > (isFloat ? 2e5 : 1e7)) {
			continue;
		}
		s.go();
	}
	return vp::finish(ctx);
}
