// Elliptic integrals and functions, from scripts of the specification.  VP_T: type of the arguments.
#include "vp.hpp"

#include <array>
#include <cassert>
#include <cmath>
#include <stdexcept>
#include <tuple>

#include <dspbb/Math/EllipticFunctions.hpp>

using namespace dspbb;
using T = VP_T;
using C = std::complex<T>;

vp::Ctx ctx;
constexpr double ONE = 268435456.0;
constexpr bool single = std::is_same_v<T, float>;
long num(double v) { return vp::scaled(v, ONE); }
std::string text(std::initializer_list<double> list) {
	std::string s = "[";
	for (const double v : list) {
		s += (s.size() > 1 ? "," : "") + std::to_string(num(v));
	}
	return s + "]";
}
template <class R>
std::string text(const std::complex<R>& z) { return text({ double(z.real()), double(z.imag()) }); }

T k = 0;
T kp = 1;

// Equal to the calls with arguments of one type: integers and the other precision, where they hold the value.
template <class R>
void realPoint(long form, double u, R&& f) {
	if (form == 1 && u == std::floor(u)) {
		f(int(u), k);
	}
	else if (form == 2 && single) {
		f(double(u), k);
	}
	else if (form == 2) {
		f(float(u), k);
	}
	else {
		f(T(u), k);
	}
}
void setModulus(long kind, long i) {
	double a = i / 64.0;
	double b = std::sqrt((1 - a) * (1 + a));
	switch (kind) {
		case 0: break;
		case 1: a = single ? i / 640.0 + 1 / 64.0 : i / 65536.0, b = std::sqrt((1 - a) * (1 + a)); break; // small k
		case 2: b = std::max(single ? 1 / 32.0 : 1 / 256.0, i / 4096.0), a = std::sqrt((1 - b) * (1 + b)); break; // close to one
		case 3: b = i / 64.0, a = std::sqrt((1 - b) * (1 + b)); break;
		default: a = i % 4 < 2 ? 0 : i % 4 == 2 ? 1 : i / 128.0, b = std::sqrt((1 - a) * (1 + a)); break;
	}
	if (b != 0 && b < 1 / 32.0 && single) {
		b = 1 / 32.0, a = std::sqrt((1 - b) * (1 + b));
	}
	k = T(a);
	const double exact = std::sqrt((1 - double(k)) * (1 + double(k)));
	kp = T(exact);
	ctx.log(vp::Ev("Modulus").i("k", num(k)).i("kp", num(exact)));
}
template <class F>
void with(long which, F&& f) {
	switch (which) {
		case 1: return f([](auto x, auto m) { return EllipticArcSN(x, m); }, [](auto x, auto m) { return EllipticSN(x, m); });
		case 2: return f([](auto x, auto m) { return EllipticArcCN(x, m); }, [](auto x, auto m) { return EllipticCN(x, m); });
		default: return f([](auto x, auto m) { return EllipticArcDN(x, m); }, [](auto x, auto m) { return EllipticDN(x, m); });
	}
}
void step(const std::vector<long>& p) {
	const long form = p[5];
	switch (p[0]) {
		case 1: return setModulus(p[1], p[2]);
		case 2:
			if (k != 1) {
				ctx.log(vp::Ev("Integral").b("float", single).i("v", num(EllipticK(form ? -k : k))));
				ctx.count("integrals");
			}
			return;
		case 3: {
			const int e = int(single ? p[4] : 8 * p[4]);
			const auto at = [&](int i) { return std::ldexp(T(p[i]) / T(16), 2 * e); };
			const T v = form == 0 ? CarlsonRF(at(1), at(2), at(3)) : form == 1 ? T(CarlsonRF(at(1), double(at(2)), at(3))) : CarlsonRF(C(at(1)), C(at(2)), C(at(3))).real();
			if (int(p[1] == 0) + int(p[2] == 0) + int(p[3] == 0) >= 2) {
				ctx.log(vp::Ev("Diverges").i("x", p[1]).i("y", p[2]).i("z", p[3]).b("infinite", std::isinf(v)));
				ctx.count("divergent");
			}
			else {
				ctx.log(vp::Ev("Carlson").b("float", single).i("x", num(p[1] / 16.0)).i("y", num(p[2] / 16.0)).i("z", num(p[3] / 16.0)).i("v", num(std::ldexp(double(v), e))));
				ctx.count("carlson");
			}
			return;
		}
		case 4: {
			const long j = k == 1 ? 0 : p[2];
			const T u = T(p[1]) / T(64);
			const auto log = [&](auto x, auto m) {
				const auto [sn, cn, dn] = EllipticSNCNDN(x, m);
				const double a = EllipticAM(x, m) - j * pi_v<double>;
				if (!(EllipticSN(x, m) == sn && EllipticCN(x, m) == cn && EllipticDN(x, m) == dn)) {
					ctx.log(vp::Ev("Different"));
				}
				ctx.log(vp::Ev("Evaluate").b("float", single).i("u", num(u)).i("j", j).raw("v", text({ double(sn), double(cn), double(dn) })).i("a", num(a)));
			};
			j == 0 ? realPoint(form, u, log) : log(u + T(2 * j) * EllipticK(k), k);
			ctx.count(j == 0 ? "plain" : "periodic");
			return;
		}
		case 5: {
			if (k < T(0.05)) {
				return;
			}
			const T u = T(p[1]) / T(64);
			const auto [sn, cn, dn] = EllipticSNCNDN(u * k, (form ? T(-1) : T(1)) / k);
			ctx.log(vp::Ev("Reciprocal").b("float", single).i("u", num(u)).raw("v", text({ double(sn), double(cn), double(dn) })));
			ctx.count("reciprocal");
			return;
		}
		case 6: {
			const C z{ T(p[1]) / T(64), T(p[2]) / T(64) };
			const auto log = [&](auto z, auto m) {
				const auto [sn, cn, dn] = EllipticSNCNDN(z, m);
				ctx.log(vp::Ev("Complex").b("float", single).i("x", num(z.real())).i("y", num(z.imag())).raw("v", "[" + text(sn) + "," + text(cn) + "," + text(dn) + "]"));
			};
			if (form == 2 && k >= T(0.05)) {
				const auto [sn, cn, dn] = EllipticSNCNDN(z * k, T(1) / k);
				ctx.log(vp::Ev("ReciprocalComplex").b("float", single).i("x", num(z.real())).i("y", num(z.imag())).raw("v", "[" + text(sn) + "," + text(cn) + "," + text(dn) + "]"));
				ctx.count("reciprocal-complex");
				return;
			}
			form == 1 && single ? log(std::complex<double>(z), k) : form == 1 ? log(std::complex<float>(z), k) : log(z, k);
			ctx.count("complex");
			return;
		}
		case 7: {
			const T lowest = kp * T(1.001);
			const T v = p[1] == 3 ? lowest + (T(1) - lowest) * T(p[2] + 64) / T(128) : T(p[2]) / T(64);
			if (k == 1 || (p[1] == 3 && k < T(0.05)) || (p[1] == 2 && v < 0 && kp < T(0.13))) { // The last has values beyond the format.
				return;
			}
			with(p[1], [&](auto arc, auto) {
				const double u = form && v == std::floor(v) ? double(arc(int(v), k)) : form && single ? double(arc(double(v), k)) : double(arc(v, k));
				ctx.log(vp::Ev("Invert").b("float", single).i("which", p[1]).i("v", num(v)).i("u", num(u)));
			});
			ctx.count("inverse");
			return;
		}
		default: {
			if (k < T(0.05) || k == 1) {
				return;
			}
			if ((p[1] == 2 && p[2] <= 0 && kp < T(0.13)) || (p[1] == 3 && p[2] <= 0 && k < T(0.45))) {
				return;
			}
			const C z{ T(p[2]) / T(64), T(p[3] == 0 ? 1 : p[3]) / T(64) };
			with(p[1], [&](auto arc, auto) {
				const auto u = form && single ? std::complex<double>(arc(std::complex<double>(z), k)) : std::complex<double>(arc(z, k));
				ctx.log(vp::Ev("InvertComplex").b("float", single).i("which", p[1]).raw("v", text(z)).raw("u", text(u)));
			});
			ctx.count("inverse-complex");
			return;
		}
	}
}

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	long idx = 0;
	for (const auto& line : ctx.script) {
		if (!ctx.mine(idx++)) {
			continue;
		}
		ctx.log(vp::Ev("Begin"));
		++ctx.sessions;
		k = 0, kp = 1;
		std::stringstream all(line);
		for (std::string part; std::getline(all, part, ';');) {
			std::stringstream one(part);
			std::vector<long> s;
			for (long n; one >> n;) {
				s.push_back(n);
			}
			step(s);
		}
	}
	return vp::finish(ctx);
}
