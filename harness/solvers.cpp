// Root finders on polynomials, from scripts of the specification.  VP_T: type of the arguments.
#include "vp.hpp"

#include <algorithm>
#include <array>
#include <cmath>
#include <limits>

#include <dspbb/Math/Solvers.hpp>

using namespace dspbb;
using T = VP_T;

vp::Ctx ctx;
constexpr bool single = std::is_same_v<T, float>;

// Exact: <<hi, lo>> of a point; what is beyond the range or not a number is far away.
std::array<long, 2> split(T v) {
	if (!(std::abs(v) < T(64))) {
		return { 1900000000, 0 };
	}
	const double hi = std::floor(std::ldexp(double(v), 24) + 0.5);
	const double lo = std::floor(std::ldexp(std::ldexp(double(v), 24) - hi, 24) + 0.5);
	return { long(hi), long(lo) };
}
std::string point(T v) { return "[" + std::to_string(split(v)[0]) + "," + std::to_string(split(v)[1]) + "]"; }
std::string list(const std::vector<long>& v) {
	std::string s = "[";
	for (const long x : v) {
		s += (s.size() > 1 ? "," : "") + std::to_string(x);
	}
	return s + "]";
}
// 2 ^ -t, zero for t = 0
std::string tolerance(long t) { return t == 0 ? "[0,0]" : point(std::ldexp(T(1), int(-t))); }

std::vector<long> roots = { 0 };
long sgn = 1;
int scale = 0;

T value(T x) {
	T p = T(sgn);
	for (const long r : roots) {
		p *= x - T(r) / T(64);
	}
	return std::ldexp(p, scale);
}
T slope(T x) {
	T sum = 0;
	for (size_t i = 0; i < roots.size(); ++i) {
		T p = T(sgn);
		for (size_t j = 0; j < roots.size(); ++j) {
			p *= j == i ? T(1) : x - T(roots[j]) / T(64);
		}
		sum += p;
	}
	return std::ldexp(sum, scale);
}
void step(const std::vector<long>& p) {
	switch (p[0]) {
		case 1: {
			sgn = p[1];
			scale = int(single ? p[2] : 7 * p[2]);
			roots.assign(p.begin() + 3, p.end());
			std::sort(roots.begin(), roots.end());
			if (std::adjacent_find(roots.begin(), roots.end()) != roots.end() && single) {
				scale = std::max(scale, -20); // it shall not vanish away from its roots
			}
			ctx.log(vp::Ev("Function").raw("roots", list(roots)).i("sign", sgn));
			ctx.count(scale < -40 ? "small" : scale > 40 ? "large" : "plain");
			return;
		}
		case 2: {
			long calls = 0;
			const auto f = [&](T x) {
				if (++calls > 100000) {
					throw std::runtime_error("endless");
				}
				return value(x);
			};
			const T a = T(p[1]) / T(64);
			const T b = T(p[2]) / T(64);
			const T v = p[3] == 0 ? Bisect(f, a, b) : Bisect(f, a, b, std::ldexp(T(1), int(-p[3])));
			ctx.log(vp::Ev("Bisect").b("float", single).i("a", p[1]).i("b", p[2]).raw("tol", tolerance(p[3])).raw("v", "[" + std::to_string(split(v)[0]) + "]").i("low", split(v)[1]));
			ctx.count(a < b ? "bisect" : "bisect-reversed");
			return;
		}
		default: {
			const long x = p[2] > 0 ? roots.back() + p[1] : roots.front() - p[1];
			const T from = T(x) / T(64);
			const T v = p[3] == 0 ? NewtonRaphson(value, slope, from) : NewtonRaphson(value, slope, from, std::ldexp(T(1), int(-p[3])));
			ctx.log(vp::Ev("Newton").b("float", single).i("x", x).raw("tol", tolerance(p[3])).raw("v", "[" + std::to_string(split(v)[0]) + "]").i("low", split(v)[1]));
			ctx.count("newton");
		}
	}
}
int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	long idx = 0;
	for (const auto& line : ctx.script) {
		if (!ctx.mine(idx++)) {
			continue;
		}
		ctx.log(vp::Ev("Begin"));
		++ctx.sessions;
		roots = { 0 };
		sgn = 1;
		scale = 0;
		std::stringstream all(line);
		for (std::string part; std::getline(all, part, ';');) {
			std::stringstream one(part);
			std::vector<long> s;
			for (long n; one >> n;) {
				s.push_back(n);
			}
			step(s);
		}
	}
	return vp::finish(ctx);
}
