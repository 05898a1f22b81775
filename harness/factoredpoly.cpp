// Factored polynomials.  VP_T: real type.
#include "vp.hpp"

#include <array>
#include <dspbb/Math/Polynomials.hpp>
#include <dspbb/Math/RootTransforms.hpp>
#include <memory>
#include <optional>

using namespace dspbb;
using T = VP_T;
using C = std::complex<T>;
using F = FactoredPolynomial<T>;

vp::Ctx ctx;

struct World {
	std::unique_ptr<F> obj[4]; // 1..3

	static std::string one(const F* p) {
		if (!p) {
			return R"({"real":[-1],"re":[],"im":[0]})";
		}
		const F& f = *p;
		std::string real = "[", re = "[", im = "[";
		for (const auto& r : f.real_roots()) {
			real += (real.size() > 1 ? "," : "") + std::to_string(vp::exact(r));
		}
		for (const auto& r : f.complex_pairs()) {
			re += (re.size() > 1 ? "," : "") + std::to_string(vp::exact(r.real()));
			im += (im.size() > 1 ? "," : "") + std::to_string(vp::exact(r.imag()));
		}
		return "{\"real\":" + real + "],\"re\":" + re + "],\"im\":" + im + "]}";
	}
	std::string post() const {
		return "[" + one(obj[1].get()) + "," + one(obj[2].get()) + "," + one(obj[3].get()) + "]";
	}
};

std::string cstr(long re, long im) { return "[" + std::to_string(re) + "," + std::to_string(im) + "]"; }
std::string cval(C v) {
	// Values are integers; rounding errors of products are far below one half.
	const double tol = std::max(1e-3, 1e-6 * std::abs(v)) < 0.4 ? std::max(1e-3, 1e-6 * std::abs(v)) : 0.4;
	return cstr(vp::scaled(v.real(), 1.0, tol), vp::scaled(v.imag(), 1.0, tol));
}

template <size_t N, class Func>
void map(vp::Ev e, const F& f, const std::string& m, size_t num, const std::array<C, N>& pad, Func func) {
	std::string pads = "[";
	for (const auto& r : pad) {
		pads += (pads.size() > 1 ? "," : "") + cstr(long(r.real()), long(r.imag()));
	}
	std::string o = "ok";
	F r;
	try {
		r = num == 0 ? TransformRoots(f, func, 0, pad) : TransformRoots(f, func, num, pad);
	}
	catch (std::invalid_argument&) {
		o = "throw";
	}
	ctx.log(e.raw("m", m).i("num", num == 0 ? f.num_roots() : num).raw("pad", pads + "]").s("outcome", o).raw("post", World::one(&r)));
}

void maps(vp::Rng& g, const F& f, int k) {
	const T a = T(g.in(-4, 4));
	const T b = T(g.in(-4, 4));
	const size_t num = g.coin(1, 3) ? 0 : f.num_roots() + size_t(g.in(0, 3));
	const C p(T(g.in(-3, 3)), T(g.coin(2, 3) ? 0 : g.in(-2, 2)));
	const std::array<C, 1> one = { p };
	const std::array<C, 2> two = g.coin(1, 3) ? std::array<C, 2>{ C(T(g.in(-3, 3)), T(0)), C(T(g.in(-3, 3)), T(0)) } : std::array<C, 2>{ p, std::conj(p) };
	const auto head = [&](const char* kind, T x, T y) { return "[\"" + std::string(kind) + "\"," + std::to_string(long(x)) + "," + std::to_string(long(y)) + "]"; };
	const auto e = [&] { return vp::Ev("Map").i("k", k); };
	switch (g.in(0, 4)) {
		case 0: map(e(), f, head("shift", a, T(0)), num, one, [a](const auto& r) { return std::array{ C(r + a) }; }); break;
		case 1: map(e(), f, head("scale", a, b), num, one, [a, b](const auto& r) { return std::array{ C(a * r + b) }; }); break;
		case 2: map(e(), f, head("split", a, b), num, two, [a, b](const auto& r) { return std::array{ C(r + a), C(r + b) }; }); break;
		case 3: map(e(), f, head("twin", a, T(0)), num, two, [a](const auto& r) { return std::array{ C(r) + C(T(0), a), C(r) - C(T(0), a) }; }); break;
		default:
			if (f.num_real_roots() > 0) {
				// A real root without a conjugate image
				std::string o = "ok";
				try {
					if (g.coin()) {
						TransformRoots<T, 1>(f, [](const auto& r) { return std::array{ C(r) + C(T(0), T(1)) }; });
					}
					else {
						TransformRoots<T, 2>(f, [](const auto& r) { return std::array{ C(r) + C(T(0), T(1)), C(r) }; });
					}
				}
				catch (std::invalid_argument&) {
					o = "throw";
				}
				ctx.log(vp::Ev("RefuseMap").i("k", k).s("outcome", o));
			}
			break;
	}
	double bound = 1;
	for (const auto& r : f.real_roots()) {
		bound *= std::abs(r) + std::abs(a);
	}
	for (const auto& r : f.complex_pairs()) {
		bound *= (std::abs(r) + std::abs(a)) * (std::abs(r) + std::abs(a));
	}
	if (bound < (std::is_same_v<T, float> ? 4e6 : 1e8)) {
		const T v = TransformGain(f, [a](const T& r) { return r + a; }, [a](const C& r) { return (r.real() + a) * (r.real() + a) + r.imag() * r.imag(); });
		ctx.log(vp::Ev("Gain").i("k", k).i("a", long(a)).i("post", vp::exact(v)));
	}
}

void query(vp::Rng& g, World& w, int k) {
	if (!w.obj[k]) {
		return;
	}
	const F& f = *w.obj[k];
	maps(g, f, k);
	ctx.log(vp::Ev("Counts").i("k", k).a("post", std::array<size_t, 5>{ f.num_roots(), f.num_real_roots(), f.num_complex_roots(), f.num_complex_pairs(), f.order() }));
	// Bound of the magnitudes, so that everything is exactly representable.
	double bound = 1;
	for (const auto& r : f.real_roots()) {
		bound *= 1 + std::abs(r);
	}
	for (const auto& r : f.complex_pairs()) {
		bound *= (1 + std::abs(r)) * (1 + std::abs(r));
	}
	const double most = std::is_same_v<T, float> ? 4e6 : 1e8;
	if (bound > most) {
		return;
	}
	const auto e = ExpandPolynomial(f);
	ctx.log(vp::Ev("Expand").i("k", k).q("post", e.coefficients(), 1.0, 1e-3));
	double bx = 1;
	const C x(T(g.in(-3, 3)), T(g.coin() ? 0 : g.in(-2, 2)));
	for (const auto& r : f.real_roots()) {
		bx *= std::abs(x) + std::abs(r);
	}
	for (const auto& r : f.complex_pairs()) {
		bx *= (std::abs(x) + std::abs(r)) * (std::abs(x) + std::abs(r));
	}
	if (bx > most / 10) {
		return;
	}
	const bool real = x.imag() == 0 && g.coin();
	const C a = real ? C(f(x.real())) : f(x);
	const C b = real ? C(e(x.real())) : e(x);
	ctx.log(vp::Ev("Eval").i("k", k).raw("x", cval(x)).raw("factored", cval(a)).raw("expanded", cval(b)));
}

void session(vp::Rng& g, const std::vector<std::vector<long>>& plan) {
	World w;
	ctx.log(vp::Ev("Begin"));
	for (const auto& p : plan) {
		const int op = p[0];
		const int k = p[1];
		const auto done = [&](vp::Ev e) { ctx.log(e.raw("post", w.post())); };
		if (op == 0) {
			w.obj[k] = std::make_unique<F>();
			done(vp::Ev("Default").i("k", k));
		}
		else if (op == 1 || op == 2) {
			std::vector<C> roots;
			std::string s = "[";
			for (long i = 0; i < p[2]; ++i) {
				roots.emplace_back(T(p[3 + 2 * i]), T(p[4 + 2 * i]));
				s += (i ? "," : "") + cstr(p[3 + 2 * i], p[4 + 2 * i]);
			}
			s += "]";
			try {
				auto f = std::make_unique<F>(roots.begin(), roots.end());
				w.obj[k] = std::move(f);
				done(vp::Ev("FromRoots").i("k", k).raw("roots", s));
			}
			catch (std::exception&) {
				done(vp::Ev("RefuseRoots").i("k", k).raw("roots", s).s("outcome", "throw"));
			}
		}
		else if (op == 3) {
			if (p[4] == 0 && p[5] == 0 && g.coin()) {
				w.obj[k]->resize(p[2], p[3]);
				done(vp::Ev("Resize").i("k", k).i("nr", p[2]).i("nc", p[3]).i("rv", 0).raw("cv", cstr(0, 0)));
			}
			else {
				w.obj[k]->resize(p[2], p[3], T(p[4]), C(T(p[5]), T(p[6])));
				done(vp::Ev("Resize").i("k", k).i("nr", p[2]).i("nc", p[3]).i("rv", p[4]).raw("cv", cstr(p[5], p[6])));
			}
		}
		else if (op == 4) {
			w.obj[k]->regroup(p[2], T(p[3]), C(T(p[4]), T(p[5])));
			done(vp::Ev("Regroup").i("k", k).i("nr", p[2]).i("rv", p[3]).raw("cv", cstr(p[4], p[5])));
		}
		else if (op == 5) {
			std::string o = "ok";
			try {
				w.obj[k]->regroup(p[2]);
			}
			catch (std::exception&) {
				o = "throw";
			}
			done(vp::Ev("RefuseRegroup").i("k", k).i("nr", p[2]).s("outcome", o));
		}
		else if (op == 6) {
			w.obj[k]->real_roots()[p[2]] = T(p[3]);
			done(vp::Ev("SetReal").i("k", k).i("i", p[2]).i("v", p[3]));
		}
		else if (op == 7) {
			w.obj[k]->complex_pairs()[p[2]] = C(T(p[3]), T(p[4]));
			done(vp::Ev("SetPair").i("k", k).i("i", p[2]).raw("v", cstr(p[3], p[4])));
		}
		else if (op == 8) {
			if (p[3] && w.obj[p[2]]) {
				F& r = (*w.obj[p[2]] = *w.obj[k]);
				if (&r != w.obj[p[2]].get()) {
					ctx.log(vp::Ev("BadReference"));
				}
			}
			else if (p[2] != k) {
				w.obj[p[2]] = std::make_unique<F>(*w.obj[k]);
			}
			done(vp::Ev("Copy").i("k", k).i("to", p[2]));
		}
		else if (op == 9) {
			if (p[3] && w.obj[p[2]]) {
				*w.obj[p[2]] = std::move(*w.obj[k]);
			}
			else {
				w.obj[p[2]] = std::make_unique<F>(std::move(*w.obj[k]));
			}
			const std::string left = World::one(w.obj[k].get());
			// What was moved from may be reused.
			if (g.coin()) {
				w.obj[k].reset();
				done(vp::Ev("Move").i("k", k).i("to", p[2]).raw("left", left));
			}
			else {
				auto keep = std::move(w.obj[k]);
				done(vp::Ev("Move").i("k", k).i("to", p[2]).raw("left", left));
				*keep = F{};
				keep->resize(1, 1, T(4), C(T(1), T(2)));
				*keep = F{};
				w.obj[k] = std::move(keep);
				done(vp::Ev("Default").i("k", k));
				w.obj[k].reset();
				// back to unknown for the plan
				w.obj[k] = std::make_unique<F>();
				done(vp::Ev("Default").i("k", k));
			}
		}
		if (g.coin(1, 3)) {
			query(g, w, g.in(1, 3));
		}
	}
	for (int k = 1; k <= 3; ++k) {
		query(g, w, k);
	}
	++ctx.sessions;
}

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	long idx = 0;
	for (const auto& line : ctx.script) {
		if (!ctx.mine(idx++)) {
			continue;
		}
		std::vector<std::vector<long>> plan;
		std::istringstream in(line);
		std::string step;
		while (std::getline(in, step, ';')) {
			std::istringstream s(step);
			std::vector<long> v;
			long x;
			while (s >> x) {
				v.push_back(x);
			}
			if (v.size() >= 2) {
				plan.push_back(v);
			}
		}
		auto g = ctx.rng(idx);
		session(g, plan);
	}
	// Every change of the two counts
	const int most = ctx.scale(4, 6);
	for (int r = 0; r <= most; ++r) {
		for (int c = 0; c <= most; ++c) {
			if (!ctx.mine(idx++)) {
				continue;
			}
			auto g = ctx.rng(90000 + idx);
			for (int r2 = 0; r2 <= most; ++r2) {
				for (int c2 = 0; c2 <= most; ++c2) {
					std::vector<std::vector<long>> plan{ { 0, 1 }, { 3, 1, r, c, 0, 0, 0 } };
					for (int i = 0; i < r; ++i) {
						plan.push_back({ 6, 1, i, i - 2 });
					}
					for (int i = 0; i < c; ++i) {
						plan.push_back({ 7, 1, i, i - 1, i + 1 });
					}
					plan.push_back({ 8, 1, 2, 0 });
					plan.push_back({ 3, 1, r2, c2, g.in(-2, 2), g.in(-2, 2), 1 });
					if ((r + 2 * c - r2) % 2 == 0 && r2 <= r + 2 * c) {
						plan.push_back({ 4, 2, r2, g.in(-2, 2), g.in(-2, 2), 1 });
					}
					else {
						plan.push_back({ 5, 2, r2 });
					}
					session(g, plan);
				}
			}
		}
	}
	// Polynomials by coefficients
	ctx.log(vp::Ev("Begin"));
	for (int c = 0; c < ctx.scale(60, 600); ++c) {
		if (!ctx.mine(idx++)) {
			continue;
		}
		auto g = ctx.rng(170000 + c);
		std::vector<T> co(g.in(0, 8));
		for (auto& v : co) {
			v = T(g.in(-9, 9));
		}
		const Polynomial<T> p(co.begin(), co.end());
		const C x(T(g.in(-3, 3)), T(g.coin() ? 0 : g.in(-2, 2)));
		const bool real = x.imag() == 0 && g.coin();
		ctx.log(vp::Ev("Poly").x("c", p.coefficients()).raw("x", cval(x)).i("order", p.order()).i("size", p.size()).raw("post", cval(real ? C(p(x.real())) : p(x))));
	}
	return vp::finish(ctx);
}
