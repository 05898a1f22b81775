// Recursive filter realisations.  VP_T: sample type, VP_K: coefficient type.
#include "vp.hpp"

#include <algorithm>
#include <dspbb/Filtering/IIR/Filter.hpp>
#include <dspbb/LTISystems/Systems.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>

using namespace dspbb;
using cd = std::complex<double>;
using cf = std::complex<float>;
using T = VP_T;
using K = VP_K;
template <class X>
using Sig = BasicSignal<X, eSignalDomain::TIME>;

vp::Ctx ctx;
constexpr bool SINGLE = std::is_same_v<K, float> || std::is_same_v<T, float> || std::is_same_v<T, cf>;
constexpr double TOL = SINGLE ? 0.2 : 1e-2;
constexpr double LIMIT = SINGLE ? 1e5 : 1e7;

struct Plan {
	int op, id, arg;
};

struct World {
	DiscreteTransferFunction<K> tf;
	CascadedBiquad<K> cascade;
	bool hasCascade = false;
	size_t order = 0;
	size_t room = 0; // How many samples can be fed without leaving the range of exact numbers.
	size_t fed[6] = {};
	DirectFormI<T> df1[2];
	DirectFormII<T> df2[2];
	CascadedForm<T> cas[2];

	template <class F>
	auto visit(int id, F&& f) {
		switch (id / 2) {
			case 0: return f(df1[id % 2], tf);
			case 1: return f(df2[id % 2], tf);
			default: return f(cas[id % 2], cascade);
		}
	}
	static const char* kind(int id) { return id < 2 ? "df1" : id < 4 ? "df2" : "cas"; }
};

void logSystem(World& w) {
	ctx.log(vp::Ev("Begin"));
	ctx.log(vp::Ev("System").q("num", w.tf.numerator.coefficients(), 1.0, 1e-6).q("den", w.tf.denominator.coefficients(), 1.0, 1e-6).i("order", w.tf.order()));
	w.order = w.tf.order();
	if (w.hasCascade) {
		std::string s = "[";
		for (size_t i = 0; i < w.cascade.sections.size(); ++i) {
			const auto& c = w.cascade.sections[i];
			s += i ? ",[" : "[";
			for (const auto v : { c.numerator[0], c.numerator[1], c.numerator[2], c.denominator[0] }) {
				s += std::to_string(vp::scaled(v, 1.0, 1e-4)) + ",";
			}
			s += std::to_string(vp::scaled(c.denominator[1], 1.0, 1e-4)) + "]";
		}
		ctx.log(vp::Ev("Sections").raw("secs", s + "]"));
	}
}

template <class C>
C product(const C& p, const C& q) {
	C r(p.size() + q.size() - 1, 0);
	for (size_t i = 0; i < p.size(); ++i) {
		for (size_t j = 0; j < q.size(); ++j) {
			r[i + j] += p[i] * q[j];
		}
	}
	return r;
}

// Number of samples of magnitude 3 after which no signal inside of any realisation can exceed the limit.
size_t room(const std::vector<double>& b, const std::vector<double>& a) {
	std::vector<double> w;
	double sb = 1;
	for (auto v : b) {
		sb += std::abs(v / a.back());
	}
	double total = 0;
	for (size_t n = 0; n < 200; ++n) {
		double v = n == 0;
		for (size_t k = 1; k < a.size() && k <= n; ++k) {
			v -= a[a.size() - 1 - k] / a.back() * w[n - k];
		}
		w.push_back(v);
		total += std::abs(v);
		if (total * sb * 3 > LIMIT) {
			return n;
		}
	}
	return 200;
}

World makeSystem(vp::Rng& g, int style) {
	World w;
	if (style == 0) {
		// Arbitrary coefficients with a common factor, no cascade
		const std::vector<long> factors = { 1, 1, -1, 2, 4, -2 };
		const long c = g.pick(factors);
		const size_t nb = g.in(1, 6);
		const size_t na = g.in(1, 6);
		BasicSignal<K, eSignalDomain::DOMAINLESS> b(nb), a(na);
		for (auto& v : b) {
			v = K(c * g.in(-3, 3));
		}
		for (auto& v : a) {
			v = K(c * g.in(-1, 1));
		}
		a[na - 1] = K(c);
		w.tf.numerator = Polynomial<K>(b.begin(), b.end());
		w.tf.denominator = Polynomial<K>(a.begin(), a.end());
	}
	else if (style == 1) {
		// From zeros, poles and gain
		DiscreteZeroPoleGain<K> zpk;
		const size_t zr = g.in(0, 4), zc = g.in(0, 2), pr = g.in(0, 4), pc = g.in(0, 2);
		zpk.gain = K(g.in(1, 3));
		zpk.zeros.resize(zr, zc);
		zpk.poles.resize(pr, pc);
		for (auto& r : zpk.zeros.real_roots()) {
			r = K(g.in(-2, 2));
		}
		for (auto& r : zpk.zeros.complex_pairs()) {
			r = { K(g.in(-1, 1)), K(g.in(1, 2)) };
		}
		for (auto& r : zpk.poles.real_roots()) {
			r = K(g.in(-1, 1));
		}
		for (auto& r : zpk.poles.complex_pairs()) {
			r = { K(0), K(1) };
		}
		w.tf = DiscreteTransferFunction<K>{ zpk };
		w.cascade = CascadedBiquad<K>{ zpk };
		w.hasCascade = true;
	}
	else {
		// From sections
		const size_t n = g.in(1, 3);
		std::vector<K> b{ 1 }, a{ 1 };
		for (size_t i = 0; i < n; ++i) {
			typename CascadedBiquad<K>::Biquad s;
			s.numerator = { K(g.in(-2, 2)), K(g.in(-2, 2)), K(g.in(1, 2)) };
			s.denominator = { K(g.in(-1, 1)), K(g.in(-1, 1)) };
			s.numOrder = 2;
			s.denOrder = 2;
			w.cascade.sections.push_back(s);
			b = product(b, { s.numerator[0], s.numerator[1], s.numerator[2] });
			a = product(a, { s.denominator[0], s.denominator[1], K(1) });
		}
		w.tf.numerator = Polynomial<K>(b.begin(), b.end());
		w.tf.denominator = Polynomial<K>(a.begin(), a.end());
		w.hasCascade = true;
	}
	return w;
}

void session(vp::Rng& g, int style, const std::vector<Plan>& plan) {
	World w = makeSystem(g, style);
	logSystem(w);
	w.room = room({ w.tf.numerator.coefficients().begin(), w.tf.numerator.coefficients().end() }, { w.tf.denominator.coefficients().begin(), w.tf.denominator.coefficients().end() });
	std::vector<bool> alive(6, false);
	const auto create = [&](int id, size_t extra) {
		w.visit(id, [&](auto& r, auto&) {
			using R = std::decay_t<decltype(r)>;
			if (g.coin()) {
				r = R{ w.order + extra };
			}
			else {
				r = R{};
				r.order(w.order + extra);
			}
			ctx.log(vp::Ev("New").i("id", id).s("kind", World::kind(id)).i("order", w.order + extra).i("reported", r.order()));
		});
		alive[id] = true;
		w.fed[id] = 0;
	};
	for (const auto& p : plan) {
		if (p.id >= 4 && !w.hasCascade) {
			continue;
		}
		if (!alive[p.id] || p.op == 8) {
			create(p.id, p.op == 8 ? p.arg : g.in(0, 2));
		}
		w.visit(p.id, [&](auto& r, auto& sys) {
			if (p.op >= 1 && p.op <= 4) {
				if (w.fed[p.id] + p.arg > w.room) {
					r.reset();
					w.fed[p.id] = 0;
					ctx.log(vp::Ev("Reset").i("id", p.id).i("reported", r.order()));
				}
				if (size_t(p.arg) > w.room) {
					return;
				}
				w.fed[p.id] += p.arg;
				Sig<T> x(p.arg);
				for (auto& v : x) {
					v = vp::num<T>(g, -3, 3);
				}
				const Sig<T> before = x;
				Sig<T> y(p.arg, T(55));
				const char* form = "block";
				if (p.op == 1) {
					if (g.coin()) {
						Filter(y, x, sys, r);
					}
					else {
						r.feed(x.begin(), x.end(), y.begin(), sys);
					}
				}
				else if (p.op == 2) {
					form = "inplace";
					Filter(x, x, sys, r);
					y = x;
				}
				else if (p.op == 3) {
					for (size_t i = 0; i < x.size(); ++i) {
						y[i] = r.feed(x[i], sys);
					}
				}
				else {
					y = Filter(x, sys, r);
				}
				ctx.log(vp::Ev("Feed").i("id", p.id).s("form", form).sig("x", before).raw("post", "{\"y\":" + vp::Ev::sigstr(y, TOL) + ",\"x\":" + vp::Ev::sigstr(x, TOL) + "}"));
			}
			else if (p.op == 5) {
				r.reset();
				w.fed[p.id] = 0;
				ctx.log(vp::Ev("Reset").i("id", p.id).i("reported", r.order()));
			}
			else if (p.op == 6 && w.fed[p.id] == 0) {
				r.order(w.order + p.arg);
				ctx.log(vp::Ev("Reorder").i("id", p.id).i("order", w.order + p.arg).i("reported", r.order()));
			}
		});
		if (p.op == 7 || p.op == 9) {
			if (!alive[p.arg]) {
				create(p.arg, 0);
			}
			const auto copy = [&](auto& a, auto& b) {
				if (p.op == 7) {
					b = a;
				}
				else {
					b = std::move(a);
				}
			};
			switch (p.id / 2) {
				case 0: copy(w.df1[p.id % 2], w.df1[p.arg % 2]); break;
				case 1: copy(w.df2[p.id % 2], w.df2[p.arg % 2]); break;
				default: copy(w.cas[p.id % 2], w.cas[p.arg % 2]); break;
			}
			ctx.log(vp::Ev("Copy").i("id", p.id).i("to", p.arg));
			w.fed[p.arg] = w.fed[p.id];
			if (p.op == 9) {
				create(p.id, 0);
			}
		}
	}
	++ctx.sessions;
}

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	long idx = 0;
	for (const auto& line : ctx.script) {
		if (!ctx.mine(idx++)) {
			continue;
		}
		std::istringstream in(line);
		std::vector<Plan> plan;
		Plan p;
		while (in >> p.op >> p.id >> p.arg) {
			plan.push_back(p);
		}
		for (int style = 0; style < 3; ++style) {
			auto g = ctx.rng(1000 * idx + style);
			session(g, style, plan);
		}
	}
	// Every realisation on every system with long runs in pieces
	for (int c = 0; c < ctx.scale(120, 1500); ++c) {
		if (!ctx.mine(idx++)) {
			continue;
		}
		auto g = ctx.rng(700000 + c);
		std::vector<Plan> plan;
		for (int i = 0; i < 12; ++i) {
			plan.push_back({ int(g.in(1, 4)), 2 * int(g.in(0, 2)), int(g.in(0, 12)) });
		}
		session(g, c % 3, plan);
	}
	for (int c = 0; c < ctx.scale(4, 20); ++c) {
		if (!ctx.mine(idx++)) {
			continue;
		}
		auto g = ctx.rng(800000 + c);
		World w = makeSystem(g, 2);
		logSystem(w);
		for (int id = 0; id < 6; id += 2) {
			w.visit(id, [&](auto& r, auto& sys) {
				using R = std::decay_t<decltype(r)>;
				const size_t order = id == 4 ? w.order - 2 : w.order - 1;
				r = R{};
				r.order(order);
				if (r.order() >= w.order) {
					return;
				}
				ctx.log(vp::Ev("New").i("id", id).s("kind", World::kind(id)).i("order", order).i("reported", r.order()));
				Sig<T> x(3, T(1));
				const auto o1 = vp::outcome([&] { Filter(x, x, sys, r); });
				ctx.log(vp::Ev("Refuse").i("id", id).s("outcome", o1));
				const auto o2 = vp::outcome([&] { r.feed(T(1), sys); });
				ctx.log(vp::Ev("Refuse").i("id", id).s("outcome", o2));
			});
		}
	}
	return vp::finish(ctx);
}
