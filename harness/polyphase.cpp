// Polyphase decompositions.  VP_T: element type.
#include "vp.hpp"

#include <cassert>
#include <memory>
#include <stdexcept>

#include <dspbb/Filtering/Polyphase.hpp>

using namespace dspbb;
using cf = std::complex<float>;
using cd = std::complex<double>;
using T = VP_T;
constexpr auto DOM = eSignalDomain::TIME;
using Sig = BasicSignal<T, DOM>;
using P = PolyphaseFilter<T, DOM>;
constexpr bool CPLX = vp::is_cplx_v<T>;
using Re = remove_complex_t<T>;

vp::Ctx ctx;

template <class X>
X value_of(long re, long im) {
	if constexpr (vp::is_cplx_v<X>) {
		return X(Re(re), Re(im));
	}
	else {
		return X(re);
	}
}
T value(long re, long im) { return value_of<T>(re, im); }

// Taps in units of 1 / 64
template <class V>
std::string units(const V& v) {
	std::vector<T> s;
	for (const auto& x : v) {
		s.push_back(x * T(64));
	}
	return vp::Ev::sigstr(s, 2e-3);
}

template <class View>
std::string seen(View& p, const T* base) {
	std::string phases = "[", at = "[";
	const auto& c = p;
	for (size_t i = 0; i < c.num_phases(); ++i) {
		const auto ph = c[i];
		phases += (i ? "," : "") + units(ph);
		at += (i ? "," : "") + std::to_string(ph.empty() ? 0 : long(ph.data() - base));
	}
	return "{\"n\":" + std::to_string(c.num_phases()) + ",\"size\":" + std::to_string(c.size_original()) + ",\"per\":"
		   + std::to_string(c.size_per_phase()) + ",\"phases\":" + phases + "],\"at\":" + at + "]}";
}

struct World {
	std::unique_ptr<P> obj[4];
	bool known[4] = {};

	std::string post() {
		std::string s = "[";
		for (int k = 1; k <= 3; ++k) {
			s += k > 1 ? "," : "";
			if (known[k]) {
				const auto& c = *obj[k];
				s += seen(*obj[k], c.Buffer().data());
			}
			else {
				s += "{\"n\":0}";
			}
		}
		return s + "]";
	}
};

vp::Ev ev(const char* op) {
	vp::Ev e(op);
	return e;
}

// Imaginary parts that sum to zero in each phase
Sig taps(const std::vector<long>& h, size_t n, vp::Rng& g) {
	std::vector<long> im(h.size());
	for (size_t t = h.size(); t-- > 0;) {
		im[t] = g.in(-3, 3);
		if (t < n) {
			im[t] = 0;
			for (size_t u = t + n; u < h.size(); u += n) {
				im[t] -= im[u];
			}
		}
	}
	Sig s(h.size());
	for (size_t t = 0; t < h.size(); ++t) {
		s[t] = value(h[t], im[t]);
	}
	return s;
}

void into(const Sig& h, size_t n, vp::Rng& g) {
	const size_t before = size_t(g.in(0, 4)), after = size_t(g.in(0, 4));
	Sig mem(before + h.size() + after);
	for (auto& x : mem) {
		x = vp::num<T>(g, 100, 200);
	}
	const Sig copy = mem;
	const auto rest = [&](const Sig& s) {
		std::vector<T> r(s.begin(), s.begin() + ptrdiff_t(before));
		r.insert(r.end(), s.end() - ptrdiff_t(after), s.end());
		return vp::Ev::sigstr(r);
	};
	auto view = PolyphaseDecompose(AsView(mem).subsignal(before, h.size()), h, n);
	ctx.log(vp::Ev("Into").i("n", long(n)).sig("h", h).raw("post", seen(view, mem.data() + before)).raw("before", rest(copy)).raw("after", rest(mem)).sig("kept", h));
}

void replay(const std::string& line, vp::Rng& g) {
	World w;
	ctx.log(vp::Ev("Begin"));
	++ctx.sessions;
	std::istringstream in(line);
	std::string part;
	while (std::getline(in, part, ';')) {
		std::istringstream ps(part);
		std::vector<long> a;
		for (long x; ps >> x;) {
			a.push_back(x);
		}
		const auto put = [&](long k, auto&& p) {
			w.obj[k] = std::make_unique<P>(std::forward<decltype(p)>(p));
			w.known[k] = true;
		};
		// Assigned to the existing object or replacing it
		const auto give = [&](long k, auto&& p) {
			if (w.obj[k] && g.coin()) {
				*w.obj[k] = std::forward<decltype(p)>(p);
				w.known[k] = true;
			}
			else {
				put(k, std::forward<decltype(p)>(p));
			}
		};
		switch (a[0]) {
			case 0:
				give(a[1], P{});
				ctx.log(vp::Ev("Default").i("k", a[1]).b("real", !CPLX).raw("post", w.post()));
				break;
			case 1:
				give(a[1], P(size_t(a[2]), size_t(a[3])));
				ctx.log(vp::Ev("Construct").i("k", a[1]).i("l", a[2]).i("n", a[3]).b("real", !CPLX).raw("post", w.post()));
				break;
			case 2: {
				auto h = taps(std::vector<long>(a.begin() + 4, a.end()), size_t(a[2]), g);
				if (g.coin()) {
					give(a[1], PolyphaseDecompose(h, size_t(a[2])));
				}
				else {
					give(a[1], PolyphaseDecompose(AsView(h), size_t(a[2])));
				}
				ctx.log(vp::Ev("Decompose").i("k", a[1]).i("n", a[2]).sig("h", h).raw("post", w.post()));
				break;
			}
			case 3: {
				P& src = *w.obj[a[1]];
				if (a[3]) {
					*w.obj[a[2]] = src;
				}
				else {
					put(a[2], src);
				}
				ctx.log(vp::Ev("Copy").i("a", a[1]).i("b", a[2]).raw("post", w.post()));
				break;
			}
			case 4: {
				P& src = *w.obj[a[1]];
				if (a[3]) {
					*w.obj[a[2]] = std::move(src);
				}
				else {
					put(a[2], std::move(src));
				}
				w.known[a[1]] = false;
				if (g.coin()) {
					w.obj[a[1]].reset();
				}
				ctx.log(vp::Ev("Move").i("a", a[1]).i("b", a[2]).raw("post", w.post()));
				break;
			}
			case 5:
				PolyphaseNormalize(*w.obj[a[1]]);
				ctx.log(vp::Ev("Normalize").i("k", a[1]).raw("post", w.post()));
				break;
			case 6:
				give(a[2], PolyphaseNormalized(*w.obj[a[1]]));
				w.known[a[2]] = true;
				ctx.log(vp::Ev("NormalizeCopy").i("a", a[1]).i("b", a[2]).raw("post", w.post()));
				break;
			case 7: {
				auto& x = (*w.obj[a[1]])[size_t(a[2])][size_t(a[3])];
				x = value(a[4], 0) + (x - T(std::real(x)));
				ctx.log(vp::Ev("Write").i("k", a[1]).i("p", a[2]).i("j", a[3]).i("v", 64 * a[4]).raw("post", w.post()));
				break;
			}
			default:
				for (auto& x : w.obj[a[1]]->Buffer()) {
					x = value(a[2], 0);
				}
				ctx.log(vp::Ev("Fill").i("k", a[1]).i("v", 64 * a[2]).raw("post", w.post()));
		}
	}
}

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	long idx = 0;
	for (const auto& line : ctx.script) {
		if (ctx.mine(idx++)) {
			auto g = ctx.rng(uint64_t(idx));
			replay(line, g);
		}
	}
	const int len = ctx.scale(24, 70), num = ctx.scale(10, 40);
	for (int l = 1; l <= len; ++l) {
		for (int n = 1; n <= num; ++n) {
			if (!ctx.mine(idx++)) {
				continue;
			}
			auto g = ctx.rng(uint64_t(l * 1000 + n) + 700000);
			std::vector<long> h;
			for (int t = 0; t < l; ++t) {
				h.push_back(g.in(-9, 9));
			}
			const auto s = taps(h, size_t(n), g);
			World w;
			ctx.log(vp::Ev("Begin"));
			++ctx.sessions;
			w.obj[1] = std::make_unique<P>(PolyphaseDecompose(s, size_t(n)));
			w.known[1] = true;
			ctx.log(vp::Ev("Decompose").i("k", 1).i("n", n).sig("h", s).raw("post", w.post()));
			into(s, size_t(n), g);
		}
	}
	return vp::finish(ctx);
}
