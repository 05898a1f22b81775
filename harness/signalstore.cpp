// Signals and views under histories of edits.  VP_T: element type, VP_D: domain.
#include "vp.hpp"

#include <algorithm>
#include <array>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <list>

using namespace dspbb;
using cf = std::complex<float>;
using cd = std::complex<double>;
using T = VP_T;
constexpr auto D = eSignalDomain::VP_D;
using S = BasicSignal<T, D>;
using V = BasicSignalView<T, D>;
using CV = BasicSignalView<const T, D>;

// Another type that converts to T
using Other = std::conditional_t<vp::is_cplx_v<T>, std::complex<float>, std::conditional_t<std::is_same_v<T, int>, short, int>>;

vp::Ctx ctx;

template <class U>
U encode(long v) {
	if constexpr (vp::is_cplx_v<U>) {
		return U(typename U::value_type(v), typename U::value_type(-v));
	}
	else {
		return U(v);
	}
}
T enc(long v) { return encode<T>(v); }
long dec(const T& v) {
	const long x = vp::re(v);
	return v == enc(x) ? x : vp::BAD;
}
template <class It>
std::string list(It first, It last) {
	std::string s = "[";
	for (; first != last; ++first) {
		s += (s.size() > 1 ? "," : "") + std::to_string(dec(*first));
	}
	return s + "]";
}
template <class It>
std::string backwards(It first, It last) {
	std::vector<T> v;
	for (; first != last; ++first) {
		v.push_back(*first);
	}
	return list(v.rbegin(), v.rend());
}
template <class C>
std::string indexed(C& c) {
	std::vector<T> v;
	for (size_t i = 0; i < c.size(); ++i) {
		v.push_back(c[i]);
	}
	return list(v.begin(), v.end());
}

struct View {
	int of = 0;
	bool isConst = false;
	V v;
	CV c;
};

struct World {
	vp::Rng& g;
	S s[4]; // 1..3
	bool known[4] = { true, true, true, true };
	View v[5]; // 1..4

	std::string read(int a) {
		if (!known[a]) {
			return "[-1]";
		}
		S& x = s[a];
		const S& y = s[a];
		if (x.empty() != (x.size() == 0)) {
			return "[-2]";
		}
		switch (g.in(0, 11)) {
			case 0: return list(x.begin(), x.end());
			case 1: return list(y.begin(), y.end());
			case 2: return list(x.cbegin(), x.cend());
			case 3: return backwards(x.rbegin(), x.rend());
			case 4: return backwards(y.rbegin(), y.rend());
			case 5: return backwards(y.crbegin(), y.crend());
			case 6: return indexed(x);
			case 7: return indexed(y);
			case 8: return list(x.data(), x.data() + x.size());
			case 9: return list(y.data(), y.data() + y.size());
			case 10: return list(std::begin(x), std::end(x));
			default: return list(y.data(), y.data() + y.size());
		}
	}
	template <class W>
	std::string readView(W& w) {
		if (w.empty() != (w.size() == 0) || w.size_bytes() != w.size() * sizeof(T) || size_t(w.end() - w.begin()) != w.size()) {
			return "[-2]";
		}
		if (!w.empty() && (std::addressof(w.front()) != w.data() || std::addressof(w.back()) != w.data() + w.size() - 1)) {
			return "[-3]";
		}
		switch (g.in(0, 5)) {
			case 0: return list(w.begin(), w.end());
			case 1: return list(w.cbegin(), w.cend());
			case 2: return backwards(w.rbegin(), w.rend());
			case 3: return backwards(w.crbegin(), w.crend());
			case 4: return indexed(w);
			default: return w.empty() ? "[]" : list(w.data(), w.data() + w.size());
		}
	}
	std::string post() {
		std::string r = "{\"s\":[";
		for (int a = 1; a <= 3; ++a) {
			r += (a > 1 ? "," : "") + read(a);
		}
		std::string n;
		r += "],\"v\":[";
		for (int k = 1; k <= 4; ++k) {
			r += (k > 1 ? "," : "") + (v[k].of == 0 ? std::string("[-1]") : v[k].isConst ? readView(v[k].c) :
																						   readView(v[k].v));
			n += (k > 1 ? "," : "") + std::to_string(v[k].of == 0 ? 0 : v[k].isConst ? v[k].c.size() :
																					   v[k].v.size());
		}
		return r + "],\"n\":[" + n + "]}";
	}
	void changed(int a) {
		for (auto& x : v) {
			if (x.of == a) {
				x.of = 0;
			}
		}
	}
};

void session(vp::Rng& g, const std::vector<std::vector<long>>& plan) {
	World w{ g };
	ctx.log(vp::Ev("Begin"));
	for (const auto& p : plan) {
		const long how = p.back();
		const auto done = [&](vp::Ev e) { ctx.log(e.raw("post", w.post())); };
		const auto values = [&](size_t from) {
			std::vector<T> t;
			for (size_t i = from; i + 1 < p.size(); ++i) {
				t.push_back(enc(p[i]));
			}
			return t;
		};
		S* s = w.s;
		const int a = p[1];
		switch (p[0]) {
			case 0: {
				const auto t = values(3);
				w.changed(a);
				w.known[a] = true;
				switch (how) {
					case 0: s[a] = S(t.begin(), t.end()); break;
					case 1: s[a] = S(t.size(), t.data()); break;
					case 2: {
						std::list<T> l(t.begin(), t.end());
						s[a] = S(l.begin(), l.end());
						break;
					}
					case 3: {
						// Of another element type
						// Both ways of conversion
						BasicSignal<Other, D> o;
						for (size_t i = 3; i + 1 < p.size(); ++i) {
							o.push_back(encode<Other>(p[i]));
						}
						if (p.size() % 2) {
							s[a] = o;
						}
						else {
							s[a] = S(o);
						}
						break;
					}
					case 4: {
						s[a] = S{};
						for (auto& x : t) {
							s[a].push_back(x);
						}
						break;
					}
					case 5: {
						if (t.size() == 3) {
							s[a] = S{ t[0], t[1], t[2] };
						}
						else if (t.empty()) {
							s[a] = S{};
						}
						else {
							s[a] = { t[0] };
							s[a].insert(s[a].end(), t.begin() + 1, t.end());
						}
						break;
					}
					default: {
						s[a] = S(t.size());
						std::copy(t.begin(), t.end(), s[a].begin());
					}
				}
				done(vp::Ev("Make").i("a", a).raw("c", list(t.begin(), t.end())));
				break;
			}
			case 1:
				w.changed(a);
				w.known[a] = true;
				s[a] = S(size_t(p[2]), enc(p[3]));
				done(vp::Ev("Fill").i("a", a).i("n", p[2]).i("x", p[3]));
				break;
			case 2: {
				const int b = p[2];
				w.changed(b);
				w.known[b] = true;
				if (how % 2) {
					S& r = (s[b] = s[a]);
					if (&r != &s[b]) {
						ctx.log(vp::Ev("BadReference"));
					}
				}
				else {
					S c(s[a]);
					std::swap(s[b], c);
				}
				done(vp::Ev("Copy").i("a", a).i("b", b));
				break;
			}
			case 3: {
				const int b = p[2];
				w.changed(a);
				w.changed(b);
				if (how % 2) {
					s[b] = std::move(s[a]);
				}
				else {
					S c(std::move(s[a]));
					s[b] = std::move(c);
				}
				w.known[a] = false;
				w.known[b] = true;
				done(vp::Ev("Move").i("a", a).i("b", b));
				break;
			}
			case 4: {
				const int b = p[2];
				w.changed(a);
				w.changed(b);
				if (a != b) {
					std::swap(s[a], s[b]);
				}
				done(vp::Ev("Swap").i("a", a).i("b", b));
				break;
			}
			case 5:
				w.changed(a);
				s[a].resize(p[2], enc(p[3]));
				done(vp::Ev("Resize").i("a", a).i("n", p[2]).i("x", p[3]));
				break;
			case 6:
				w.changed(a);
				s[a].resize(p[2]);
				done(vp::Ev("Resize").i("a", a).i("n", p[2]).i("x", 0));
				break;
			case 7:
				w.changed(a);
				s[a].reserve(p[2]);
				done(vp::Ev("Reserve").i("a", a).i("n", p[2]).i("capacity", s[a].capacity()));
				break;
			case 8:
				w.changed(a);
				s[a].clear();
				w.known[a] = true;
				done(vp::Ev("Clear").i("a", a));
				break;
			case 9:
				w.changed(a);
				s[a].append(s[p[2]]);
				done(vp::Ev("Append").i("a", a).i("b", p[2]));
				break;
			case 10:
				w.changed(a);
				s[a].prepend(s[p[2]]);
				done(vp::Ev("Prepend").i("a", a).i("b", p[2]));
				break;
			case 11:
				w.changed(a);
				switch (how % 4) {
					case 0: s[a].insert(size_t(p[2]), s[p[3]]); break;
					case 1: s[a].insert(s[a].cbegin() + p[2], s[p[3]]); break;
					case 2: s[a].insert(s[a].begin() + p[2], s[p[3]].begin(), s[p[3]].end()); break;
					default: s[a].insert(s[a].cbegin() + p[2], s[p[3]].cbegin(), s[p[3]].cend());
				}
				done(vp::Ev("Insert").i("a", a).i("i", p[2]).i("b", p[3]));
				break;
			case 12: {
				const auto t = values(4);
				w.changed(a);
				if (how % 2) {
					s[a].insert(s[a].cbegin() + p[2], t.begin(), t.end());
				}
				else {
					s[a].insert(s[a].cbegin() + p[2], t.data(), t.data() + t.size());
				}
				done(vp::Ev("InsertSeq").i("a", a).i("i", p[2]).raw("c", list(t.begin(), t.end())));
				break;
			}
			case 13:
				w.changed(a);
				s[a].push_back(enc(p[2]));
				done(vp::Ev("PushBack").i("a", a).i("x", p[2]));
				break;
			case 14:
				w.changed(a);
				if (p[3] == p[2] + 1 && how % 2) {
					s[a].erase(s[a].cbegin() + p[2]);
				}
				else {
					s[a].erase(s[a].cbegin() + p[2], s[a].cbegin() + p[3]);
				}
				done(vp::Ev("Erase").i("a", a).i("i", p[2]).i("j", p[3]));
				break;
			case 15:
			case 16: {
				const int b = p[3];
				w.changed(a);
				w.changed(b);
				w.known[b] = true;
				S part = p[0] == 15 ? s[a].extract_front(p[2]) : s[a].extract_back(p[2]);
				s[b] = std::move(part);
				done(vp::Ev(p[0] == 15 ? "ExtractFront" : "ExtractBack").i("a", a).i("n", p[2]).i("b", b));
				break;
			}
			case 17: {
				const auto o = vp::outcome([&] { how % 2 ? s[a].extract_front(p[2]) : s[a].extract_back(p[2]); });
				done(vp::Ev("RefuseExtract").i("a", a).i("n", p[2]).s("outcome", o));
				break;
			}
			case 18:
				switch (how % 4) {
					case 0: s[a][p[2]] = enc(p[3]); break;
					case 1: *(s[a].begin() + p[2]) = enc(p[3]); break;
					case 2: s[a].data()[p[2]] = enc(p[3]); break;
					default: *(s[a].rbegin() + (s[a].size() - 1 - p[2])) = enc(p[3]);
				}
				done(vp::Ev("Write").i("a", a).i("i", p[2]).i("x", p[3]));
				break;
			case 19: {
				const int k = p[1], b = p[2];
				const size_t off = p[3], len = p[4];
				const bool c = p[5];
				View x;
				x.of = b;
				x.isConst = c;
				const S& cs = s[b];
				const bool whole = off == 0 && len == s[b].size();
				if (!c) {
					if (whole && how < 4) {
						switch (how) {
							case 0: x.v = AsView(s[b]); break;
							case 1: x.v = V(s[b]); break;
							case 2: x.v = s[b]; break;
							default: x.v = AsView(AsView(s[b]));
						}
					}
					else {
						switch (how % 6) {
							case 0: x.v = V(s[b].begin() + off, s[b].begin() + off + len); break;
							case 1: x.v = V(s[b].begin() + off, len); break;
							case 2: x.v = V(s[b].data() + off, s[b].data() + off + len); break;
							case 3: x.v = AsView<D>(s[b].begin() + off, s[b].begin() + off + len); break;
							case 4: x.v = AsView<D>(s[b].begin() + off, len); break;
							default: x.v = AsView(s[b]).subsignal(off, len);
						}
					}
				}
				else {
					if (whole && how < 5) {
						switch (how) {
							case 0: x.c = AsConstView(s[b]); break;
							case 1: x.c = AsView(cs); break;
							case 2: x.c = CV(cs); break;
							case 3: x.c = CV(s[b]); break;
							default: x.c = AsConstView(AsView(s[b]));
						}
					}
					else {
						switch (how % 6) {
							case 0: x.c = CV(cs.begin() + off, cs.begin() + off + len); break;
							case 1: x.c = CV(cs.begin() + off, len); break;
							case 2: x.c = CV(s[b].data() + off, s[b].data() + off + len); break;
							case 3: x.c = AsConstView<D>(cs.begin() + off, cs.begin() + off + len); break;
							case 4: x.c = AsConstView<D>(s[b].begin() + off, len); break;
							default: x.c = AsConstView(s[b]).subsignal(off, len);
						}
					}
				}
				w.v[k] = x;
				done(vp::Ev("ViewOf").i("v", k).i("a", b).i("off", off).i("len", len).b("const", c));
				break;
			}
			case 20: {
				const int k = p[1], o = p[2];
				const size_t off = p[3], len = p[4];
				const bool c = p[5];
				View y = w.v[o];
				const auto sub = [&](auto base) {
					if (off == 0 && len == base.size() && how < 2) {
						return base;
					}
					if (off == 0 && how < 5) {
						return base.first(len);
					}
					if (off + len == base.size() && how < 5) {
						return how % 2 ? base.last(len) : base.subsignal(off);
					}
					if (how == 6) {
						return decltype(base)(base.begin() + off, len);
					}
					if (how == 7) {
						return decltype(base)(base.begin() + off, base.begin() + off + len);
					}
					return base.subsignal(off, len);
				};
				View x;
				x.of = y.of;
				x.isConst = c;
				if (y.isConst) {
					x.c = AsConstView(sub(y.c));
				}
				else if (c) {
					x.c = how % 2 ? CV(sub(y.v)) : AsConstView(sub(y.v));
				}
				else {
					x.v = AsView(sub(y.v));
				}
				w.v[k] = x;
				done(vp::Ev("SubView").i("v", k).i("w", o).i("off", off).i("len", len).b("const", c));
				break;
			}
			case 21: {
				const size_t off = p[2], len = p[3];
				const auto refuse = [&](auto base) {
					return vp::outcome([&] {
						if (off == 0 && how % 2) {
							how < 4 ? base.first(len) : base.last(len);
						}
						else if (off > base.size() && how % 2) {
							base.subsignal(off);
						}
						else {
							base.subsignal(off, len);
						}
					});
				};
				const auto o = w.v[a].isConst ? refuse(w.v[a].c) : refuse(w.v[a].v);
				done(vp::Ev("RefuseView").i("w", a).i("off", off).i("len", len).s("outcome", o));
				break;
			}
			case 22: {
				V& v = w.v[a].v;
				const size_t i = p[2];
				const T x = enc(p[3]);
				if (i == 0 && how < 3) {
					v.front() = x;
				}
				else if (i + 1 == v.size() && how < 3) {
					v.back() = x;
				}
				else {
					switch (how % 5) {
						case 0: v[i] = x; break;
						case 1: *(v.begin() + i) = x; break;
						case 2: v.data()[i] = x; break;
						case 3: *(v.rbegin() + (v.size() - 1 - i)) = x; break;
						default: *(v.end() - (v.size() - i)) = x;
					}
				}
				done(vp::Ev("WriteView").i("v", a).i("i", i).i("x", p[3]));
				break;
			}
		}
	}
	++ctx.sessions;
}

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	long idx = 0;
	for (const auto& line : ctx.script) {
		if (!ctx.mine(idx++)) {
			continue;
		}
		std::vector<std::vector<long>> plan;
		std::istringstream in(line);
		std::string step;
		while (std::getline(in, step, ';')) {
			std::istringstream s(step);
			std::vector<long> v;
			long x;
			while (s >> x) {
				v.push_back(x);
			}
			if (v.size() >= 2) {
				plan.push_back(v);
			}
		}
		auto g = ctx.rng(idx);
		session(g, plan);
	}
	return vp::finish(ctx);
}
