// Intervals.  VP_T: type of the ends.
#include "vp.hpp"

#include <array>

#include <dspbb/Utility/Interval.hpp>

using namespace dspbb;
using T = VP_T;
using I = Interval<T>;

vp::Ctx ctx;

std::string str(const I& i) { return "[" + std::to_string(vp::exact(i.first)) + "," + std::to_string(vp::exact(i.last)) + "]"; }

void pair(const I& a, const I& b) {
	const I ka = a, kb = b;
	const auto opt = [](const std::optional<I>& u) { return u ? str(*u) : std::string("[]"); };
	vp::Ev e("Pair");
	e.raw("ab", "[" + str(ka) + "," + str(kb) + "]");
	e.raw("meet", "[" + str(Intersection(a, b)) + "," + str(Intersection(b, a)) + "]");
	e.raw("hull", "[" + str(EncompassingUnion(a, b)) + "," + str(EncompassingUnion(b, a)) + "]");
	e.a("disjoint", std::array<int, 2>{ IsDisjoint(a, b), IsDisjoint(b, a) });
	e.raw("union", "[" + opt(Union(a, b)) + "," + opt(Union(b, a)) + "]");
	e.a("equal", std::array<int, 2>{ a == b, a != b });
	e.raw("kept", "[" + str(a) + "," + str(b) + "]");
	ctx.log(e);
}

int main(int argc, char** argv) {
	ctx = vp::parse(argc, argv);
	const bool sign = std::is_signed_v<T>;
	const int n = ctx.scale(sign ? 3 : 5, sign ? 7 : 12);
	long idx = 0;
	for (int f = sign ? -n : 0; f <= n; ++f) {
		for (int l = f; l <= n; ++l) {
			if (!ctx.mine(idx++)) {
				continue;
			}
			ctx.log(vp::Ev("Begin"));
			++ctx.sessions;
			for (int f2 = sign ? -n : 0; f2 <= n; ++f2) {
				for (int l2 = f2; l2 <= n; ++l2) {
					pair(I{ T(f), T(l) }, I{ T(f2), T(l2) });
				}
			}
		}
	}
	// Far apart, and moved along
	for (int k = 0; k < ctx.scale(400, 6000); ++k) {
		if (!ctx.mine(idx++)) {
			continue;
		}
		auto g = ctx.rng(uint64_t(idx));
		ctx.log(vp::Ev("Begin"));
		++ctx.sessions;
		const auto some = [&] {
			const long a = g.in(sign ? -2000 : 3000, 6000);
			const long m = g.in(0, 3);
			return I{ T(a), T(a + (m == 0 ? 0 : m == 1 ? 1 : g.in(0, 3000))) };
		};
		I i = some();
		pair(i, some());
		ctx.log(vp::Ev("Load").raw("i", str(i)).i("size", vp::exact(i.size())));
		for (int j = 0; j < 6; ++j) {
			const long d = g.in(sign ? -500 : 0, 500);
			if (g.coin()) {
				const I p = i + T(d);
				I& r = (i += T(d));
				ctx.log(vp::Ev("Shift").i("d", d).raw("plus", "[" + str(p) + "," + str(r) + "]").raw("post", str(i)).i("size", vp::exact(i.size())));
			}
			else {
				const I p = i - T(d);
				I& r = (i -= T(d));
				ctx.log(vp::Ev("Back").i("d", d).raw("minus", "[" + str(p) + "," + str(r) + "]").raw("post", str(i)).i("size", vp::exact(i.size())));
			}
		}
	}
	return vp::finish(ctx);
}
