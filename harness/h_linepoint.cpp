// C03: pairs of table positions survive the line point encoding.
#include <vp.h>
#include <chia/chia.h>
#include <chia/encoding.hpp>
extern "C" { int knob_case = 0; int knob_bits = 8; int knob_base = 0; }
typedef unsigned __int128 u128;
extern "C" void vp_main()
{
	switch(knob_case) {
	case 0: { // all pairs of small positions
		uint64_t x = vp_sym("x", knob_bits), y = vp_sym("y", knob_bits);
		vp_assume(x != y);
		u128 p = Encoding::SquareToLinePoint(x, y);
		vp_assert(p == Encoding::SquareToLinePoint(y, x), "the line point does not depend on the order of the pair");
		uint64_t hi = x > y ? x : y, lo = x > y ? y : x;
		vp_assert(p == (u128)hi * (hi - 1) / 2 + lo, "the line point is x(x-1)/2 + y");
		vp_assert((p >> (2 * knob_bits - 1)) == 0, "the line point fits 2k-1 bits");
		vp_cover("small");
		break;
	}
	case 1: { // decoding: the larger coordinate is found exactly, for concrete x and every y below it
		uint64_t x = 1 + vp_choice((1 << knob_bits) - 1, "x");
		uint64_t y = vp_sym("y", 40); vp_assume(y < x);
		bool sw = vp_choice(2, "swap");
		u128 p = sw ? Encoding::SquareToLinePoint(y, x) : Encoding::SquareToLinePoint(x, y);
		auto r = Encoding::LinePointToSquare(p);
		vp_assert(r.first == x && r.second == y, "decoding a line point gives the pair back");
		vp_cover("decode");
		break;
	}
	case 2: { // the same around large positions
		static const uint64_t base[] = {(1ull << 31), (1ull << 32) - 8, (1ull << 32) + 5, (1ull << 33) - 4, (1ull << 34) - 16, 3037000500ull - 4, 6074001000ull - 4, (1ull << 35) - 16, 0xAAAAAAAAull, 0x155555555ull, 1ull << 16, 1ull << 24, 12345678, 1ull << 28};
		uint64_t x = base[knob_base] + vp_choice(16, "d");
		uint64_t y = vp_sym("y", 36); vp_assume(y < x);
		bool sw = vp_choice(2, "swap");
		u128 p = sw ? Encoding::SquareToLinePoint(y, x) : Encoding::SquareToLinePoint(x, y);
		vp_assert(p == (u128)x * (x - 1) / 2 + y, "the line point is x(x-1)/2 + y");
		auto r = Encoding::LinePointToSquare(p);
		vp_assert(r.first == x && r.second == y, "decoding a line point gives the pair back");
		int k = 64 - __builtin_clzll(x);
		vp_assert((p >> (2 * k - 1)) == 0, "the line point fits 2k-1 bits");
		vp_cover("large");
		break;
	}
	case 3: { // formula for full-width positions
		uint64_t x = vp_sym("x", knob_bits);
		u128 g = Encoding::GetXEnc(x);
		if(x) vp_assert(g + g == (u128)x * (x - 1), "x(x-1)/2 is exact");
		vp_cover("formula");
		break;
	}
	case 4: { // order: a larger first coordinate always gives a larger line point, so distinct pairs never collide
		uint64_t x1 = vp_sym("x1", knob_bits), x2 = vp_sym("x2", knob_bits), y1 = vp_sym("y1", knob_bits), y2 = vp_sym("y2", knob_bits);
		vp_assume(y1 < x1 && y2 < x2 && (x1 != x2 || y1 != y2));
		u128 a = Encoding::SquareToLinePoint(x1, y1), b = Encoding::SquareToLinePoint(y2, x2);
		vp_assert(a != b, "different pairs have different line points");
		if(x1 < x2) vp_assert(a < b, "line points are ordered by the larger position");
		vp_cover("order");
		break;
	}
	}
}
