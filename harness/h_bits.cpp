// C02: bit strings are exact and big-endian: append / concatenate / slice / to-bytes, for every value, length and offset.
#include <vp.h>
#include <chia/bits.hpp>
#include <chia/util.hpp>
extern "C" { int knob_case = 0; int knob_max = 64; int knob_n = 0; }
typedef unsigned __int128 u128;

static uint64_t val(const char* n, uint64_t len) { uint64_t v = vp_sym(n, 64); if(len < 64) vp_assume(v < (1ull << len)); return v; }
static uint64_t symval(const char* n, uint64_t len) { uint64_t v = vp_sym(n, 64); vp_assume(len >= 64 || (v >> (len & 63)) == 0); return v; }
static u128 shl(u128 v, unsigned n) { return n >= 128 ? 0 : v << n; }
static u128 shr(u128 v, unsigned n) { return n >= 128 ? 0 : v >> n; }

// V holds n bits, right aligned; byte i of the left aligned string
static uint8_t ref_byte(u128 V, unsigned n, unsigned i) { return (uint8_t)shr(shl(V, 128 - n), 120 - 8 * i); }

template<class B> static void check_bits(const B& b, u128 V, unsigned n)
{
	vp_assert(b.GetSize() == n, "number of bits");
	uint8_t out[24];
	for(auto& x : out) x = 0x5A;
	b.ToBytes(out);
	unsigned nb = vp_concretize((n + 7) / 8);
	bool ok = true, clean = true;
	for(unsigned i = 0; i < 16; ++i) { if(i < nb) ok &= out[i] == ref_byte(V, n, i); else clean &= out[i] == 0x5A; }
	vp_assert(ok, "bytes hold the bits, most significant first, zero padded");
	vp_assert(clean, "ToBytes writes only the bytes it needs");
	vp_observe(out[0], "b0");
}

extern "C" void vp_main()
{
	const unsigned M = knob_max;
	switch(knob_case) {
	case 0: { // append two values of any length
		unsigned l1 = vp_range("len1", 8, 1, M), l2 = vp_range("len2", 8, 1, M);
		uint64_t a = symval("a", l1), b = symval("b", l2);
		Bits x; x.AppendValue(a, l1); x.AppendValue(b, l2);
		check_bits(x, shl(a, l2) | b, l1 + l2);
		vp_cover("append2");
		break;
	}
	case 1: { // constructor, concatenation of two, into other storage types
		unsigned l1 = vp_range("len1", 8, 1, M), l2 = vp_range("len2", 8, 1, M);
		uint64_t a = symval("a", l1), b = symval("b", l2);
		const Bits x(a, l1), y(b, l2);
		vp_assert(x.GetSize() == l1 && x.GetValue() == a, "a bit string built from a value holds that value");
		Bits z = x + y;
		check_bits(z, shl(a, l2) | b, l1 + l2);
		LargeBits w; w += x; w += y;
		check_bits(w, shl(a, l2) | b, l1 + l2);
		Bits copy; copy = z;
		vp_assert(copy == z, "a copy equals the original");
		vp_cover("concat");
		break;
	}
	case 2: { // values wider than 64 bits
		unsigned n = vp_range("n", 8, 65, 128);
		u128 v = ((u128)vp_sym("hi", 64) << 64) | vp_sym("lo", 64);
		vp_assume(shr(v, n) == 0);
		Bits x(v, n);
		check_bits(x, v, n);
		vp_cover("wide");
		break;
	}
	case 3: case 4: { // slicing, every start and end of strings around the word boundaries
		static const unsigned ns[] = {7, 31, 63, 64, 65, 100, 127, 128};
		const unsigned n = ns[knob_n];
		u128 v = n > 64 ? ((u128)vp_sym("hi", n - 64) << 64) | vp_sym("lo", 64) : vp_sym("v", n);
		Bits x(v, n);
		const unsigned s = vp_choice(n, "start"), e = s + 1 + vp_choice(n - s, "len");
		const u128 want = shr(shl(v, 128 - n + s), 128 - (e - s));
		if(knob_case == 3) {
			if(e - s <= 63) vp_assert(x.SliceBitsToInt(s, e) == (uint64_t)want, "an integer slice holds exactly the bits [start,end)");
		} else {
			Bits y = x.Slice(s, e);
			check_bits(y, want, e - s);
			if(e == n) vp_assert(x.Slice(s) == y, "a slice to the end");
		}
		vp_cover("slice");
		break;
	}
	case 5: { // write_bits: two fields back to back in a zeroed buffer
		uint64_t dst[4] = {}; 
		unsigned off = vp_range("off", 8, 0, 127), l1 = vp_range("len1", 8, 1, 64), l2 = vp_range("len2", 8, 1, 64);
		vp_assume(off + l1 + l2 <= 256);
		uint64_t a = symval("a", l1), b = symval("b", l2);
		int o = write_bits(dst, a, off, l1);
		vp_assert(o == (int)(off + l1), "write_bits returns the next offset");
		int o2 = write_bits(dst, b, o, l2);
		vp_assert(o2 == (int)(off + l1 + l2), "write_bits returns the next offset");
		// reference: 256-bit big endian string
		u128 hi = 0, lo = 0;
		auto put = [&](uint64_t v, unsigned pos, unsigned len) { // bits [pos,pos+len)
			int sh = 256 - (int)(pos + len); // shift left of the 256-bit number
			if(sh >= 128) hi |= shl(v, sh - 128); else { lo |= shl(v, sh); if(sh > 64) hi |= shr(v, 128 - sh); }
		};
		put(a, off, l1); put(b, off + l1, l2);
		bool ok = true;
		for(int i = 0; i < 32; ++i) { uint8_t w = i < 16 ? (uint8_t)(hi >> (120 - 8 * i)) : (uint8_t)(lo >> (120 - 8 * (i - 16))); ok &= ((uint8_t*)dst)[i] == w; }
		vp_assert(ok, "fields written at a bit offset read back big-endian, nothing else changes");
		vp_cover("write_bits");
		break;
	}
	case 6: { // append_bits and slice_bits on multi-word strings, bit by bit
		const unsigned off = vp_choice(4, "off"); static const unsigned offs[] = {0, 38, 64, 102};
		const unsigned n = 1 + vp_choice(160, "n");
		uint64_t src[3], dst[6] = {};
		for(auto& x : src) x = vp_sym("src", 64);
		const int o = append_bits(dst, src, offs[off], n);
		vp_assert(o == (int)(offs[off] + n), "append_bits returns the next offset");
		bool ok = true;
		auto bit = [](const uint64_t* p, unsigned i) { return (((const uint8_t*)p)[i / 8] >> (7 - i % 8)) & 1; };
		for(unsigned i = 0; i < 384; ++i) ok &= bit(dst, i) == (i >= offs[off] && i < offs[off] + n ? bit(src, i - offs[off]) : 0);
		vp_assert(ok, "append_bits copies exactly the bits");
		vp_cover("append_bits");
		break;
	}
	case 7: {
		const unsigned off = 18 + vp_choice(40, "off");
		const unsigned n = 1 + vp_choice(128, "n");
		uint64_t src[4], dst[4] = {};
		for(auto& x : src) x = vp_sym("src", 64);
		const int o = slice_bits(dst, src, off, n);
		vp_assert(o == (int)n, "slice_bits returns the number of bits");
		bool ok = true;
		auto bit = [](const uint64_t* p, unsigned i) { return (((const uint8_t*)p)[i / 8] >> (7 - i % 8)) & 1; };
		for(unsigned i = 0; i < 256; ++i) ok &= bit(dst, i) == (i < n ? bit(src, off + i) : 0);
		vp_assert(ok, "slice_bits copies exactly the bits");
		vp_cover("slice_bits");
		break;
	}
	case 8: { // byte slices
		uint8_t buf[40]; for(auto& x : buf) x = vp_sym("buf", 8);
		auto bits = [&](unsigned s, unsigned n) { u128 v = 0; for(unsigned i = 0; i < n; ++i) v = (v << 1) | ((buf[(s + i) / 8] >> (7 - (s + i) % 8)) & 1); return v; };
		const unsigned s = vp_choice(128, "start");
		const unsigned n = 1 + vp_choice(64, "n");
		if(s % 8 + n <= 64) vp_assert(Util::SliceInt64FromBytes(buf, s, n) == (uint64_t)bits(s, n), "integer taken from a byte string at a bit offset");
		vp_cover("byteslice");
		break;
	}
	case 9: { // integers and bytes
		uint8_t b[16]; uint64_t v = vp_sym("v", 64), w = vp_sym("w", 64);
		Util::IntToTwoBytes(b, (uint16_t)v); vp_assert(b[0] == (uint8_t)(v >> 8) && b[1] == (uint8_t)v && Util::TwoBytesToInt(b) == (uint16_t)v, "two byte big endian integer");
		Util::IntToTwoBytesLE(b, (uint16_t)v); vp_assert(b[1] == (uint8_t)(v >> 8) && b[0] == (uint8_t)v, "two byte little endian integer");
		Util::IntToEightBytes(b, v); bool ok = Util::EightBytesToInt(b) == v; for(int i = 0; i < 8; ++i) ok &= b[i] == (uint8_t)(v >> (56 - 8 * i)); vp_assert(ok, "eight byte big endian integer");
		Util::IntTo16Bytes(b, ((u128)v << 64) | w); ok = true; for(int i = 0; i < 8; ++i) ok &= b[i] == (uint8_t)(v >> (56 - 8 * i)) && b[8 + i] == (uint8_t)(w >> (56 - 8 * i)); vp_assert(ok, "sixteen byte big endian integer");
		uint32_t nb = vp_sym("nb", 31);
		vp_assert(Util::ByteAlign(nb) % 8 == 0 && Util::ByteAlign(nb) >= nb && Util::ByteAlign(nb) < nb + 8, "ByteAlign rounds up to whole bytes");
		vp_assert(cdiv((uint64_t)nb, 8) == ((uint64_t)nb + 7) / 8, "cdiv rounds up");
		vp_cover("ints");
		break;
	}
	case 10: { // long strings in the park type: many fields of one width
		const unsigned w = 15 + vp_choice(21, "w");
		ParkBits x; uint64_t v[24];
		for(auto& a : v) { a = vp_sym("v", w); x += ParkBits(a, w); }
		vp_assert(x.GetSize() == 24 * w, "number of bits");
		uint8_t out[128]; for(auto& o : out) o = 0x5A;
		x.ToBytes(out);
		bool ok = true;
		for(unsigned i = 0; i < 24; ++i) for(unsigned j = 0; j < w; ++j) { unsigned p = i * w + j; ok &= ((out[p / 8] >> (7 - p % 8)) & 1) == ((v[i] >> (w - 1 - j)) & 1); }
		for(unsigned p = 24 * w; p < (24 * w + 7) / 8 * 8; ++p) ok &= !((out[p / 8] >> (7 - p % 8)) & 1);
		vp_assert(ok, "fields of a park follow each other most significant bit first");
		bool clean = true; for(unsigned i = (24 * w + 7) / 8; i < 128; ++i) clean &= out[i] == 0x5A;
		vp_assert(clean, "ToBytes writes only the bytes it needs");
		vp_cover("park");
		break;
	}
	case 11: { // bytes to bits, comparison
		uint8_t in[20], out[20] = {}; for(auto& x : in) x = vp_sym("in", 8);
		const unsigned nb = 1 + vp_choice(16, "nb"), extra = 8 * vp_choice(4, "extra");
		Bits x(in, nb, nb * 8 + extra);
		vp_assert(x.GetSize() == nb * 8 + extra, "number of bits");
		x.ToBytes(out);
		bool ok = true; for(unsigned i = 0; i < nb + extra / 8; ++i) ok &= out[i] == (i < extra / 8 ? 0 : in[i - extra / 8]);
		vp_assert(ok, "bytes survive the conversion to a bit string and back");
		uint64_t a = vp_sym("a", 40), b = vp_sym("b", 40);
		vp_assert((Bits(a, 40) == Bits(b, 40)) == (a == b) && (Bits(a, 40) < Bits(b, 40)) == (a < b) && (Bits(a, 40) > Bits(b, 40)) == (a > b), "bit strings compare like the numbers they hold");
		vp_cover("bytes");
		break;
	}
	}
}
