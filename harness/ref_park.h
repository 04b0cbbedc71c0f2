// Independent reader of a park: 2k bits first line point, (EPP-1) stubs of k-3 bits, 2 bytes size (little endian, bit 15 = uncompressed), deltas.
#pragma once
#include "ref_fse.h"
#include <vp.h>
typedef unsigned __int128 u128r;
struct RefPark {
	int k, epp; uint32_t lpb, stb, dlb, size; bool bad = false;
	RefPark(int k, int table, int epp, double d1, double d) : k(k), epp(epp) {
		lpb = (2 * k + 7) / 8; stb = ((epp - 1) * (k - 3) + 7) / 8; const uint32_t bits = (uint32_t)((epp - 1) * (table == 1 ? d1 : d)); dlb = (bits + 7) / 8; size = lpb + stb + dlb;
	}
	uint32_t room() const { return dlb; }
	static uint64_t bits(const char* fn, uint64_t byte, uint64_t off, int n) { uint64_t v = 0; for(int i = 0; i < n;) { const uint64_t b = off + i; const int k = (int)(b % 8), m = 8 - k < n - i ? 8 - k : n - i; v = v << m | (((uint64_t)(uint8_t)vpfs_byte(fn, byte + b / 8) >> (8 - k - m)) & ((1u << m) - 1)); i += m; } return v; }
	std::vector<u128r> read(const char* fn, uint64_t at, int cnt, RefFse& ref) {
		std::vector<u128r> out; bad = false;
		u128r p = (u128r)bits(fn, at, 0, k) << k | bits(fn, at, k, k);
		const uint64_t d = at + lpb + stb; uint32_t sz = (uint8_t)vpfs_byte(fn, d) | (uint32_t)(uint8_t)vpfs_byte(fn, d + 1) << 8;
		std::vector<uint8_t> raw, del; const bool unc = sz & 0x8000; sz &= 0x7fff;
		if(sz + 2 > dlb) { bad = true; return std::vector<u128r>(cnt); }
		for(uint32_t i = 0; i < sz; ++i) raw.push_back((uint8_t)vpfs_byte(fn, d + 2 + i));
		if(unc) { del = raw; bad = (int)sz != cnt - 1; } else { del = ref.decode(raw.data(), raw.size(), cnt - 1); bad = ref.bad; }
		if(bad) return std::vector<u128r>(cnt);
		out.push_back(p);
		for(int i = 0; i + 1 < cnt; ++i) { p += ((u128r)del[i] << (k - 3)) + bits(fn, at + lpb, (uint64_t)i * (k - 3), k - 3); out.push_back(p); }
		return out;
	}
};
