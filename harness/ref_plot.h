// Independent reader of a whole plot file and helpers to compare it with the tables it was made from.
#pragma once
#include "ref_park.h"
#include <algorithm>
#include <string>
struct RefPlot {
	std::string fn; int k; uint64_t ptr[11]; int header = 0; std::vector<uint8_t> id, memo; bool bad = false; const char* why = "";
	std::vector<u128r> lp[7]; std::vector<uint64_t> p7, y7;
	uint64_t be(uint64_t at, int n) { uint64_t v = 0; for(int i = 0; i < n; ++i) v = v << 8 | (uint8_t)vpfs_byte(fn.c_str(), at + i); return v; }
	void fail(const char* w) { if(!bad) why = w; bad = true; }
	bool open(const std::string& f, int k_, int memo_len) // header in the standard layout
	{
		fn = f; k = k_; static const char M[] = "Proof of Space Plot"; bool ok = true; uint64_t p = 0;
		for(int i = 0; i < 19; ++i) ok &= vpfs_byte(fn.c_str(), p++) == M[i];
		for(int i = 0; i < 32; ++i) id.push_back((uint8_t)vpfs_byte(fn.c_str(), p++));
		ok &= vpfs_byte(fn.c_str(), p++) == k; ok &= be(p, 2) == 4; p += 2; ok &= be(p, 4) == 0x76312e30; p += 4; ok &= be(p, 2) == (uint64_t)memo_len; p += 2;
		for(int i = 0; i < memo_len; ++i) memo.push_back((uint8_t)vpfs_byte(fn.c_str(), p++));
		for(int i = 1; i <= 10; ++i) { ptr[i] = be(p, 8); p += 8; }
		header = (int)p; if(!ok) fail("header"); return ok;
	}
	// n[t]: entries of tables 1..7 in the plot (n[t] = line points at pointer t; n[7] = table 7 entries)
	bool tables(const int* n, int epp, double d1, double d, int c1i, int c2i, double c3b)
	{
		static const double RV[7] = {0, 4.7, 2.75, 2.75, 2.7, 2.6, 2.45};
		uint64_t at = header;
		for(int t = 1; t <= 6; ++t) {
			RefPark rp(k, t, epp, d1, d); RefFse& ref = ref_fse(RV[t]);
			if(ptr[t] != at) { fail("table pointer"); return false; }
			const int parks = (n[t] + epp - 1) / epp;
			for(int i = 0; i < parks; ++i) { const auto q = rp.read(fn.c_str(), at + (uint64_t)i * rp.size, std::min(epp, n[t] - i * epp), ref); if(rp.bad) { fail("park"); return false; } lp[t].insert(lp[t].end(), q.begin(), q.end()); }
			at += (uint64_t)parks * rp.size;
		}
		if(ptr[7] != at) { fail("P7 pointer"); return false; }
		const uint64_t ps = ((uint64_t)(k + 1) * epp + 7) / 8; const int N = n[7], yb = (k + 7) / 8; const uint64_t n1 = (N + c1i - 1) / c1i, n2 = (n1 + c2i - 1) / c2i;
		for(int i = 0; i < N; ++i) p7.push_back(RefPark::bits(fn.c_str(), at + (uint64_t)(i / epp) * ps, (uint64_t)(i % epp) * (k + 1), k + 1));
		at += (N ? (N + epp - 1) / epp : 1) * ps; if(ptr[8] != at) { fail("C1 pointer"); return false; }
		const uint64_t c1 = at; at += (n1 + 1) * yb; if(ptr[9] != at) { fail("C2 pointer"); return false; }
		for(uint64_t i = 0; i <= n2; ++i) if(be(at + i * yb, yb) != (i < n2 ? be(c1 + i * c2i * yb, yb) : 0)) { fail("C2"); return false; }
		at += (n2 + 1) * yb; if(ptr[10] != at) { fail("C3 pointer"); return false; }
		const uint64_t cs = ((k < 20 ? (uint64_t)8 * c1i : (uint64_t)(c3b * c1i)) + 7) / 8; RefFse& ref = ref_fse(1.0);
		for(uint64_t i = 0; i < n1; ++i) {
			uint64_t y = be(c1 + i * yb, yb) >> (8 * yb - k); y7.push_back(y); const int cnt = std::min<int>(c1i, N - (int)i * c1i) - 1; if(cnt < 3) { for(int j = 0; j < cnt; ++j) y7.push_back(~0ull); continue; }
			const uint64_t b = at + i * cs; const uint32_t sz = (uint32_t)be(b, 2); if(sz + 2 > cs) { fail("C3 size"); return false; }
			std::vector<uint8_t> raw; for(uint32_t j = 0; j < sz; ++j) raw.push_back((uint8_t)vpfs_byte(fn.c_str(), b + 2 + j));
			const auto del = ref.decode(raw.data(), raw.size(), cnt); if(ref.bad) { fail("C3"); return false; }
			for(auto x : del) { y += x; y7.push_back(y); }
		}
		if(be(c1 + n1 * yb, yb) != 0) { fail("C1 end"); return false; }
		if(vpfs_size(fn.c_str()) > (int64_t)(at + n1 * cs)) { fail("file size"); return false; }
		return true;
	}
	static std::pair<uint64_t, uint64_t> square(u128r p) { uint64_t lo = 0, hi = (uint64_t)1 << 35; while(lo + 1 < hi) { const uint64_t m = (lo + hi) / 2; if((u128r)m * (m - 1) / 2 <= p) lo = m; else hi = m; } return {lo, (uint64_t)(p - (u128r)lo * (lo ? lo - 1 : 0) / 2)}; }
	void collect(int t, uint64_t pos, std::vector<uint64_t>& xs) { if(bad) return; if(pos >= lp[t].size()) { fail("position out of range"); return; } const auto s = square(lp[t][pos]); if(t == 1) { xs.push_back(s.first); xs.push_back(s.second); } else { collect(t - 1, s.first, xs); collect(t - 1, s.second, xs); } }
	std::vector<uint64_t> proof(int i) { std::vector<uint64_t> xs; collect(6, p7[i], xs); std::sort(xs.begin(), xs.end()); return xs; }
};
