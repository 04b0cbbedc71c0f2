// Independent reference of the plot format's delta coding: normalized counts per R value and a tANS decoder.
#pragma once
#include <cmath>
#include <queue>
#include <vector>
#include <cstdint>
struct RefFse {
	std::vector<short> cnt; std::vector<uint8_t> sym; std::vector<uint16_t> base; std::vector<uint8_t> nb; int N = 0; bool bad = false;
	explicit RefFse(double R)
	{
		std::vector<double> d; const double E = 2.718281828459; double p = 1 - pow((E - 1) / E, 1.0 / R);
		while(p > 1e-50 && N < 255) { d.push_back(p); N++; p = (pow(E, 1.0 / R) - 1) * pow(E - 1, 1.0 / R); p /= pow(E, ((N + 1) / R)); }
		cnt.assign(N, 1);
		std::vector<short>& c = cnt;
		auto cmp = [&d, &c](int i, int j) { return d[i] * (log2(c[i] + 1) - log2(c[i])) < d[j] * (log2(c[j] + 1) - log2(c[j])); };
		std::priority_queue<int, std::vector<int>, decltype(cmp)> q(cmp);
		for(int i = 0; i < N; ++i) q.push(i);
		for(int t = 0; t < 16384 - N; ++t) { int i = q.top(); q.pop(); c[i]++; q.push(i); }
		sym.resize(16384); base.resize(16384); nb.resize(16384);
		std::vector<int> next(N); int high = 16383;
		for(int s = 0; s < N; ++s) { next[s] = c[s]; if(c[s] == 1) sym[high--] = s; }
		int pos = 0; const int step = (16384 >> 1) + (16384 >> 3) + 3;
		for(int s = 0; s < N; ++s) if(c[s] > 1) for(int i = 0; i < c[s]; ++i) { sym[pos] = s; do pos = (pos + step) & 16383; while(pos > high); }
		for(int u = 0; u < 16384; ++u) { const int x = next[sym[u]]++; int n = 14; while((x << n) >= 32768) n--; nb[u] = n; base[u] = (x << n) - 16384; }
	}
	// decodes n symbols; bad is set if the stream does not consist of exactly n symbols
	std::vector<uint8_t> decode(const uint8_t* b, size_t size, size_t n)
	{
		std::vector<uint8_t> out; bad = size == 0 || b[size - 1] == 0 || n < 3; if(bad) return out;
		int64_t p = (size - 1) * 8; for(int i = 7; i >= 0; --i) if(b[size - 1] >> i & 1) { p += i; break; }
		auto rd = [&](int k) { uint32_t v = 0; for(int i = k - 1; i >= 0; --i) { const int64_t q = p - k + i; v = v << 1 | (q >= 0 ? b[q / 8] >> (q % 8) & 1 : 0); } p -= k; return v; };
		uint32_t st[2]; st[0] = rd(14); st[1] = rd(14);
		for(size_t i = 0; i < n; ++i) { const uint32_t u = st[i % 2]; out.push_back(sym[u]); if(i + 2 < n) st[i % 2] = base[u] + rd(nb[u]); }
		bad = p != 0; return out;
	}
};
// tables are built once, before paths fork
inline RefFse& ref_fse(double R) { static std::vector<std::pair<double, RefFse*>> c; for(auto& x : c) if(x.first == R) return *x.second; c.emplace_back(R, new RefFse(R)); return *c.back().second; }
