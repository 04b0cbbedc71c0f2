// C04: the key stream generator is ChaCha8 (256-bit key, 64-bit block counter, zero nonce), for every key and block number.
#include <vp.h>
#include "chacha8.h"
#include <cstring>
extern "C" { int knob_case = 0; }
static void ref_block(const uint8_t* key, uint32_t c0, uint32_t c1, uint8_t* out)
{
	uint32_t s[16], w[16];
	s[0] = 0x61707865; s[1] = 0x3320646e; s[2] = 0x79622d32; s[3] = 0x6b206574;
	for(int i = 0; i < 8; ++i) memcpy(&s[4 + i], key + 4 * i, 4);
	s[12] = c0; s[13] = c1; s[14] = s[15] = 0;
	for(int i = 0; i < 16; ++i) w[i] = s[i];
	auto rot = [](uint32_t v, int n) { return (v << n) | (v >> (32 - n)); };
	auto qr = [&](int a, int b, int c, int d) {
		w[a] += w[b]; w[d] = rot(w[d] ^ w[a], 16); w[c] += w[d]; w[b] = rot(w[b] ^ w[c], 12);
		w[a] += w[b]; w[d] = rot(w[d] ^ w[a], 8); w[c] += w[d]; w[b] = rot(w[b] ^ w[c], 7);
	};
	for(int r = 0; r < 4; ++r) { for(int i = 0; i < 4; ++i) qr(i, 4 + i, 8 + i, 12 + i); for(int i = 0; i < 4; ++i) qr(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4); }
	for(int i = 0; i < 16; ++i) { uint32_t v = w[i] + s[i]; memcpy(out + 4 * i, &v, 4); }
}
extern "C" void vp_main()
{
	uint8_t key[32]; for(auto& b : key) b = vp_sym("key", 8);
	uint32_t lo = vp_sym("ctr_lo", 32), hi = vp_sym("ctr_hi", 32); unsigned n = 1;
	if(knob_case == 1) { static const uint64_t c[] = {0, 5, 0xFFFFFFFEull, 0xFFFFFFFFull, 0x3FFFFFFFull, 0x1234567890ull, 0x7FFFFFFFFFFFull}; uint64_t v = c[vp_choice(7, "ctr")]; lo = v; hi = v >> 32; n = 1 + vp_choice(4, "blocks"); }
	chacha8_ctx ctx; vp_uninit(&ctx, sizeof(ctx));
	chacha8_keysetup(&ctx, key, 256, nullptr);
	alignas(8) uint8_t out[320]; for(auto& x : out) x = 0x5A;
	const uint64_t pos = ((uint64_t)hi << 32) | lo;
	chacha8_get_keystream(&ctx, pos, n, out);
	for(unsigned b = 0; b < n; ++b) {
		uint8_t want[64]; uint64_t c = pos + b;
		if(n == 1) ref_block(key, lo, hi, want); else ref_block(key, (uint32_t)c, c >> 32, want);
		for(int i = 0; i < 64; i += 4) { uint32_t x, y; memcpy(&x, out + 64 * b + i, 4); memcpy(&y, want + i, 4); vp_assert(x == y, "key stream word equals ChaCha8"); }
	}
	bool clean = true; for(unsigned i = 64 * n; i < 320; ++i) clean &= out[i] == 0x5A;
	vp_assert(clean, "exactly the requested blocks are written");
	vp_observe(out[0], "b");
	vp_cover("chacha");
}
