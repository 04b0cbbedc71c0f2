// Stand-in for bls-signatures (submodule absent offline): key generation, derivation and hashing are
// arbitrary functions whose inputs are recorded, key addition is commutative and associative.
#pragma once
#include <cstdint>
#include <vector>
#include <array>
#include <string>
#include <stdexcept>
std::vector<uint8_t> cli_fn(int kind, const std::vector<uint8_t>& in, size_t out); // defined by the harness
bool cli_key_ok(const std::vector<uint8_t>& key);
enum { FN_KEYGEN = 1, FN_DERIVE, FN_G1, FN_HASH, FN_RANDOM };
using std::vector; using std::string;
namespace bls {
class G1Element {
public:
	static const size_t SIZE = 48;
	std::vector<uint8_t> b = std::vector<uint8_t>(48, 0);
	static G1Element FromByteVector(const std::vector<uint8_t>& v, bool = false) { if(v.size() != SIZE || !cli_key_ok(v)) throw std::invalid_argument("G1Element"); G1Element e; e.b = v; return e; }
	std::vector<uint8_t> Serialize(bool = false) const { return b; }
	bool operator==(const G1Element& o) const { return b == o.b; }
	bool operator!=(const G1Element& o) const { return b != o.b; }
	G1Element& operator+=(const G1Element& o) { for(size_t i = 0; i < SIZE; ++i) b[i] += o.b[i]; return *this; }
};
inline G1Element operator+(const G1Element& x, const G1Element& y) { G1Element e = x; e += y; return e; }
class PrivateKey {
public:
	static const size_t PRIVATE_KEY_SIZE = 32;
	std::vector<uint8_t> b = std::vector<uint8_t>(32, 0);
	std::vector<uint8_t> Serialize(bool = false) const { return b; }
	G1Element GetG1Element() const { G1Element e; e.b = cli_fn(FN_G1, b, 48); return e; }
};
class Util {
public:
	static std::string HexStr(const uint8_t* p, size_t n) { std::string s(2 * n, '0'); for(size_t i = 0; i < n; ++i) for(int j = 0; j < 2; ++j) { const unsigned v = (p[i] >> (j ? 0 : 4)) & 15; s[2 * i + j] = (char)('0' + v + (unsigned)(v > 9) * 39); } return s; }
	static std::string HexStr(const std::vector<uint8_t>& v) { return HexStr(v.data(), v.size()); }
	static void Hash256(uint8_t* out, const uint8_t* p, size_t n) { const auto r = cli_fn(FN_HASH, std::vector<uint8_t>(p, p + n), 32); for(int i = 0; i < 32; ++i) out[i] = r[i]; }
};
class CoreMPL {
public:
	PrivateKey KeyGen(const std::vector<uint8_t>& seed) { PrivateKey k; k.b = cli_fn(FN_KEYGEN, seed, 32); return k; }
	PrivateKey DeriveChildSk(const PrivateKey& sk, uint32_t i) { std::vector<uint8_t> in = sk.b; for(int j = 0; j < 4; ++j) in.push_back((uint8_t)(i >> (8 * j))); PrivateKey k; k.b = cli_fn(FN_DERIVE, in, 32); return k; }
};
class AugSchemeMPL : public CoreMPL {};
class BasicSchemeMPL : public CoreMPL {};
}
