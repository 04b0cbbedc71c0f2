#pragma once
#include <string>
#include <vector>
namespace bech32 {
enum Encoding { None, Bech32, Bech32m, Invalid = None, Unknown = None };
struct DecodedResult { Encoding encoding = None; std::string hrp; std::vector<unsigned char> dp; };
DecodedResult decode(const std::string& addr); // defined by the harness
}
