// Stand-in for cxxopts: option values come from the harness instead of text.
#pragma once
#include <string>
#include <vector>
#include <memory>
#include <initializer_list>
namespace cxxopts {
struct Given { std::string name; std::string text; int number = 0; bool flag = false; };
extern std::vector<Given> g_given;
struct Value { virtual ~Value() {} virtual void set(const Given& g) = 0; virtual Value* default_value(const std::string&) { return this; } };
template<typename T> struct ValueOf : Value { T* ref; ValueOf(T& r) : ref(&r) {} void set(const Given& g) override; };
template<> inline void ValueOf<int>::set(const Given& g) { *ref = g.number; }
template<> inline void ValueOf<bool>::set(const Given& g) { *ref = g.flag; }
template<> inline void ValueOf<std::string>::set(const Given& g) { *ref = g.text; }
template<typename T> std::shared_ptr<Value> value(T& ref) { return std::make_shared<ValueOf<T>>(ref); }
struct Option { std::string s, l; std::shared_ptr<Value> v; };
struct OptionAdder {
	std::vector<Option>* o;
	OptionAdder& operator()(const std::string& names, const std::string&, std::shared_ptr<Value> v = nullptr) {
		Option x; const size_t c = names.find(','); 
		if(c == std::string::npos) { if(names.size() == 1) x.s = names; else x.l = names; }
		else { x.s = names.substr(0, c); size_t b = c + 1; while(b < names.size() && names[b] == ' ') ++b; x.l = names.substr(b); }
		x.v = v; o->push_back(x); return *this;
	}
};
struct ParseResult {
	std::vector<std::string> seen;
	size_t count(const std::string& n) const { size_t c = 0; for(auto& s : seen) c += s == n; return c; }
};
struct Options {
	std::vector<Option> opts;
	Options(const std::string&, const std::string& = "") {}
	Options& allow_unrecognised_options() { return *this; }
	OptionAdder add_options() { return OptionAdder{&opts}; }
	std::string help(const std::vector<std::string>& = {}) const { return ""; }
	ParseResult parse(int, char**) { ParseResult r; for(auto& g : g_given) for(auto& o : opts) if(g.name == o.s || g.name == o.l) { if(o.v) o.v->set(g); if(!o.s.empty()) r.seen.push_back(o.s); if(!o.l.empty()) r.seen.push_back(o.l); } return r; }
};
}
