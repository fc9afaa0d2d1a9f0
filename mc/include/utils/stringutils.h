/* Stand-in for the string helpers of submodules/utils (not part of this checkout). */
#ifndef MC_UTILS_STRINGUTILS_H
#define MC_UTILS_STRINGUTILS_H
#include <cctype>
#include <sstream>
#include <string>
namespace utils {
class StringUtils {
public:
	static void toUpper(std::string& s) { for (size_t i = 0; i < s.size(); i++) s[i] = toupper(s[i]); }
	static void toLower(std::string& s) { for (size_t i = 0; i < s.size(); i++) s[i] = tolower(s[i]); }
	static bool startsWith(const std::string& s, const std::string& p) { return s.size() >= p.size() && s.compare(0, p.size(), p) == 0; }
	static bool endsWith(const std::string& s, const std::string& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
	template<typename T> static std::string toString(T v) { std::ostringstream o; o << v; return o.str(); }
	template<typename T> static T parse(const std::string& s, bool = false) { T r = T(); std::istringstream i(s); i >> r; return r; }
};
template<> inline std::string StringUtils::parse<std::string>(const std::string& s, bool) { return s; }
template<> inline const char* StringUtils::parse<const char*>(const std::string& s, bool) { return s.c_str(); }
template<> inline bool StringUtils::parse<bool>(const std::string& s, bool) {
	std::string l = s; toLower(l);
	return l == "on" || l == "yes" || l == "true" || l == "1";
}
}
#endif
