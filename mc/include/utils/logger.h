/* Stand-in for the logger of submodules/utils (not part of this checkout).
 * Same interface; messages are handed to the model checker's trace.
 * logError() aborts, as the original does by default. */
#ifndef MC_UTILS_LOGGER_H
#define MC_UTILS_LOGGER_H
#include <string>
#ifdef NDEBUG
#define NDBG_UNUSED(x) (void)(x)
#else
#define NDBG_UNUSED(x)
#endif
extern "C" void mc_log(int level, int rank, const char* text);
extern "C" void mc_log_text(const char* text);      /* collected by the runtime, per thread */
namespace utils {
class McLog {
	int level, rank;
public:
	McLog(int l, int r) : level(l), rank(r) {}
	McLog(const McLog& o) : level(o.level), rank(o.rank) { const_cast<McLog&>(o).level = -1; }
	~McLog() { if (level >= 0) mc_log(level, rank, 0); }
	McLog& operator<<(const char* s) { if (level >= 2) mc_log_text(s); return *this; }
	McLog& operator<<(const std::string& s) { if (level >= 2) mc_log_text(s.c_str()); return *this; }
	template<typename T> McLog& operator<<(const T&) { return *this; }
	McLog& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
}
inline utils::McLog logDebug(int rank = 0) { return utils::McLog(0, rank); }
inline utils::McLog logInfo(int rank = 0) { return utils::McLog(1, rank); }
inline utils::McLog logWarning(int rank = 0) { return utils::McLog(2, rank); }
inline utils::McLog logError(int rank = 0) { return utils::McLog(3, rank); }
#endif
