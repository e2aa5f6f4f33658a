#ifndef SUP_LOG_BASIC_LOGGER_H_
#define SUP_LOG_BASIC_LOGGER_H_
#include <functional>
#include <string>
namespace sup { namespace log {
using LogFunction = std::function<void(int, const std::string&, const std::string&)>;
class BasicLogger
{
public:
  BasicLogger(LogFunction f, std::string source, int max_severity)
    : m_func{std::move(f)}, m_source{std::move(source)}, m_max{max_severity} {}
  int SetMaxSeverity(int s) { int o = m_max; m_max = s; return o; }
  void LogMessage(int severity, const std::string& message) const
  { if (severity <= m_max && m_func) m_func(severity, m_source, message); }
private:
  LogFunction m_func;
  std::string m_source;
  int m_max;
};
}}
#endif
