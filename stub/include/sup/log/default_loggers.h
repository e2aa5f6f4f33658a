#ifndef SUP_LOG_DEFAULT_LOGGERS_H_
#define SUP_LOG_DEFAULT_LOGGERS_H_
#include <sup/log/basic_logger.h>
#include <iostream>
namespace sup { namespace log {
class DefaultLogger
{
public:
  DefaultLogger(LogFunction f, std::string source, int max_severity = 7)
    : m_logger{std::move(f), std::move(source), max_severity} {}
  int SetMaxSeverity(int s) { return m_logger.SetMaxSeverity(s); }
  void LogMessage(int s, const std::string& m) const { m_logger.LogMessage(s, m); }
  void Emergency(const std::string& m) const { LogMessage(0, m); }
  void Alert(const std::string& m) const { LogMessage(1, m); }
  void Critical(const std::string& m) const { LogMessage(2, m); }
  void Error(const std::string& m) const { LogMessage(3, m); }
  void Warning(const std::string& m) const { LogMessage(4, m); }
  void Notice(const std::string& m) const { LogMessage(5, m); }
  void Info(const std::string& m) const { LogMessage(6, m); }
  void Debug(const std::string& m) const { LogMessage(7, m); }
  void Trace(const std::string& m) const { LogMessage(8, m); }
private:
  BasicLogger m_logger;
};
inline std::string DefaultStdoutLogMessage(int severity, const std::string& source, const std::string& message)
{ return "[" + std::to_string(severity) + "] " + source + ": " + message; }
inline DefaultLogger CreateDefaultStdoutLogger(const std::string& source)
{ return DefaultLogger([](int s, const std::string& src, const std::string& m)
  { std::cout << DefaultStdoutLogMessage(s, src, m) << std::endl; }, source); }
// where the stand-in of the system's log goes
inline void (*stub_syslog)(int, const std::string&, const std::string&) = nullptr;
inline DefaultLogger CreateDefaultSysLogger(const std::string& source)
{ return DefaultLogger([](int s, const std::string& src, const std::string& m) { if (stub_syslog) stub_syslog(s, src, m); }, source); }
}}
#endif
