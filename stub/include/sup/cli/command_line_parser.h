// Stand-in for sup-utils' command line parser.
#ifndef SUP_CLI_COMMAND_LINE_PARSER_H_
#define SUP_CLI_COMMAND_LINE_PARSER_H_
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace sup { namespace cli {
class CommandLineOption
{
public:
  CommandLineOption(std::vector<std::string> names, std::string description) : m_names{std::move(names)}, m_description{std::move(description)} {}
  CommandLineOption& SetParameter(bool v) { m_parameter = v; return *this; }
  CommandLineOption& SetRequired(bool v) { m_required = v; return *this; }
  CommandLineOption& SetValueName(const std::string& v) { m_value_name = v; return *this; }
  CommandLineOption& SetDefaultValue(const std::string& v) { m_default = v; m_has_default = true; return *this; }
  bool Is(const std::string& n) const { for (auto& x : m_names) if (x == n) return true; return false; }
  std::vector<std::string> m_names;
  std::string m_description, m_value_name, m_default, m_value;
  bool m_parameter = false, m_required = false, m_has_default = false, m_set = false;
};
class CommandLineParser
{
public:
  CommandLineParser& SetDescription(const std::string&, const std::string& footer = {}) { m_usage = footer; return *this; }
  CommandLineOption& AddHelpOption() { auto& o = AddOption({"-h", "--help"}, "help"); m_help = &o; return o; }
  CommandLineOption& AddOption(const std::vector<std::string>& names, const std::string& description = {})
  { m_options.emplace_back(new CommandLineOption(names, description)); return *m_options.back(); }
  bool Parse(int argc, const char* const argv[])
  {
    for (int i = 1; i < argc; ++i) {
      CommandLineOption* o = Find(argv[i]);
      if (!o) return false;
      o->m_set = true;
      if (o->m_parameter) { if (++i >= argc) return false; o->m_value = argv[i]; }
    }
    if (m_help && m_help->m_set) return false;
    for (auto& o : m_options) if (o->m_required && !o->m_set) return false;
    return true;
  }
  bool IsSet(const std::string& n) const { auto o = Find(n); return o && o->m_set; }
  std::string GetUsageString() const { return m_usage + "\n"; }
  template <typename T> T GetValue(const std::string& n) const
  {
    auto o = Find(n);
    if (!o || !(o->m_set || o->m_has_default)) throw std::runtime_error("no value for option " + n);
    std::istringstream s(o->m_set ? o->m_value : o->m_default);
    T v{};
    s >> v;
    return v;
  }
private:
  CommandLineOption* Find(const std::string& n) const { for (auto& o : m_options) if (o->Is(n)) return o.get(); return nullptr; }
  std::vector<std::unique_ptr<CommandLineOption>> m_options;
  CommandLineOption* m_help = nullptr;
  std::string m_usage;
};
template <> inline std::string CommandLineParser::GetValue<std::string>(const std::string& n) const
{
  auto o = Find(n);
  if (!o || !(o->m_set || o->m_has_default)) throw std::runtime_error("no value for option " + n);
  return o->m_set ? o->m_value : o->m_default;
}
}}
#endif
