#ifndef SUP_DTO_JSON_VALUE_PARSER_H_
#define SUP_DTO_JSON_VALUE_PARSER_H_
#include <sup/dto/anyvalue.h>
#include <sup/dto/anytype_registry.h>
namespace sup { namespace dto {
class JSONAnyValueParser
{
public:
  JSONAnyValueParser();
  ~JSONAnyValueParser();
  bool ParseString(const std::string& json_str);
  bool ParseFile(const std::string& filename);
  bool TypedParseString(const AnyType& anytype, const std::string& json_str);
  bool TypedParseFile(const AnyType& anytype, const std::string& filename);
  AnyValue MoveAnyValue();
private:
  AnyValue m_value;
};
}}
#endif
