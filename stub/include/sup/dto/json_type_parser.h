#ifndef SUP_DTO_JSON_TYPE_PARSER_H_
#define SUP_DTO_JSON_TYPE_PARSER_H_
#include <sup/dto/anytype.h>
#include <sup/dto/anytype_registry.h>
namespace sup { namespace dto {
class JSONAnyTypeParser
{
public:
  JSONAnyTypeParser();
  ~JSONAnyTypeParser();
  bool ParseString(const std::string& json_str, const AnyTypeRegistry* registry = nullptr);
  bool ParseFile(const std::string& filename, const AnyTypeRegistry* registry = nullptr);
  AnyType MoveAnyType();
private:
  AnyType m_type;
};
}}
#endif
