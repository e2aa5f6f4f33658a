#ifndef SUP_DTO_ANYTYPE_HELPER_H_
#define SUP_DTO_ANYTYPE_HELPER_H_
#include <sup/dto/anytype.h>
#include <sup/dto/anytype_registry.h>
namespace sup { namespace dto {
std::string AnyTypeToJSONString(const AnyType& anytype, bool pretty = false);
void AnyTypeToJSONFile(const AnyType& anytype, const std::string& filename, bool pretty = false);
AnyType AnyTypeFromJSONString(const std::string& s);
}}
#endif
