#ifndef SUP_DTO_ANYTYPE_REGISTRY_H_
#define SUP_DTO_ANYTYPE_REGISTRY_H_
#include <sup/dto/anytype.h>
#include <map>
namespace sup { namespace dto {
class AnyTypeRegistry
{
public:
  AnyTypeRegistry();
  ~AnyTypeRegistry();
  void RegisterType(const AnyType& anytype);
  void RegisterType(const std::string& name, const AnyType& anytype);
  bool HasType(const std::string& name) const;
  AnyType GetType(const std::string& name) const;
private:
  std::map<std::string, AnyType> m_types;
};
AnyTypeRegistry& GlobalAnyTypeRegistry();
}}
#endif
