#ifndef SUP_DTO_ANYVALUE_EXCEPTIONS_H_
#define SUP_DTO_ANYVALUE_EXCEPTIONS_H_
#include <stdexcept>
#include <string>
namespace sup { namespace dto {
class MessageException : public std::exception
{
public:
  explicit MessageException(std::string m) : m_message{std::move(m)} {}
  const char* what() const noexcept override { return m_message.c_str(); }
private:
  std::string m_message;
};
#define SUP_DTO_EXC(N) class N : public MessageException { public: using MessageException::MessageException; };
SUP_DTO_EXC(InvalidOperationException)
SUP_DTO_EXC(InvalidConversionException)
SUP_DTO_EXC(KeyNotAllowedException)
SUP_DTO_EXC(DuplicateKeyException)
SUP_DTO_EXC(ParseException)
SUP_DTO_EXC(SerializeException)
#undef SUP_DTO_EXC
}}
#endif
