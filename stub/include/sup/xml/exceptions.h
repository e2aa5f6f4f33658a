#ifndef SUP_XML_EXCEPTIONS_H_
#define SUP_XML_EXCEPTIONS_H_
#include <sup/dto/anyvalue_exceptions.h>
namespace sup { namespace xml {
#define SUP_XML_EXC(N) class N : public sup::dto::MessageException { public: using MessageException::MessageException; };
SUP_XML_EXC(KeyNotAllowedException)
SUP_XML_EXC(InvalidOperationException)
SUP_XML_EXC(ParseException)
SUP_XML_EXC(SerializeException)
#undef SUP_XML_EXC
}}
#endif
