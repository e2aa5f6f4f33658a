#ifndef SUP_DTO_ANYVALUE_OPERATIONS_H_
#define SUP_DTO_ANYVALUE_OPERATIONS_H_
#include <sup/dto/anyvalue.h>
namespace sup { namespace dto {
enum class CompareResult { Less, Equivalent, Greater, Unordered };
CompareResult Compare(const AnyValue& l, const AnyValue& r);
bool Increment(AnyValue& v);
bool Decrement(AnyValue& v);
}}
#endif
