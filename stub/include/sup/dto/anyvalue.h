#ifndef SUP_DTO_ANYVALUE_H_
#define SUP_DTO_ANYVALUE_H_
#include <sup/dto/anytype.h>
#include <type_traits>
namespace sup { namespace dto {
class AnyValue
{
public:
  AnyValue() noexcept = default;
  AnyValue(boolean v) : m_code{TypeCode::Bool} { m_u.i = v; }
  AnyValue(char8 v) : m_code{TypeCode::Char8} { m_u.i = v; }
  AnyValue(int8 v) : m_code{TypeCode::Int8} { m_u.i = v; }
  AnyValue(uint8 v) : m_code{TypeCode::UInt8} { m_u.u = v; }
  AnyValue(int16 v) : m_code{TypeCode::Int16} { m_u.i = v; }
  AnyValue(uint16 v) : m_code{TypeCode::UInt16} { m_u.u = v; }
  AnyValue(int32 v) : m_code{TypeCode::Int32} { m_u.i = v; }
  AnyValue(uint32 v) : m_code{TypeCode::UInt32} { m_u.u = v; }
  AnyValue(int64 v) : m_code{TypeCode::Int64} { m_u.i = v; }
  AnyValue(uint64 v) : m_code{TypeCode::UInt64} { m_u.u = v; }
  AnyValue(long long v) : m_code{TypeCode::Int64} { m_u.i = v; }
  AnyValue(unsigned long long v) : m_code{TypeCode::UInt64} { m_u.u = v; }
  AnyValue(float32 v) : m_code{TypeCode::Float32} { m_u.d = v; }
  AnyValue(float64 v) : m_code{TypeCode::Float64} { m_u.d = v; }
  AnyValue(const std::string& v) : m_code{TypeCode::String}, m_str{v} {}
  AnyValue(const char* v) : m_code{TypeCode::String}, m_str{v} {}
  explicit AnyValue(const AnyType& anytype);
  AnyValue(const AnyType& anytype, const AnyValue& value);
  AnyValue(std::initializer_list<std::pair<std::string, AnyValue>> members, const std::string& name = {});
  AnyValue(std::size_t size, const AnyType& elem_type, const std::string& name = {});
  AnyValue(const AnyValue& o);
  AnyValue(AnyValue&& o);
  AnyValue& operator=(const AnyValue& o);
  AnyValue& operator=(AnyValue&& o);
  ~AnyValue();

  TypeCode GetTypeCode() const { return m_code; }
  AnyType GetType() const;
  std::string GetTypeName() const { return IsScalar() ? TypeCodeToString(m_code) : m_name; }
  bool IsScalar() const { return IsScalarTypeCode(m_code); }
  void ConvertFrom(const AnyValue& o);
  void UnsafeConvertFrom(const AnyValue& o);
  template <typename T> T As() const;
  template <typename T> bool As(T& out) const   // no-throw variant
  {
    try { out = As<T>(); return true; }
    catch (const MessageException&) { return false; }
  }

  AnyValue& AddMember(const std::string& name, const AnyValue& value);
  std::vector<std::string> MemberNames() const;
  std::size_t NumberOfMembers() const { return m_members.size(); }
  std::vector<std::string> ChildNames() const;
  std::size_t NumberOfChildren() const;
  AnyValue* GetChildValue(const std::string& name);
  const AnyValue* GetChildValue(const std::string& name) const;
  AnyValue& AddElement(const AnyValue& value);
  std::size_t NumberOfElements() const { return m_elems.size(); }
  bool HasField(const std::string& fieldname) const;
  AnyValue& operator[](const std::string& fieldname);
  const AnyValue& operator[](const std::string& fieldname) const;
  AnyValue& operator[](std::size_t idx);
  const AnyValue& operator[](std::size_t idx) const;
  AnyValue& operator[](const char* f) { return (*this)[std::string(f)]; }
  const AnyValue& operator[](const char* f) const { return (*this)[std::string(f)]; }
  AnyValue& operator[](int i) { return (*this)[static_cast<std::size_t>(i)]; }
  const AnyValue& operator[](int i) const { return (*this)[static_cast<std::size_t>(i)]; }
  bool operator==(const AnyValue& o) const;
  bool operator!=(const AnyValue& o) const { return !(*this == o); }

  static AnyValue MakeStruct(const std::string& name);
  static AnyValue MakeArray(const AnyType& elem, const std::string& name);
  bool IsIntegral() const;
  bool IsFloat() const { return m_code == TypeCode::Float32 || m_code == TypeCode::Float64; }
  bool IsUnsigned() const;
  int64 RawI() const { return m_u.i; }
  uint64 RawU() const { return m_u.u; }
  float64 RawD() const { return m_u.d; }
  const std::string& RawS() const { return m_str; }
  void SetName(const std::string& n) { m_name = n; }
private:
  void Take(const AnyValue& o);
  void TakeMove(AnyValue&& o);
  const AnyValue* Find(const std::string& fieldname) const;
  std::int64_t ToI(std::int64_t lo, std::uint64_t hi) const;
  std::uint64_t ToU(std::uint64_t hi) const;
  double ToD() const;
  TypeCode m_code{TypeCode::Empty};
  bool m_locked{false};   // array elements keep their type
  union { int64 i; uint64 u; float64 d; } m_u{0};
  std::string m_str;
  std::string m_name;
  std::vector<std::string> m_names;
  std::vector<std::unique_ptr<AnyValue>> m_members;
  std::vector<std::unique_ptr<AnyValue>> m_elems;
  AnyType m_elem_type;
};
template <> boolean AnyValue::As<boolean>() const;
template <> char8 AnyValue::As<char8>() const;
template <> int8 AnyValue::As<int8>() const;
template <> uint8 AnyValue::As<uint8>() const;
template <> int16 AnyValue::As<int16>() const;
template <> uint16 AnyValue::As<uint16>() const;
template <> int32 AnyValue::As<int32>() const;
template <> uint32 AnyValue::As<uint32>() const;
template <> int64 AnyValue::As<int64>() const;
template <> uint64 AnyValue::As<uint64>() const;
template <> float32 AnyValue::As<float32>() const;
template <> float64 AnyValue::As<float64>() const;
template <> std::string AnyValue::As<std::string>() const;

AnyValue EmptyStruct(const std::string& name = {});
AnyValue ArrayValue(std::initializer_list<AnyValue> elems, const std::string& name = {});
bool IsEmptyValue(const AnyValue&);
bool IsStructValue(const AnyValue&);
bool IsArrayValue(const AnyValue&);
bool IsScalarValue(const AnyValue&);
}}
#endif
