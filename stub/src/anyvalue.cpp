// Stand-in for sup-dto's AnyType/AnyValue (not available offline).
#include <sup/dto/anyvalue.h>
#include <sup/dto/anyvalue_helper.h>
#include <sup/dto/anyvalue_operations.h>
#include <sup/dto/anytype_registry.h>
#include <cmath>
#include <limits>
namespace sup { namespace dto {
bool IsScalarTypeCode(TypeCode c) { return c >= TypeCode::Bool && c <= TypeCode::String; }
std::string TypeCodeToString(TypeCode c)
{
  static const char* n[] = {"empty", "bool", "char8", "int8", "uint8", "int16", "uint16", "int32",
    "uint32", "int64", "uint64", "float32", "float64", "string", "struct", "array"};
  return n[static_cast<int>(c)];
}
AnyType::AnyType() : m_code{TypeCode::Empty} {}
AnyType::AnyType(TypeCode code) : m_code{code} {}
AnyType::AnyType(std::initializer_list<std::pair<std::string, AnyType>> members, const std::string& name)
  : m_code{TypeCode::Struct}, m_name{name}
{
  for (auto& m : members) AddMember(m.first, m.second);
}
AnyType::AnyType(std::size_t size, const AnyType& elem, const std::string& name)
  : m_code{TypeCode::Array}, m_name{name}, m_elem{new AnyType(elem)}, m_size{size}
{}
AnyType::AnyType(const AnyType& o)
  : m_code{o.m_code}, m_name{o.m_name}, m_members{o.m_members}
  , m_elem{o.m_elem ? new AnyType(*o.m_elem) : nullptr}, m_size{o.m_size}
{}
AnyType::AnyType(AnyType&& o) noexcept = default;
AnyType& AnyType::operator=(const AnyType& o) { AnyType c(o); *this = std::move(c); return *this; }
AnyType& AnyType::operator=(AnyType&&) noexcept = default;
AnyType::~AnyType() = default;
AnyType AnyType::MakeStruct(const std::string& name) { AnyType r{TypeCode::Struct}; r.m_name = name; return r; }
AnyType& AnyType::AddMember(const std::string& name, const AnyType& type)
{
  if (m_code != TypeCode::Struct) throw InvalidOperationException("AddMember on non-struct type");
  for (auto& m : m_members) if (m.first == name) throw DuplicateKeyException("duplicate member " + name);
  m_members.emplace_back(name, type);
  return *this;
}
std::vector<std::string> AnyType::MemberNames() const
{ std::vector<std::string> r; for (auto& m : m_members) r.push_back(m.first); return r; }
AnyType AnyType::ElementType() const
{ if (m_code != TypeCode::Array) throw InvalidOperationException("ElementType"); return *m_elem; }
namespace {
// Splits off the first component of a field name "a.b[1].c".
bool SplitFirst(const std::string& f, std::string& head, bool& is_index, std::string& tail)
{
  if (f.empty()) return false;
  if (f[0] == '[') {
    auto e = f.find(']');
    if (e == std::string::npos) return false;
    head = f.substr(1, e - 1);
    is_index = true;
    tail = f.substr(e + 1);
    if (!tail.empty() && tail[0] == '.') { tail = tail.substr(1); if (tail.empty()) return false; }
    return true;
  }
  is_index = false;
  auto e = f.find_first_of(".[");
  head = f.substr(0, e);
  if (e == std::string::npos) tail.clear();
  else if (f[e] == '.') { tail = f.substr(e + 1); if (tail.empty()) return false; }
  else tail = f.substr(e);
  return !head.empty();
}
bool ParseIdx(const std::string& s, std::size_t& idx)
{
  if (s.empty()) return false;
  idx = 0;
  for (char c : s) { if (c < '0' || c > '9') return false; idx = idx * 10 + static_cast<std::size_t>(c - '0'); if (idx > 100000000) return false; }
  return true;
}
const AnyType* FindT(const AnyType& t, const std::string& f)
{
  std::string h, tail; bool ix;
  if (!SplitFirst(f, h, ix, tail)) return nullptr;
  const AnyType* c = nullptr;
  if (ix) return nullptr;
  for (auto& m : t.Members()) if (m.first == h) c = &m.second;
  if (c == nullptr || tail.empty()) return c;
  return FindT(*c, tail);
}
}
bool AnyType::HasField(const std::string& f) const { return FindT(*this, f) != nullptr; }
const AnyType& AnyType::operator[](const std::string& f) const
{ auto p = FindT(*this, f); if (!p) throw InvalidOperationException("no field " + f); return *p; }
AnyType& AnyType::operator[](const std::string& f)
{ return const_cast<AnyType&>(static_cast<const AnyType&>(*this)[f]); }
bool AnyType::operator==(const AnyType& o) const
{
  if (m_code != o.m_code) return false;
  if (IsScalarTypeCode(m_code) || m_code == TypeCode::Empty) return true;
  if (m_name != o.m_name) return false;
  if (m_code == TypeCode::Array) return m_size == o.m_size && *m_elem == *o.m_elem;
  return m_members == o.m_members;
}
AnyType EmptyStructType(const std::string& name) { return AnyType::MakeStruct(name); }
bool IsEmptyType(const AnyType& t) { return t.GetTypeCode() == TypeCode::Empty; }
bool IsStructType(const AnyType& t) { return t.GetTypeCode() == TypeCode::Struct; }
bool IsArrayType(const AnyType& t) { return t.GetTypeCode() == TypeCode::Array; }
bool IsScalarType(const AnyType& t) { return IsScalarTypeCode(t.GetTypeCode()); }

AnyTypeRegistry::AnyTypeRegistry()
{
  for (int c = 0; c <= static_cast<int>(TypeCode::String); ++c) {
    auto code = static_cast<TypeCode>(c);
    m_types.emplace(c == 0 ? std::string() : TypeCodeToString(code), AnyType{code});
  }
}
AnyTypeRegistry::~AnyTypeRegistry() = default;
void AnyTypeRegistry::RegisterType(const AnyType& t) { RegisterType(t.GetTypeName(), t); }
void AnyTypeRegistry::RegisterType(const std::string& name, const AnyType& t)
{
  auto it = m_types.find(name);
  if (it != m_types.end()) {
    if (it->second != t) throw InvalidOperationException("type already registered: " + name);
    return;
  }
  m_types.emplace(name, t);
}
bool AnyTypeRegistry::HasType(const std::string& name) const { return m_types.count(name) != 0; }
AnyType AnyTypeRegistry::GetType(const std::string& name) const
{ auto it = m_types.find(name); if (it == m_types.end()) throw InvalidOperationException("unknown type " + name); return it->second; }
AnyTypeRegistry& GlobalAnyTypeRegistry() { static AnyTypeRegistry r; return r; }

// ---------------------------------------------------------------- AnyValue
AnyValue::AnyValue(const AnyType& t) : m_code{t.GetTypeCode()}
{
  if (IsFloat()) m_u.d = 0.0;
  if (m_code == TypeCode::Struct) {
    m_name = t.GetTypeName();
    for (auto& m : t.Members()) { m_names.push_back(m.first); m_members.emplace_back(new AnyValue(m.second)); }
  } else if (m_code == TypeCode::Array) {
    m_name = t.GetTypeName();
    m_elem_type = t.ElementType();
    for (std::size_t i = 0; i < t.NumberOfElements(); ++i) {
      m_elems.emplace_back(new AnyValue(m_elem_type));
      m_elems.back()->m_locked = true;
    }
  }
}
AnyValue::AnyValue(const AnyType& t, const AnyValue& v) : AnyValue(t) { ConvertFrom(v); }
AnyValue::AnyValue(std::initializer_list<std::pair<std::string, AnyValue>> members, const std::string& name)
  : m_code{TypeCode::Struct}, m_name{name}
{ for (auto& m : members) AddMember(m.first, m.second); }
AnyValue::AnyValue(std::size_t size, const AnyType& elem, const std::string& name) : AnyValue(AnyType(size, elem, name)) {}
AnyValue::AnyValue(const AnyValue& o) { Take(o); }
AnyValue::AnyValue(AnyValue&& o) { if (o.m_locked) Take(o); else TakeMove(std::move(o)); }
void AnyValue::Take(const AnyValue& o)
{
  m_code = o.m_code; m_u = o.m_u; m_str = o.m_str; m_name = o.m_name; m_names = o.m_names;
  m_elem_type = o.m_elem_type;
  std::vector<std::unique_ptr<AnyValue>> mem, el;
  for (auto& p : o.m_members) mem.emplace_back(new AnyValue(*p));
  for (auto& p : o.m_elems) { el.emplace_back(new AnyValue(*p)); el.back()->m_locked = true; }
  m_members = std::move(mem); m_elems = std::move(el);
}
void AnyValue::TakeMove(AnyValue&& o)
{
  m_code = o.m_code; m_u = o.m_u; m_str = std::move(o.m_str); m_name = std::move(o.m_name);
  m_names = std::move(o.m_names); m_members = std::move(o.m_members); m_elems = std::move(o.m_elems);
  m_elem_type = std::move(o.m_elem_type);
  o.m_code = TypeCode::Empty; o.m_u.u = 0; o.m_str.clear(); o.m_name.clear(); o.m_names.clear();
  o.m_members.clear(); o.m_elems.clear();
}
AnyValue& AnyValue::operator=(const AnyValue& o)
{
  if (this == &o) return *this;
  if (m_locked) { AnyValue c(o); ConvertFrom(c); }
  else { AnyValue c(o); TakeMove(std::move(c)); }
  return *this;
}
AnyValue& AnyValue::operator=(AnyValue&& o)
{
  if (this == &o) return *this;
  AnyValue c(std::move(o));
  if (m_locked) ConvertFrom(c);
  else TakeMove(std::move(c));
  return *this;
}
AnyValue::~AnyValue() = default;
AnyValue AnyValue::MakeStruct(const std::string& name) { AnyValue r; r.m_code = TypeCode::Struct; r.m_name = name; return r; }
AnyValue AnyValue::MakeArray(const AnyType& e, const std::string& name)
{ AnyValue r; r.m_code = TypeCode::Array; r.m_name = name; r.m_elem_type = e; return r; }
AnyType AnyValue::GetType() const
{
  if (m_code == TypeCode::Struct) {
    AnyType t = AnyType::MakeStruct(m_name);
    for (std::size_t i = 0; i < m_names.size(); ++i) t.AddMember(m_names[i], m_members[i]->GetType());
    return t;
  }
  if (m_code == TypeCode::Array) return AnyType(m_elems.size(), m_elem_type, m_name);
  return AnyType(m_code);
}
bool AnyValue::IsIntegral() const { return m_code >= TypeCode::Bool && m_code <= TypeCode::UInt64; }
bool AnyValue::IsUnsigned() const
{
  return m_code == TypeCode::UInt8 || m_code == TypeCode::UInt16 || m_code == TypeCode::UInt32
         || m_code == TypeCode::UInt64;
}
static void BadConv(const char* w = "invalid conversion") { throw InvalidConversionException(w); }
std::int64_t AnyValue::ToI(std::int64_t lo, std::uint64_t hi) const
{
  if (IsFloat()) {
    if (!(m_u.d >= static_cast<double>(lo) && m_u.d <= static_cast<double>(hi))) BadConv();
    return static_cast<std::int64_t>(m_u.d);
  }
  if (!IsIntegral()) BadConv();
  if (IsUnsigned()) { if (m_u.u > hi) BadConv(); return static_cast<std::int64_t>(m_u.u); }
  if (m_u.i < lo || (m_u.i > 0 && static_cast<std::uint64_t>(m_u.i) > hi)) BadConv();
  return m_u.i;
}
std::uint64_t AnyValue::ToU(std::uint64_t hi) const
{
  if (IsFloat()) {
    if (!(m_u.d >= 0.0 && m_u.d <= static_cast<double>(hi))) BadConv();
    return static_cast<std::uint64_t>(m_u.d);
  }
  if (!IsIntegral()) BadConv();
  if (IsUnsigned()) { if (m_u.u > hi) BadConv(); return m_u.u; }
  if (m_u.i < 0 || static_cast<std::uint64_t>(m_u.i) > hi) BadConv();
  return static_cast<std::uint64_t>(m_u.i);
}
double AnyValue::ToD() const
{
  if (IsFloat()) return m_u.d;
  if (!IsIntegral()) BadConv();
  return IsUnsigned() ? static_cast<double>(m_u.u) : static_cast<double>(m_u.i);
}
#define SUP_AS_I(T) template <> T AnyValue::As<T>() const \
  { return static_cast<T>(ToI(std::numeric_limits<T>::min(), static_cast<std::uint64_t>(std::numeric_limits<T>::max()))); }
#define SUP_AS_U(T) template <> T AnyValue::As<T>() const { return static_cast<T>(ToU(std::numeric_limits<T>::max())); }
SUP_AS_I(char8) SUP_AS_I(int8) SUP_AS_I(int16) SUP_AS_I(int32) SUP_AS_I(int64)
SUP_AS_U(uint8) SUP_AS_U(uint16) SUP_AS_U(uint32) SUP_AS_U(uint64)
template <> boolean AnyValue::As<boolean>() const
{
  if (IsFloat()) return m_u.d != 0.0;
  if (!IsIntegral()) BadConv();
  return m_u.u != 0;
}
template <> float32 AnyValue::As<float32>() const { return static_cast<float32>(ToD()); }
template <> float64 AnyValue::As<float64>() const { return ToD(); }
template <> std::string AnyValue::As<std::string>() const
{ if (m_code != TypeCode::String) BadConv(); return m_str; }

void AnyValue::ConvertFrom(const AnyValue& o)
{
  if (this == &o) return;
  switch (m_code) {
  case TypeCode::Empty: if (o.m_code != TypeCode::Empty) BadConv(); return;
  case TypeCode::Bool: { auto v = o.As<boolean>(); m_u.i = v; return; }
  case TypeCode::Char8: { auto v = o.As<char8>(); m_u.i = v; return; }
  case TypeCode::Int8: { auto v = o.As<int8>(); m_u.i = v; return; }
  case TypeCode::UInt8: { auto v = o.As<uint8>(); m_u.u = v; return; }
  case TypeCode::Int16: { auto v = o.As<int16>(); m_u.i = v; return; }
  case TypeCode::UInt16: { auto v = o.As<uint16>(); m_u.u = v; return; }
  case TypeCode::Int32: { auto v = o.As<int32>(); m_u.i = v; return; }
  case TypeCode::UInt32: { auto v = o.As<uint32>(); m_u.u = v; return; }
  case TypeCode::Int64: { auto v = o.As<int64>(); m_u.i = v; return; }
  case TypeCode::UInt64: { auto v = o.As<uint64>(); m_u.u = v; return; }
  case TypeCode::Float32: { auto v = o.As<float32>(); m_u.d = v; return; }
  case TypeCode::Float64: { auto v = o.As<float64>(); m_u.d = v; return; }
  case TypeCode::String: { auto v = o.As<std::string>(); m_str = std::move(v); return; }
  case TypeCode::Struct: {
    if (o.m_code != TypeCode::Struct || o.m_names != m_names) BadConv();
    AnyValue c(*this);
    for (std::size_t i = 0; i < m_names.size(); ++i) c.m_members[i]->ConvertFrom(*o.m_members[i]);
    for (std::size_t i = 0; i < m_names.size(); ++i) { m_members[i].swap(c.m_members[i]); }
    return;
  }
  case TypeCode::Array: {
    if (o.m_code != TypeCode::Array || o.m_elems.size() != m_elems.size()) BadConv();
    AnyValue c(*this);
    for (std::size_t i = 0; i < m_elems.size(); ++i) c.m_elems[i]->ConvertFrom(*o.m_elems[i]);
    for (std::size_t i = 0; i < m_elems.size(); ++i) { m_elems[i].swap(c.m_elems[i]); }
    return;
  }
  }
}
void AnyValue::UnsafeConvertFrom(const AnyValue& o) { ConvertFrom(o); }
AnyValue& AnyValue::AddMember(const std::string& name, const AnyValue& value)
{
  if (m_code != TypeCode::Struct || m_locked) throw InvalidOperationException("AddMember on non-struct value");
  if (name.empty() || name.find_first_of(".[] \t\"") != std::string::npos) throw InvalidOperationException("bad member name");
  for (auto& n : m_names) if (n == name) throw InvalidOperationException("duplicate member " + name);
  std::unique_ptr<AnyValue> v{new AnyValue(value)};
  m_names.push_back(name);
  m_members.push_back(std::move(v));
  return *this;
}
std::vector<std::string> AnyValue::MemberNames() const { return m_names; }
std::vector<std::string> AnyValue::ChildNames() const
{
  if (m_code == TypeCode::Struct) return m_names;
  std::vector<std::string> r;
  for (std::size_t i = 0; i < m_elems.size(); ++i) r.push_back("[" + std::to_string(i) + "]");
  return r;
}
std::size_t AnyValue::NumberOfChildren() const { return m_members.size() + m_elems.size(); }
AnyValue* AnyValue::GetChildValue(const std::string& n) { return const_cast<AnyValue*>(Find(n)); }
const AnyValue* AnyValue::GetChildValue(const std::string& n) const { return Find(n); }
AnyValue& AnyValue::AddElement(const AnyValue& value)
{
  if (m_code != TypeCode::Array || m_locked) throw InvalidOperationException("AddElement on non-array value");
  if (m_elem_type.GetTypeCode() == TypeCode::Empty && m_elems.empty()) m_elem_type = value.GetType();
  std::unique_ptr<AnyValue> v{new AnyValue(m_elem_type)};
  try { v->ConvertFrom(value); }
  catch (const InvalidConversionException&) { throw InvalidOperationException("AddElement: wrong element type"); }
  v->m_locked = true;
  m_elems.push_back(std::move(v));
  return *this;
}
const AnyValue* AnyValue::Find(const std::string& f) const
{
  const AnyValue* cur = this;
  std::string rest = f;
  do {
    std::string h, tail; bool ix = false;
    if (!SplitFirst(rest, h, ix, tail)) return nullptr;
    const AnyValue* nx = nullptr;
    if (ix) {
      std::size_t i;
      if (cur->m_code != TypeCode::Array || !ParseIdx(h, i) || i >= cur->m_elems.size()) return nullptr;
      nx = cur->m_elems[i].get();
    } else {
      for (std::size_t i = 0; i < cur->m_names.size(); ++i) if (cur->m_names[i] == h) nx = cur->m_members[i].get();
    }
    if (nx == nullptr) return nullptr;
    cur = nx;
    rest = tail;
  } while (!rest.empty());
  return cur;
}
bool AnyValue::HasField(const std::string& f) const { return Find(f) != nullptr; }
const AnyValue& AnyValue::operator[](const std::string& f) const
{ auto p = Find(f); if (!p) throw InvalidOperationException("no field " + f); return *p; }
AnyValue& AnyValue::operator[](const std::string& f)
{ auto p = Find(f); if (!p) throw InvalidOperationException("no field " + f); return *const_cast<AnyValue*>(p); }
AnyValue& AnyValue::operator[](std::size_t i)
{ if (i >= m_elems.size()) throw InvalidOperationException("index out of range"); return *m_elems[i]; }
const AnyValue& AnyValue::operator[](std::size_t i) const
{ if (i >= m_elems.size()) throw InvalidOperationException("index out of range"); return *m_elems[i]; }

static bool ScalarEq(const AnyValue& a, const AnyValue& b)
{
  bool sa = a.GetTypeCode() == TypeCode::String, sb = b.GetTypeCode() == TypeCode::String;
  if (sa || sb) return sa && sb && a.RawS() == b.RawS();
  return Compare(a, b) == CompareResult::Equivalent;
}
bool AnyValue::operator==(const AnyValue& o) const
{
  if (IsScalar() && o.IsScalar()) return ScalarEq(*this, o);
  if (m_code != o.m_code) return false;
  if (m_code == TypeCode::Empty) return true;
  if (m_name != o.m_name) return false;
  if (m_names != o.m_names || m_elems.size() != o.m_elems.size()) return false;
  for (std::size_t i = 0; i < m_members.size(); ++i) if (!(*m_members[i] == *o.m_members[i])) return false;
  for (std::size_t i = 0; i < m_elems.size(); ++i) if (!(*m_elems[i] == *o.m_elems[i])) return false;
  return true;
}
AnyValue EmptyStruct(const std::string& name) { return AnyValue::MakeStruct(name); }
AnyValue ArrayValue(std::initializer_list<AnyValue> elems, const std::string& name)
{
  if (elems.size() == 0) return AnyValue::MakeArray(EmptyType, name);
  AnyValue r = AnyValue::MakeArray(elems.begin()->GetType(), name);
  for (auto& e : elems) r.AddElement(e);
  return r;
}
bool IsEmptyValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Empty; }
bool IsStructValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Struct; }
bool IsArrayValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Array; }
bool IsScalarValue(const AnyValue& v) { return v.IsScalar(); }

CompareResult Compare(const AnyValue& l, const AnyValue& r)
{
  auto cmp = [](auto a, auto b) {
    if (a < b) return CompareResult::Less;
    if (b < a) return CompareResult::Greater;
    if (a == b) return CompareResult::Equivalent;
    return CompareResult::Unordered;
  };
  if (l.GetTypeCode() == TypeCode::String && r.GetTypeCode() == TypeCode::String) return cmp(l.RawS(), r.RawS());
  bool ln = l.IsIntegral() || l.IsFloat(), rn = r.IsIntegral() || r.IsFloat();
  if (!ln || !rn) return CompareResult::Unordered;
  bool lb = l.GetTypeCode() == TypeCode::Bool, rb = r.GetTypeCode() == TypeCode::Bool;
  if (lb != rb && false) return CompareResult::Unordered;
  auto tod = [](const AnyValue& v) {
    return v.IsFloat() ? v.RawD() : v.IsUnsigned() ? static_cast<double>(v.RawU()) : static_cast<double>(v.RawI()); };
  if (l.IsFloat() || r.IsFloat()) {
    if (l.GetTypeCode() == TypeCode::Float32 || r.GetTypeCode() == TypeCode::Float32) {
      if (l.GetTypeCode() != TypeCode::Float64 && r.GetTypeCode() != TypeCode::Float64)
        return cmp(static_cast<float>(tod(l)), static_cast<float>(tod(r)));
    }
    return cmp(tod(l), tod(r));
  }
  if (l.IsUnsigned() && r.IsUnsigned()) return cmp(l.RawU(), r.RawU());
  if (!l.IsUnsigned() && !r.IsUnsigned()) return cmp(l.RawI(), r.RawI());
  if (l.IsUnsigned()) return r.RawI() < 0 ? CompareResult::Greater : cmp(l.RawU(), r.RawU());
  return l.RawI() < 0 ? CompareResult::Less : cmp(l.RawU(), r.RawU());
}
static bool AddOne(AnyValue& v, int d)
{
  if (v.GetTypeCode() == TypeCode::Bool || !(v.IsIntegral() || v.IsFloat())) return false;
  if (v.IsFloat()) { v = AnyValue{v.GetType(), AnyValue{v.RawD() + d}}; return true; }
  auto code = v.GetTypeCode();
  switch (code) {  // two's complement wrap-around, as sup-dto
  case TypeCode::Char8: v = AnyValue{static_cast<char8>(v.RawI() + d)}; break;
  case TypeCode::Int8: v = AnyValue{static_cast<int8>(v.RawI() + d)}; break;
  case TypeCode::UInt8: v = AnyValue{static_cast<uint8>(v.RawU() + static_cast<uint64>(d))}; break;
  case TypeCode::Int16: v = AnyValue{static_cast<int16>(v.RawI() + d)}; break;
  case TypeCode::UInt16: v = AnyValue{static_cast<uint16>(v.RawU() + static_cast<uint64>(d))}; break;
  case TypeCode::Int32: v = AnyValue{static_cast<int32>(v.RawI() + d)}; break;
  case TypeCode::UInt32: v = AnyValue{static_cast<uint32>(v.RawU() + static_cast<uint64>(d))}; break;
  default: {
    uint64 u = v.RawU() + static_cast<uint64>(static_cast<int64>(d));
    if (code == TypeCode::Int64) v = AnyValue{static_cast<int64>(u)}; else v = AnyValue{u};
  }
  }
  return true;
}
bool Increment(AnyValue& v) { return AddOne(v, 1); }
bool Decrement(AnyValue& v) { return AddOne(v, -1); }
bool TryConvert(AnyValue& dest, const AnyValue& src)
{
  try { AnyValue c(dest); c.ConvertFrom(src); dest = c; return true; }
  catch (const MessageException&) { return false; }
}
bool TryAssign(AnyValue& dest, const AnyValue& src)
{
  try { dest = src; return true; }
  catch (const MessageException&) { return false; }
}
bool TryAssignIfEmptyOrConvert(AnyValue& dest, const AnyValue& src)
{
  if (IsEmptyValue(dest)) return TryAssign(dest, src);
  return TryConvert(dest, src);
}
}}
