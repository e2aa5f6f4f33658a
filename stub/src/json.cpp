// Stand-in for sup-dto's JSON (de)serialisation.
#include <sup/dto/anyvalue_helper.h>
#include <sup/dto/anytype_helper.h>
#include <sup/dto/json_value_parser.h>
#include <sup/dto/json_type_parser.h>
#include <cstdlib>
#include <cstdio>
#include <fstream>
#include <sstream>
namespace sup { namespace dto {
namespace {
struct J
{
  enum K { Null, Bool, Int, UInt, Dbl, Str, Arr, Obj } k = Null;
  bool b = false; int64 i = 0; uint64 u = 0; double d = 0; std::string s;
  std::vector<J> a;
  std::vector<std::pair<std::string, J>> o;
  const J* Get(const std::string& n) const { for (auto& p : o) if (p.first == n) return &p.second; return nullptr; }
};
struct P
{
  const std::string& t; std::size_t p = 0; bool bad = false; int depth = 0;
  explicit P(const std::string& s) : t(s) {}
  void Ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r')) ++p; }
  bool Lit(const char* l) { std::string s(l); if (t.compare(p, s.size(), s) == 0) { p += s.size(); return true; } return false; }
  J Val()
  {
    J j; Ws();
    if (p >= t.size() || ++depth > 200) { bad = true; return j; }
    char c = t[p];
    if (c == '{') {
      j.k = J::Obj; ++p; Ws();
      if (p < t.size() && t[p] == '}') { ++p; --depth; return j; }
      while (!bad) {
        Ws();
        if (p >= t.size() || t[p] != '"') { bad = true; break; }
        std::string n = Str();
        Ws(); if (p >= t.size() || t[p] != ':') { bad = true; break; } ++p;
        j.o.emplace_back(n, Val()); Ws();
        if (p < t.size() && t[p] == ',') { ++p; continue; }
        if (p < t.size() && t[p] == '}') { ++p; break; }
        bad = true;
      }
    } else if (c == '[') {
      j.k = J::Arr; ++p; Ws();
      if (p < t.size() && t[p] == ']') { ++p; --depth; return j; }
      while (!bad) {
        j.a.push_back(Val()); Ws();
        if (p < t.size() && t[p] == ',') { ++p; continue; }
        if (p < t.size() && t[p] == ']') { ++p; break; }
        bad = true;
      }
    } else if (c == '"') { j.k = J::Str; j.s = Str(); }
    else if (Lit("true")) { j.k = J::Bool; j.b = true; }
    else if (Lit("false")) { j.k = J::Bool; }
    else if (Lit("null")) { }
    else {
      std::size_t b = p; bool dbl = false;
      if (p < t.size() && t[p] == '-') ++p;
      std::size_t digits = p;
      while (p < t.size() && ((t[p] >= '0' && t[p] <= '9') || t[p] == '.' || t[p] == 'e' || t[p] == 'E' || ((t[p] == '+' || t[p] == '-') && p > b))) {
        if (t[p] == '.' || t[p] == 'e' || t[p] == 'E') dbl = true;
        ++p;
      }
      if (p == digits || !(t[digits] >= '0' && t[digits] <= '9')) { bad = true; return j; }
      std::string n = t.substr(b, p - b);
      char* e = nullptr;
      if (dbl) { j.k = J::Dbl; j.d = std::strtod(n.c_str(), &e); }
      else if (n[0] == '-') { j.k = J::Int; j.i = std::strtoll(n.c_str(), &e, 10); }
      else { j.k = J::UInt; j.u = std::strtoull(n.c_str(), &e, 10); }
      if (e == nullptr || *e != 0) bad = true;
    }
    --depth;
    return j;
  }
  std::string Str()
  {
    std::string r; ++p;
    while (true) {
      if (p >= t.size()) { bad = true; return r; }
      char c = t[p++];
      if (c == '"') return r;
      if (c == '\\') {
        if (p >= t.size()) { bad = true; return r; }
        char e = t[p++];
        switch (e) {
        case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break;
        case 'b': r += '\b'; break; case 'f': r += '\f'; break;
        case 'u': { if (p + 4 > t.size()) { bad = true; return r; }
          r += static_cast<char>(std::strtol(t.substr(p, 4).c_str(), nullptr, 16)); p += 4; break; }
        default: r += e;
        }
      } else r += c;
    }
  }
  bool Doc(J& out) { out = Val(); Ws(); return !bad && p == t.size(); }
};
std::string Esc(const std::string& s)
{
  std::string r = "\"";
  for (char c : s) {
    if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\"; else if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r";
    else if (static_cast<unsigned char>(c) < 0x20) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
std::string Num(double d, bool f32)
{
  char b[64];
  for (int prec = f32 ? 6 : 15; prec <= 17; ++prec) {
    std::snprintf(b, sizeof b, "%.*g", prec, d);
    double back = std::strtod(b, nullptr);
    if (f32 ? static_cast<float>(back) == static_cast<float>(d) : back == d) break;
  }
  std::string r = b;
  if (r.find_first_of(".eEn") == std::string::npos) r += ".0";
  return r;
}
void WV(std::string& o, const AnyValue& v)
{
  switch (v.GetTypeCode()) {
  case TypeCode::Empty: o += "null"; break;
  case TypeCode::Bool: o += v.As<boolean>() ? "true" : "false"; break;
  case TypeCode::Float32: o += Num(v.RawD(), true); break;
  case TypeCode::Float64: o += Num(v.RawD(), false); break;
  case TypeCode::String: o += Esc(v.RawS()); break;
  case TypeCode::Struct: {
    o += "{"; bool f = true;
    for (auto& n : v.MemberNames()) { if (!f) o += ","; f = false; o += Esc(n) + ":"; WV(o, v[n]); }
    o += "}"; break;
  }
  case TypeCode::Array: {
    o += "[";
    for (std::size_t i = 0; i < v.NumberOfElements(); ++i) { if (i) o += ","; WV(o, v[i]); }
    o += "]"; break;
  }
  default: o += v.IsUnsigned() ? std::to_string(v.RawU()) : std::to_string(v.RawI());
  }
}
void WT(std::string& o, const AnyType& t)
{
  if (t.GetTypeCode() == TypeCode::Struct) {
    o += "{\"type\":" + Esc(t.GetTypeName()) + ",\"attributes\":[";
    bool f = true;
    for (auto& m : t.Members()) { if (!f) o += ","; f = false; o += "{" + Esc(m.first) + ":"; WT(o, m.second); o += "}"; }
    o += "]}";
  } else if (t.GetTypeCode() == TypeCode::Array) {
    o += "{\"type\":" + Esc(t.GetTypeName()) + ",\"multiplicity\":" + std::to_string(t.NumberOfElements()) + ",\"element\":";
    WT(o, t.ElementType());
    o += "}";
  } else {
    o += "{\"type\":" + Esc(t.GetTypeCode() == TypeCode::Empty ? std::string() : TypeCodeToString(t.GetTypeCode())) + "}";
  }
}
bool ToType(const J& j, AnyType& t, const AnyTypeRegistry* reg)
{
  if (j.k != J::Obj) return false;
  auto ty = j.Get("type");
  if (!ty || ty->k != J::Str) return false;
  if (auto at = j.Get("attributes")) {
    if (at->k != J::Arr) return false;
    AnyType r = AnyType::MakeStruct(ty->s);
    for (auto& m : at->a) {
      if (m.k != J::Obj || m.o.size() != 1) return false;
      AnyType mt;
      if (!ToType(m.o[0].second, mt, reg)) return false;
      if (r.HasField(m.o[0].first)) return false;
      r.AddMember(m.o[0].first, mt);
    }
    t = r; return true;
  }
  if (auto el = j.Get("element")) {
    auto mu = j.Get("multiplicity");
    if (mu && mu->k != J::UInt) return false;
    AnyType et;
    if (!ToType(*el, et, reg)) return false;
    t = AnyType(mu ? static_cast<std::size_t>(mu->u) : 0, et, ty->s); return true;
  }
  if (reg && reg->HasType(ty->s)) { t = reg->GetType(ty->s); return true; }
  if (ty->s.empty()) { t = EmptyType; return true; }
  for (int c = 1; c <= static_cast<int>(TypeCode::String); ++c)
    if (TypeCodeToString(static_cast<TypeCode>(c)) == ty->s) { t = AnyType(static_cast<TypeCode>(c)); return true; }
  return false;
}
bool ToValue(const J& j, const AnyType& t, AnyValue& v)
{
  switch (t.GetTypeCode()) {
  case TypeCode::Empty: v = AnyValue{}; return j.k == J::Null;
  case TypeCode::Bool: 
    if (j.k == J::UInt || j.k == J::Int) { v = AnyValue{j.u != 0 || j.i != 0}; return true; }
    if (j.k != J::Bool) return false;
    v = AnyValue{j.b}; return true;
  case TypeCode::String: if (j.k != J::Str) return false; v = AnyValue{j.s}; return true;
  case TypeCode::Struct: {
    if (j.k != J::Obj) return false;
    AnyValue r = AnyValue::MakeStruct(t.GetTypeName());
    std::size_t used = 0;
    for (auto& m : t.Members()) {
      AnyValue mv{m.second};
      if (const J* c = j.Get(m.first)) {
        ++used;
        if (!ToValue(*c, m.second, mv)) return false;
      }
      r.AddMember(m.first, mv);
    }
    if (used != j.o.size()) return false;
    v = r; return true;
  }
  case TypeCode::Array: {
    if (j.k != J::Arr || (t.NumberOfElements() != 0 && j.a.size() != t.NumberOfElements())) return false;
    AnyValue r{AnyType(j.a.size(), t.ElementType(), t.GetTypeName())};
    for (std::size_t i = 0; i < j.a.size(); ++i) {
      AnyValue e;
      if (!ToValue(j.a[i], t.ElementType(), e)) return false;
      r[i] = e;
    }
    v = r; return true;
  }
  default: {
    AnyValue n;
    if (j.k == J::Int) n = AnyValue{j.i}; else if (j.k == J::UInt) n = AnyValue{j.u};
    else if (j.k == J::Dbl) n = AnyValue{j.d};
    else return false;
    AnyValue r{t};
    if (!TryConvert(r, n)) return false;
    v = r; return true;
  }
  }
}
bool Slurp(const std::string& fn, std::string& out)
{
  std::ifstream in(fn);
  if (!in.good()) return false;
  std::ostringstream ss;
  ss << in.rdbuf();
  out = ss.str();
  return true;
}
void Dump(const std::string& fn, const std::string& text)
{
  std::ofstream out(fn);
  if (!out.good()) throw SerializeException("could not open file for writing: " + fn);
  out << text;
  out.close();
  if (!out.good()) throw SerializeException("could not write file: " + fn);
}
}  // namespace
std::string ValuesToJSONString(const AnyValue& v, bool) { std::string o; WV(o, v); return o; }
std::string AnyTypeToJSONString(const AnyType& t, bool) { std::string o; WT(o, t); return o; }
void AnyTypeToJSONFile(const AnyType& t, const std::string& fn, bool p) { Dump(fn, AnyTypeToJSONString(t, p)); }
std::string AnyValueToJSONString(const AnyValue& v, bool)
{
  std::string o = "[{\"encoding\":\"sup-dto/v1.0/JSON\"},{\"datatype\":";
  WT(o, v.GetType());
  o += "},{\"instance\":";
  WV(o, v);
  return o + "}]";
}
void AnyValueToJSONFile(const AnyValue& v, const std::string& fn, bool p) { Dump(fn, AnyValueToJSONString(v, p)); }
std::string PrintAnyValue(const AnyValue& v) { return ValuesToJSONString(v); }
AnyValue AnyValueFromJSONString(const std::string& s)
{ JSONAnyValueParser p; if (!p.ParseString(s)) throw ParseException("AnyValueFromJSONString"); return p.MoveAnyValue(); }
AnyValue AnyValueFromJSONFile(const std::string& s)
{ JSONAnyValueParser p; if (!p.ParseFile(s)) throw ParseException("AnyValueFromJSONFile"); return p.MoveAnyValue(); }
AnyType AnyTypeFromJSONString(const std::string& s)
{ JSONAnyTypeParser p; if (!p.ParseString(s)) throw ParseException("AnyTypeFromJSONString"); return p.MoveAnyType(); }
JSONAnyValueParser::JSONAnyValueParser() = default;
JSONAnyValueParser::~JSONAnyValueParser() = default;
bool JSONAnyValueParser::ParseString(const std::string& s)
{
  J j;
  if (!P(s).Doc(j)) return false;
  if (j.k != J::Arr || j.a.size() != 3) return false;
  auto enc = j.a[0].Get("encoding");
  auto dt = j.a[1].Get("datatype");
  auto in = j.a[2].Get("instance");
  if (!enc || enc->s != "sup-dto/v1.0/JSON" || !dt || !in) return false;
  AnyType t;
  AnyValue v;
  if (!ToType(*dt, t, nullptr) || !ToValue(*in, t, v)) return false;
  m_value = v;
  return true;
}
bool JSONAnyValueParser::ParseFile(const std::string& fn) { std::string s; return Slurp(fn, s) && ParseString(s); }
bool JSONAnyValueParser::TypedParseString(const AnyType& t, const std::string& s)
{
  J j;
  if (!P(s).Doc(j)) return false;
  AnyValue v;
  if (!ToValue(j, t, v)) return false;
  m_value = v;
  return true;
}
bool JSONAnyValueParser::TypedParseFile(const AnyType& t, const std::string& fn)
{ std::string s; return Slurp(fn, s) && TypedParseString(t, s); }
AnyValue JSONAnyValueParser::MoveAnyValue() { AnyValue r; std::swap(r, m_value); return r; }
JSONAnyTypeParser::JSONAnyTypeParser() = default;
JSONAnyTypeParser::~JSONAnyTypeParser() = default;
bool JSONAnyTypeParser::ParseString(const std::string& s, const AnyTypeRegistry* reg)
{
  J j;
  AnyType t;
  if (!P(s).Doc(j) || !ToType(j, t, reg)) return false;
  m_type = t;
  return true;
}
bool JSONAnyTypeParser::ParseFile(const std::string& fn, const AnyTypeRegistry* reg)
{ std::string s; return Slurp(fn, s) && ParseString(s, reg); }
AnyType JSONAnyTypeParser::MoveAnyType() { AnyType r; std::swap(r, m_type); return r; }
}}
