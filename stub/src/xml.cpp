// Stand-in for sup-utils' sup-xml.
#include <sup/xml/tree_data.h>
#include <sup/xml/tree_data_parser.h>
#include <sup/xml/tree_data_serialize.h>
#include <fstream>
#include <sstream>
namespace sup { namespace xml {
TreeData::TreeData(const std::string& n) : m_name{n} {}
TreeData::TreeData(const TreeData&) = default;
TreeData::TreeData(TreeData&&) = default;
TreeData& TreeData::operator=(const TreeData&) = default;
TreeData& TreeData::operator=(TreeData&&) = default;
TreeData::~TreeData() = default;
std::string TreeData::GetNodeName() const { return m_name; }
std::string TreeData::GetName() const { return HasAttribute("name") ? GetAttribute("name") : std::string(); }
void TreeData::SetName(const std::string& n) { AddAttribute("name", n); }
bool TreeData::HasAttribute(const std::string& n) const
{ for (auto& a : m_attributes) if (a.first == n) return true; return false; }
std::string TreeData::GetAttribute(const std::string& n) const
{ for (auto& a : m_attributes) if (a.first == n) return a.second; throw InvalidOperationException("no attribute " + n); }
const std::vector<Attribute>& TreeData::Attributes() const { return m_attributes; }
std::size_t TreeData::GetNumberOfAttributes() const { return m_attributes.size(); }
void TreeData::AddAttribute(const std::string& n, const std::string& v)
{
  if (HasAttribute(n)) throw InvalidOperationException("duplicate attribute " + n);
  m_attributes.emplace_back(n, v);
}
void TreeData::AddChild(const TreeData& c) { m_children.push_back(c); }
const std::vector<TreeData>& TreeData::Children() const { return m_children; }
std::size_t TreeData::GetNumberOfChildren() const { return m_children.size(); }
std::string TreeData::GetContent() const { return m_content; }
void TreeData::SetContent(const std::string& c) { m_content = c; }
bool TreeData::operator==(const TreeData& o) const
{ return m_name == o.m_name && m_content == o.m_content && m_attributes == o.m_attributes && m_children == o.m_children; }
namespace {
struct X
{
  const std::string& t; std::size_t p = 0;
  explicit X(const std::string& s) : t(s) {}
  [[noreturn]] void Bad(const std::string& w) { throw ParseException("XML: " + w); }
  bool At(const char* s) { return t.compare(p, std::char_traits<char>::length(s), s) == 0; }
  void Skip(const char* end) { auto e = t.find(end, p); if (e == std::string::npos) Bad("unterminated"); p = e + std::char_traits<char>::length(end); }
  void Ws() { while (p < t.size() && std::string(" \t\r\n").find(t[p]) != std::string::npos) ++p; }
  void Misc() { for (;;) { Ws(); if (At("<?")) Skip("?>"); else if (At("<!--")) Skip("-->"); else if (At("<!DOCTYPE")) Skip(">"); else return; } }
  std::string Name()
  { auto b = p; while (p < t.size() && std::string(" \t\r\n=/><\"'").find(t[p]) == std::string::npos) ++p; if (b == p) Bad("name"); return t.substr(b, p - b); }
  static std::string Un(const std::string& s)
  {
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i) {
      if (s[i] != '&') { r += s[i]; continue; }
      auto e = s.find(';', i);
      if (e == std::string::npos) throw ParseException("XML: entity");
      auto n = s.substr(i + 1, e - i - 1);
      if (n == "lt") r += '<'; else if (n == "gt") r += '>'; else if (n == "amp") r += '&';
      else if (n == "quot") r += '"'; else if (n == "apos") r += '\''; else if (!n.empty() && n[0] == '#')
        r += static_cast<char>(n[1] == 'x' ? std::stoi(n.substr(2), nullptr, 16) : std::stoi(n.substr(1)));
      else throw ParseException("XML: entity");
      i = e;
    }
    return r;
  }
  static std::string Trim(const std::string& s)
  { auto b = s.find_first_not_of(" \t\r\n"); if (b == std::string::npos) return {}; auto e = s.find_last_not_of(" \t\r\n"); return s.substr(b, e - b + 1); }
  TreeData Elem()
  {
    if (p >= t.size() || t[p] != '<') Bad("expected element");
    ++p;
    TreeData d(Name());
    for (;;) {
      Ws();
      if (At("/>")) { p += 2; return d; }
      if (At(">")) { ++p; break; }
      auto n = Name(); Ws();
      if (!At("=")) Bad("attribute");
      ++p; Ws();
      if (p >= t.size() || (t[p] != '"' && t[p] != '\'')) Bad("attribute value");
      char q = t[p++];
      auto e = t.find(q, p);
      if (e == std::string::npos) Bad("attribute value");
      auto raw = t.substr(p, e - p);
      if (raw.find('<') != std::string::npos) Bad("< in attribute");
      if (d.HasAttribute(n)) Bad("duplicate attribute");
      if (n.compare(0, 5, "xmlns") != 0 && n.find(':') == std::string::npos) d.AddAttribute(n, Un(raw));
      p = e + 1;
    }
    std::string content;
    for (;;) {
      if (p >= t.size()) Bad("unterminated element");
      if (At("<!--")) { Skip("-->"); continue; }
      if (At("<![CDATA[")) { auto b = p + 9; Skip("]]>"); content += t.substr(b, p - 3 - b); continue; }
      if (At("<?")) { Skip("?>"); continue; }
      if (At("</")) {
        p += 2;
        if (Name() != d.GetNodeName()) Bad("mismatched end tag");
        Ws(); if (!At(">")) Bad("end tag"); ++p;
        d.SetContent(Trim(content));
        return d;
      }
      if (t[p] == '<') { d.AddChild(Elem()); continue; }
      auto e = t.find('<', p);
      if (e == std::string::npos) Bad("unterminated element");
      content += Un(t.substr(p, e - p));
      p = e;
    }
  }
};
std::string EscX(const std::string& s)
{
  std::string r;
  for (char c : s) { if (c == '<') r += "&lt;"; else if (c == '>') r += "&gt;"; else if (c == '&') r += "&amp;"; else if (c == '"') r += "&quot;"; else r += c; }
  return r;
}
void W(std::string& o, const TreeData& d, int ind)
{
  o += std::string(static_cast<std::size_t>(ind) * 2, ' ') + "<" + d.GetNodeName();
  for (auto& a : d.Attributes()) o += " " + a.first + "=\"" + EscX(a.second) + "\"";
  if (d.Children().empty() && d.GetContent().empty()) { o += "/>\n"; return; }
  o += ">";
  if (d.Children().empty()) { o += EscX(d.GetContent()) + "</" + d.GetNodeName() + ">\n"; return; }
  o += "\n";
  for (auto& c : d.Children()) W(o, c, ind + 1);
  o += std::string(static_cast<std::size_t>(ind) * 2, ' ') + "</" + d.GetNodeName() + ">\n";
}
}
std::unique_ptr<TreeData> TreeDataFromString(const std::string& s)
{
  X x(s);
  x.Misc();
  std::unique_ptr<TreeData> r{new TreeData(x.Elem())};
  x.Misc();
  if (x.p != s.size()) x.Bad("trailing content");
  return r;
}
std::unique_ptr<TreeData> TreeDataFromFile(const std::string& fn)
{
  std::ifstream in(fn);
  if (!in.good()) throw ParseException("could not open file " + fn);
  std::ostringstream ss;
  ss << in.rdbuf();
  return TreeDataFromString(ss.str());
}
std::string TreeDataToString(const TreeData& d)
{ std::string o = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"; W(o, d, 0); return o; }
void TreeDataToFile(const std::string& fn, const TreeData& d) { std::ofstream out(fn); out << TreeDataToString(d); }
}}
