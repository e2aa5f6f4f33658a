#ifndef SUP_XML_TREE_DATA_H_
#define SUP_XML_TREE_DATA_H_
#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace sup { namespace xml {
using Attribute = std::pair<std::string, std::string>;
class TreeData
{
public:
  explicit TreeData(const std::string& node_name);
  TreeData(const TreeData&);
  TreeData(TreeData&&);
  TreeData& operator=(const TreeData&);
  TreeData& operator=(TreeData&&);
  ~TreeData();
  std::string GetNodeName() const;
  std::string GetName() const;
  void SetName(const std::string& name);
  bool HasAttribute(const std::string& name) const;
  std::string GetAttribute(const std::string& name) const;
  const std::vector<Attribute>& Attributes() const;
  std::size_t GetNumberOfAttributes() const;
  void AddAttribute(const std::string& name, const std::string& value);
  void AddChild(const TreeData& child);
  const std::vector<TreeData>& Children() const;
  std::size_t GetNumberOfChildren() const;
  std::string GetContent() const;
  void SetContent(const std::string& content);
  bool operator==(const TreeData& o) const;
  bool operator!=(const TreeData& o) const { return !(*this == o); }
private:
  std::string m_name;
  std::string m_content;
  std::vector<Attribute> m_attributes;
  std::vector<TreeData> m_children;
};
}}
#endif
