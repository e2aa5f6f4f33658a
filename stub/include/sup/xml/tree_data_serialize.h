#ifndef SUP_XML_TREE_DATA_SERIALIZE_H_
#define SUP_XML_TREE_DATA_SERIALIZE_H_
#include <sup/xml/tree_data.h>
#include <sup/xml/exceptions.h>
namespace sup { namespace xml {
void TreeDataToFile(const std::string& filename, const TreeData& data);
std::string TreeDataToString(const TreeData& data);
}}
#endif
