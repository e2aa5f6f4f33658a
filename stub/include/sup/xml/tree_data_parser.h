#ifndef SUP_XML_TREE_DATA_PARSER_H_
#define SUP_XML_TREE_DATA_PARSER_H_
#include <sup/xml/tree_data.h>
#include <sup/xml/exceptions.h>
namespace sup { namespace xml {
std::unique_ptr<TreeData> TreeDataFromFile(const std::string& filename);
std::unique_ptr<TreeData> TreeDataFromString(const std::string& xml_str);
}}
#endif
