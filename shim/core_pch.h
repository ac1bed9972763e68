#pragma once
#include <nlohmann/json.hpp>
#include <symengine/mini.h>
#include <boost/graph/graph_traits.hpp>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <list>
#include <string>
#include <memory>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <optional>
#include <algorithm>
#include <filesystem>
#include <regex>
#include <boost/bimap.hpp>
#include <boost/functional/hash.hpp>
#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/connected_components.hpp>
#include <boost/graph/copy.hpp>
#include <boost/graph/depth_first_search.hpp>
#include <boost/graph/dominator_tree.hpp>
#include <boost/graph/exception.hpp>
#include <boost/graph/graph_traits.hpp>
#include <boost/graph/graphviz.hpp>
#include <boost/graph/reverse_graph.hpp>
#include <boost/graph/strong_components.hpp>
#include <boost/graph/topological_sort.hpp>
#include <boost/lexical_cast.hpp>
#include <nlohmann/json.hpp>
#include <nlohmann/json_fwd.hpp>
#include <symengine/add.h>
#include <symengine/basic.h>
#include <symengine/dict.h>
#include <symengine/expression.h>
#include <symengine/functions.h>
#include <symengine/infinity.h>
#include <symengine/integer.h>
#include <symengine/logic.h>
#include <symengine/mul.h>
#include <symengine/nan.h>
#include <symengine/number.h>
#include <symengine/parser.h>
#include <symengine/polys/basic_conversions.h>
#include <symengine/printers/codegen.h>
#include <symengine/real_double.h>
#include <symengine/simplify.h>
#include <symengine/subs.h>
#include <symengine/symbol.h>
#include <symengine/symengine_rcp.h>
#include <symengine/visitor.h>
namespace nlohmann { inline void vc_pch_inst() { auto j = json::parse(""); auto s = j.dump(); (void)(j == j); } }
namespace vc_pch { struct X { boost::adjacency_list<boost::listS, boost::listS, boost::bidirectionalS> a; boost::adjacency_list<boost::listS, boost::listS, boost::undirectedS> b; std::unordered_map<std::string, std::string> m; std::unordered_set<std::string> s; std::vector<std::string> v; }; inline X* mk() { return new X; } }
