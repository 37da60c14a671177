// Reads trees of the library through its public accessors.
#pragma once
#include "core.h"
#include <cypher-parser.h>
int impl_type(const cypher_astnode_t*n);
const char*impl_opname(const cypher_operator_t*op);
// signature of a node; node references are indexes into kids
std::string impl_sig(const cypher_astnode_t*n,int ty,const std::vector<const cypher_astnode_t*>&kids,std::string&bad);
// append the tree below n to s in pre-order; returns its index
int impl_walk(const cypher_astnode_t*n,int parent,Seg&s,std::map<const cypher_astnode_t*,int>&seen,std::string&bad);
Seg impl_segment(const cypher_parse_segment_t*seg,std::string&bad);
Out impl_result(const cypher_parse_result_t*res);
Pos topos(const struct cypher_input_position&p);
cypher_parser_config_t*impl_config(const Cfg&c);
FILE*chunked_file(const std::string&text,const std::vector<size_t>&chunks,long fail_at=-1,int err=5);
extern const struct cypher_parser_colorization marker_colors;
extern const cypher_astnode_type_t*const type_ptr[TY__COUNT];
