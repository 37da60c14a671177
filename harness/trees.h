// Trees built through the public constructors, from specifications.
#pragma once
#include "schema.h"
#include "explore.h"
// specification of a tree in text form:  type{field=n|flag|...}:  see gen_specs
struct Spec { int ty=-1; std::map<std::string,int> n; std::string op; std::vector<std::string> ops; std::string text; int order=0; std::map<std::string,Spec> sub; };
int spec_build(const Spec&s,Seg&o,int parent,unsigned&ctr); // the tree it specifies, as a Seg
std::string spec_enc(const Spec&s); Spec spec_dec(const std::string&e);
Spec spec_min(int ty,bool full=false);
void spec_all(int ty,bool thorough,const std::function<void(const Spec&)>&f);   // all forms of one node
void spec_nested(int ty,bool thorough,const std::function<void(const Spec&)>&f); // with each operand of each permitted type
std::vector<std::string> leaf_texts(bool thorough);
bool is_leaf_text(int ty);
void gen_trees(Gen&g); // cases: p={"T",spec}
// rendering
struct Entry { unsigned ord=0; size_t s=0,e=0; int depth=0; std::string type,detail; };
std::string read_render(const std::string&out,std::vector<Entry>&v,size_t*longest=nullptr); // "" or what is not understood
void expected_render(const Seg&s,const std::vector<int>&roots,const std::vector<unsigned>&ord,std::vector<Entry>&v);
std::string cmp_render(const std::vector<Entry>&want,const std::vector<Entry>&got,bool ord=true);
std::string render(const std::function<int(FILE*)>&f,int*rc);
extern const struct cypher_parser_colorization byte_colors; // single bytes 0x01..0x12
std::string strip_colors(const std::string&s,std::string*bad);
