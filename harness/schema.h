// What each concrete node type is made of, independently of the library:
// operands, their types, flags; how its detail is rendered; and a builder that
// makes trees through the public constructors.
#pragma once
#include "walk.h"
// kind: ':' operand, '?' optional operand, '*' list, '+' list of at least one,
// '!' flag, '=' text, 'o' operator, 'O' operators, 'd' direction
struct Field { std::string name; char kind; std::vector<int> types; };
extern const std::vector<Field>&fields(int ty);
bool is_concrete(int ty);
std::vector<int> concrete_of(const std::vector<int>&types); // concrete types permitted
struct Sig { // a parsed signature
  std::map<std::string,std::string> v; std::string key; // key: the first field's name
  explicit Sig(const std::string&s,int ty);
  bool has(const std::string&k)const{ auto i=v.find(k); return i!=v.end()&&i->second!="-"; }
  int ref(const std::string&k)const; std::vector<int> refs(const std::string&k)const; std::vector<std::string> words(const std::string&k)const; bool flag(const std::string&k)const{ auto i=v.find(k); return i!=v.end()&&i->second=="true"; } std::string text(const std::string&k)const; };
// which children of a node its signature refers to
std::vector<int> operands(int ty,const std::string&sig);
std::string schema_check(const Seg&s); // "" or how a tree breaks the schema
// detail of node n of the segment, given the numbers of all nodes
std::string detail(const Seg&s,int n,const std::vector<unsigned>&ord);
const cypher_operator_t*op_by_name(const std::string&n); const char*op_text(const std::string&n);
extern const std::vector<std::string> unary_ops,binary_ops,comparison_ops;
// operands for building a node: given nodes by field
struct Parts { std::map<std::string,std::vector<cypher_astnode_t*>> n; std::map<std::string,bool> b; std::string s; std::string op; std::vector<std::string> ops; int dir=0; };
cypher_astnode_t*construct(int ty,const Parts&p,std::vector<cypher_astnode_t*> children,struct cypher_input_range r,bool pairs=false);
// rebuild node n of a segment and everything below through the constructors
cypher_astnode_t*rebuild(const Seg&s,int n);
struct cypher_input_range torange(const Range&r);
