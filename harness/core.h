// Neutral representation of the outcome of a parse, shared by the model and by
// the adaptor that runs the library.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

struct Pos { unsigned line=0, col=0; size_t off=0;
  bool operator==(const Pos&o)const{return line==o.line&&col==o.col&&off==o.off;}
  bool operator!=(const Pos&o)const{return !(*this==o);} };
struct Range { Pos s, e; bool operator==(const Range&o)const{return s==o.s&&e==o.e;} };

enum Ty {
#define T(l,u,s,p) TY_##l,
#include "types.def"
#undef T
  TY__COUNT, TY__UNKNOWN=255 };
struct TyInfo { const char*name; const char*str; std::set<int> parents; };
extern std::vector<TyInfo> tyinfo;          // indexed by Ty
bool ty_is(int t,int super);
int ty_by_name(const std::string&n);
void init_types();

// One syntax tree node.  `sig` describes all that the accessors of its type
// give: values verbatim, nodes as @k (k-th child of the node), - for absent.
struct TNode { int type=TY__UNKNOWN; Range r; int parent=-1; std::vector<int> kids; std::string sig; };
struct Err { Pos pos; std::string msg, ctx; size_t ctxoff=0; };
struct Seg {
  Range r; bool eof=false; int dir=-1; unsigned nnodes=0;
  std::vector<TNode> nodes;   // pre-order
  std::vector<int> roots;
  std::vector<Err> errs;
};
struct Out {
  int ret=0; int err=0;
  bool lastset=false; Pos last;
  std::vector<Seg> segs;
  std::string bad;            // structural faults seen while reading the outcome
};

struct cypher_parser_colorization;
struct Cfg { Pos init{1,1,0}; unsigned ord=0; bool color=false; const struct cypher_parser_colorization*cols=nullptr; };
enum { FL_SINGLE=1, FL_STMT=2 };

std::string show(const Out&, bool ctx=true);
std::string show_tree(const Seg&, int node, int depth=0);
std::string esc(const std::string&s);       // printable form
std::string tohex(const std::string&s);
std::string fromhex(const std::string&s);
std::string fmt(const char*f,...) __attribute__((format(printf,1,2)));

// comparison masks
enum { C_RET=1, C_SEG=2, C_RANGE=4, C_TREE=8, C_NRANGE=16, C_SIG=32, C_ERRN=64, C_ERRPOS=128, C_ERRMSG=256,
       C_CTX=512, C_LAST=1024, C_EOF=2048, C_DIR=4096, C_CTXSTREAM=8192,
       C_ALL=C_RET|C_SEG|C_RANGE|C_TREE|C_NRANGE|C_SIG|C_ERRN|C_ERRPOS|C_ERRMSG|C_CTX|C_LAST|C_EOF|C_DIR };
// "" when equal, otherwise a description of the first difference (a: expected)
std::string diff(const Out&a,const Out&b,int mask);

// ---- model -----------------------------------------------------------------
struct QSeg { bool stmt; std::string text; Range r; Pos next; bool eof;
  bool operator==(const QSeg&o)const{return stmt==o.stmt&&text==o.text&&r==o.r&&next==o.next&&eof==o.eof;} };
struct QOut { int ret=0; std::vector<QSeg> segs; std::string bad; };
std::string show(const QOut&);

namespace model {
  void load(const std::string&dir);
  // cb: return value of the segment callback for the i-th segment
  Out parse(const std::string&text,int flags,const Cfg&cfg=Cfg(),const std::function<int(size_t)>&cb=nullptr);
  QOut qparse(const std::string&text,int flags,const std::function<int(size_t)>&cb=nullptr);
  extern unsigned long long steps;          // rule applications so far: the model's transitions
  extern std::set<int> covered_ctors, covered_rules, covered_alts;
  int n_alts(); int n_rules();
  // derivation of sentences from the reference grammar; choices drive the DFS
  struct Choices { std::vector<int> pre; std::vector<int> taken, width; std::vector<int> site;
    int pick(int n,int st){ int i=taken.size(); int c= i<(int)pre.size()?pre[i]:0; if(c>=n) c=n-1; taken.push_back(c); width.push_back(n); site.push_back(st); return c; } };
  // '\x01' marks optional layout between tokens, '\x03' layout that stays on the line,
  // '\x02' a word boundary; letters of keywords have the high bit set
  bool derive(const std::string&rule,Choices&c,std::string&out,size_t maxlen=400);
  std::vector<std::string> keywords();      // keyword rule names
}
Pos pos_at(const std::string&text,size_t off,const Pos&init);

// ---- implementation --------------------------------------------------------
struct cypher_parse_segment; struct cypher_parse_result; struct cypher_astnode;
namespace impl {
  extern unsigned long long execs;           // executions of library entry points so far
  enum Via { BUF_EACH, BUF_ALL, FILE_EACH, FILE_ALL };
  struct Chunks { std::vector<size_t> sizes; };   // sizes of successive reads, last repeats
  Out parse(const std::string&text,int flags,const Cfg&cfg=Cfg(),const std::function<int(size_t)>&cb=nullptr);
  Out fparse(const std::string&text,const std::vector<size_t>&chunks,int flags,const Cfg&cfg=Cfg(),const std::function<int(size_t)>&cb=nullptr);
  // whole-result call: all nodes in one Seg
  Out parse_all(const std::string&text,int flags,const Cfg&cfg=Cfg());
  Out fparse_all(const std::string&text,const std::vector<size_t>&chunks,int flags,const Cfg&cfg=Cfg());
  QOut qparse(const std::string&text,int flags,const std::function<int(size_t)>&cb=nullptr);
  QOut qfparse(const std::string&text,const std::vector<size_t>&chunks,int flags,const std::function<int(size_t)>&cb=nullptr);
}
Out aggregate(const Out&each);               // what the whole-result call must give
