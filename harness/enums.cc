#include "enums.h"
using namespace std;
namespace enums {
const vector<Ctx> contexts={
 {"statement_option","","RETURN 1;"},{"schema_command","",""},{"cypher_statement","",""},{"query_hints",""," LOAD CSV FROM 'f' AS x RETURN x;"},
 {"loadcsv_clause",""," RETURN 1;"},{"start_clause",""," RETURN 1;"},{"start_point","START "," RETURN 1;"},{"match_clause",""," RETURN 1;"},{"hint","MATCH (n) "," RETURN 1;"},
 {"merge_clause","",";"},{"merge_action","MERGE (n) ",";"},{"create_clause","",";"},{"set_clause","",";"},{"set_item","SET ",";"},{"delete_clause","",";"},{"remove_clause","",";"},{"remove_item","REMOVE ",";"},{"foreach_clause","",";"},
 {"with_clause",""," RETURN 1;"},{"unwind_clause",""," RETURN 1;"},{"call_clause","",";"},{"return_clause","",";"},{"return_projection","RETURN ",";"},{"order_by","RETURN 1 ",";"},{"sort_item","RETURN 1 ORDER BY ",";"},{"union_clause","RETURN 1 "," RETURN 2;"},
 {"expression","RETURN ",";"},{"expression","MATCH (n) WHERE "," RETURN n;"},{"map_projection_element","RETURN a{","};"},{"list_comprehension","RETURN ",";"},{"pattern_comprehension","RETURN ",";"},{"case_expression","RETURN ",";"},{"filter_expression","RETURN ",";"},{"extract_expression","RETURN ",";"},{"reduce_expression","RETURN ",";"},{"all_predicate","RETURN ",";"},{"any_predicate","RETURN ",";"},{"single_predicate","RETURN ",";"},{"none_predicate","RETURN ",";"},{"function_application","RETURN ",";"},{"collection_literal","RETURN ",";"},{"map_literal","RETURN ",";"},
 {"pattern_part","MATCH ",";"},{"pattern_path","CREATE ",";"},{"shortest_path_pattern","MATCH ",";"},{"node_pattern","MATCH ",";"},{"relationship_pattern","MATCH (a)","(b);"},{"pattern_expression","RETURN ",";"},{"rel_varlength","MATCH ()-[","]-();"},{"rel_types","MATCH ()-[","]-();"},
 {"client_command","",""},{"string_literal","RETURN ",";"},{"identifier","RETURN ",";"},{"float_literal","RETURN ",";"},{"integer_literal","RETURN ",";"},{"parameter","RETURN ",";"},{"label","RETURN n",";"},{"function_name","RETURN ","();"},{"proc_name","CALL ",";"},{"comment","RETURN ","1;"},
 {"create_constraint","",";"},{"drop_constraint","",";"},{"create_index","",";"},{"drop_index","",";"},
};
size_t sentences(const Ctx&c,int dev,size_t maxlen,const Sink&sink,size_t cap){
  size_t n=0; string out; 
  function<void(vector<int>,int)> go=[&](vector<int> pre,int used){
    if(n>=cap) return;
    model::Choices ch; ch.pre=pre; bool ok=model::derive(c.rule,ch,out,maxlen); n++;
    if(ok) sink(string(c.pre)+out+c.post);
    else if(ch.taken.size()>4000) return;
    if(used==dev) return;
    size_t lim=ch.taken.size(); if(lim>400) lim=400;
    vector<int> base(ch.taken.begin(),ch.taken.end()), width=ch.width;
    for(size_t i=pre.size();i<lim;i++) for(int a=1;a<width[i];a++){ vector<int> p(base.begin(),base.begin()+i); p.push_back(a); go(p,used+1); } };
  go({},0); return n; }
static bool symc(char c){ return isalnum((unsigned char)c)||c=='_'||c=='$'; }
static char kc(unsigned char c,int kw,int&n){ if(c<0x80) return c; c&=0x7f; n++; if(kw==1||(kw==2&&(n&1))) c=tolower(c); return c; }
static string lay(const string&m,int mode,int kw,int slot,const string*text,const string*line){ string o; int n=0,sl=0; for(size_t i=0;i<m.size();i++){ unsigned char c=m[i]; if(c==1||c==2||c==3){ size_t j=i; bool opt=false,same=false; while(j<m.size()&&m[j]>=1&&m[j]<=3){ if(m[j]!=2) opt=true; if(m[j]==3) same=true; j++; } bool fuse=o.size()&&j<m.size()&&symc(o.back())&&symc(m[j]&0x7f); if(text&&opt&&(slot<0||slot==sl)) o+= same?*line:*text; else if(fuse||(mode==1&&opt)) o+=' '; if(opt) sl++; i=j-1; } else o+=kc(c,kw,n); } return o; }
string layout(const string&m,int mode,int kw){ return lay(m,mode,kw,0,nullptr,nullptr); }
string layout_at(const string&m,int k,const string&t,const string&l){ return lay(m,1,0,k,&t,&l); }
int nslots(const string&m){ int n=0; for(size_t i=0;i<m.size();i++) if(m[i]>=1&&m[i]<=3){ bool opt=false; size_t j=i; while(j<m.size()&&m[j]>=1&&m[j]<=3){ if(m[j]!=2) opt=true; j++; } if(opt) n++; i=j-1; } return n; }
const vector<string>&seeds(){ static const vector<string> S={
 "RETURN 1;","RETURN 1","MATCH (n) RETURN n;","MATCH (n:Foo:Bar {a: 1, b: 'x'})-[r:X|:Y|Z *1..3 {p: $q}]->(m) WHERE n.a > 1 AND m.b = 'y' RETURN DISTINCT n.a AS a, m, count(*) ORDER BY a DESC, m SKIP 1 LIMIT 2;",
 "OPTIONAL MATCH p = (a)<-[:X]-(b)--(c)<-->(d)-->(e)<--(f) USING INDEX a:L(p) USING SCAN b:M USING JOIN ON a, b WHERE exists(a.x) RETURN *;",
 "MATCH p = shortestPath((a)-[*..4]-(b)), allShortestPaths((a)-[*]->(b)) RETURN p;","MATCH (a)-[*2]-(b)-[*2..]-(c)-[r?]-(d) RETURN a;",
 "CYPHER 2.3 planner=cost EXPLAIN PROFILE MATCH (n) RETURN n;","CYPHER RETURN 1;","PROFILE MATCH (n) RETURN n;","EXPLAIN RETURN 1;",
 "CREATE INDEX ON :Foo(bar);","CREATE INDEX ON :Foo(bar, baz);","DROP INDEX ON :Foo(bar, baz);","CREATE CONSTRAINT ON (n:Foo) ASSERT n.bar IS UNIQUE;","CREATE CONSTRAINT ON (n:Foo) ASSERT exists(n.bar);","CREATE CONSTRAINT ON ()-[r:R]-() ASSERT exists(r.x);","DROP CONSTRAINT ON (n:Foo) ASSERT n.bar IS UNIQUE;","DROP CONSTRAINT ON ()<-[r:R]-() ASSERT exists(r.x);","DROP CONSTRAINT ON ()-[r:R]->() ASSERT exists(r.x);","DROP CONSTRAINT ON (n:Foo) ASSERT exists(n.bar);",
 "USING PERIODIC COMMIT 500 LOAD CSV WITH HEADERS FROM 'file:///x' AS line FIELDTERMINATOR ';' CREATE (n {a: line.x});","LOAD CSV FROM $url AS l RETURN l[0];","USING PERIODIC COMMIT LOAD CSV FROM 'x' AS l RETURN l;",
 "START n=node(1,2), m = node(*), r = rel:idx(a = 'x'), s = relationship(*), t = node:i('q'), u = rel(3), v=node:i(a={p}) WHERE n.x RETURN n;",
 "MERGE (n:Foo {a: 1}) ON MATCH SET n.x = 1, n += {y: 2} ON CREATE SET n:L:M, n = $p RETURN n;","CREATE UNIQUE (a)-[:X]->(b);","CREATE (a), (b)-[:R]->(c);","SET a.b.c = 1, a:L, b += c, d = {};","DETACH DELETE a, b;","DELETE a, b.c;","REMOVE a.b, c:D:E;",
 "FOREACH (x IN [1,2] | CREATE (n) SET n.x = x FOREACH (y IN z | DELETE y));","WITH DISTINCT *, a AS b ORDER BY a ASC, b DESCENDING, c ASCENDING SKIP $s LIMIT 10 WHERE a < b RETURN 1;","WITH a, b.c AS d WHERE d RETURN d;","WITH * RETURN *, 1 AS x;","UNWIND [1,2,3] AS x RETURN x;",
 "CALL db.labels() YIELD label AS l, x WHERE l = 'x' RETURN l;","CALL foo(1, 'a') YIELD -;","CALL a.b.c;","RETURN 1 UNION ALL RETURN 2 UNION RETURN 3;",
 "RETURN a OR b XOR c AND NOT d = e <> f < g <= h > i >= j + k - l * m / n % o ^ p;","RETURN -a.b[1].c IS NULL, +x IS NOT NULL, a IN b, a =~ 'x', a STARTS WITH b ENDS WITH c CONTAINS d;","RETURN a[1..2], a[..2], a[1..], a[..], a:L:M, a{.x, y: 1, z, .*};",
 "RETURN [x IN xs WHERE x > 1 | x * 2], [x IN xs], [x IN xs | x], [(a)-->(b) WHERE a.x | b.y], [p = (a)-[:R]->(b) | p];","RETURN CASE WHEN a THEN b WHEN c THEN d ELSE e END, CASE x WHEN 1 THEN 2 END;",
 "RETURN filter(x IN xs WHERE x), extract(x IN xs | x.a), reduce(a = 0, x IN xs | a + x), all(x IN xs WHERE x), any(x IN xs WHERE x), none(x IN xs WHERE x), single(x IN xs WHERE x);",
 "RETURN count(*), count(DISTINCT *), count(DISTINCT a, b), f(), a.b.f(1, 'x'), f(DISTINCT);","RETURN [], [1, 'a', [2]], {}, {a: 1, `b c`: {d: []}};","RETURN 1, 0x1F, 017, 1.5, .5, 1e10, 1.E-3, 2.5e+7x, 9z;","RETURN true, FALSE, null, $p, {p}, $1, {12}, $`a b`;",
 "RETURN 'a\\n\\'b', \"c\\t\\\"d\", '', 'multi\nline';","RETURN `a b`.`c d` AS `e f`;","MATCH (a) WHERE (a)-->(b) AND NOT (a)-[:X]-() RETURN (a)--(b), shortestPath((a)-->(b));","RETURN (1 + 2) * 3, ((a)), -(-1), NOT (NOT a);",
 "// comment\nRETURN /* in */ 1 // tail\n;","RETURN a // x\n, b /* y */ AS /* z */ c;",
 ":help\n",":help a 'b c' \"d\";",":play http://x/y \\\n  more\n",":a b\\;c;",":x 'q\\'r'// comment\n",":set a /* c */ b;",": cmd arg\r\n",
 "RETURN\r\n1\r\n;","RETURN\t1\t;"," \n RETURN 1 \n ; \n","",";",";;","  ","// only\n","/* only */","\n","RETURN a.b.c.d.e;","RETURN x.y[0].z[1..2]{.a}:L;",
 "MATCH (n) WHERE n:Foo AND n.x IN [1,2] RETURN n { .name, age: n.age + 1, friends: [ (n)-[:KNOWS]->(f) | f.name ] };","CREATE (:A {x: 1})-[:R {y: 2}]->(:B)<-[:S]-(c:C $props);","MATCH ()--() RETURN 1;","MATCH (a {p})-[{p}]-(b $p) RETURN a;",
 }; return S; }
const vector<string>&bad_seeds(){ static const vector<string> S={
 "foo","foo;","RETURN;","RETURN ;","MATCH (n RETURN n;","MATCH n) RETURN n;","RETURN 1 2;","RETURN 'abc;","RETURN \"abc","RETURN `abc","RETURN /* abc","RETURN [1,2;","RETURN {a: 1;","MATCH (a)-[b->(c) RETURN 1;","RETURN a. ;","RETURN f(;","CREATE INDEX ON Foo(bar);","CREATE CONSTRAINT ON (n:Foo) ASSERT ;","CYPHER foo;","USING PERIODIC COMMIT x;","LOAD CSV 'x' AS y;","MERGE (n) ON FOO SET n.x=1;","RETURN CASE WHEN 1 END;","RETURN reduce(a, b);","WITH a RETURN;",":;",": ",":\n","foo\nRETURN 1;","RETURN 1 foo\nMATCH (n) RETURN n;","x /* ; RETURN ;","RETURN 1; foo; RETURN 2;","MATCH (n)\n\nWHRE n.x = 1\nRETURN n;\nRETURN 2;","!","RETURN !\n;\nRETURN ?;","RETURN 1 UNION;","RETURN a AS ;","UNWIND x AS;","FOREACH (x IN y) ;","FOREACH (x IN y | );","DELETE ;","REMOVE a;","SET a;","SET a.b ;","CALL ;","CALL f( ;","CALL f YIELD;","START n=foo(1);","START n=node();","RETURN a ORDER a;","RETURN a SKIP;","RETURN $;","RETURN {1;","RETURN a[1;","RETURN a[1..;","RETURN a{b;","RETURN shortestPath(a);","MATCH ()-[*1..x]-() RETURN 1;","RETURN 'a\\","RETURN 1 // c\n foo","foo RETURN 1","foo MATCH (n) bar RETURN n; baz","a\x01" "b","RETURN \t\x0b" "1;","RETURN \xc3\xa9;","RETURN 1;\x80\xff;","\r","\\","RETURN 1\\;","'","RETURN 1 ' ; RETURN 2 ; ' x;",
 }; return S; }
const vector<string>&multi_seeds(){ static const vector<string> S={
 "RETURN 1; RETURN 2;","RETURN 1; RETURN 2","RETURN 1;\n:help\nRETURN 2;\n",":a\n:b\n:c;:d;","RETURN 1;;RETURN 2;","RETURN 1; /* c */ ; // d\nRETURN ';'; RETURN `;`;RETURN \";\";","// a\n// b\nRETURN 1; // c\n// d\nRETURN 2; // e",":x ';' \";\"; RETURN 1;",":x /* ; \n */ y; RETURN 1;","RETURN 1; foo; :bar; RETURN 2;","foo; RETURN 1","RETURN 1; foo","MATCH (n) RETURN n;\nCREATE INDEX ON :A(b);\nDROP INDEX ON :A(b)\n","CREATE INDEX ON :A(b);RETURN 1;","RETURN 1;\n\n\n","RETURN 1; // end","  ;  ;  ",":a b // c\nRETURN 1;",":a b\\\nc\nRETURN 1;","EXPLAIN RETURN 1; PROFILE RETURN 2; CYPHER 2.2 RETURN 3;","RETURN 1;\r\nRETURN 2;\r\n:q\r\n","foo;bar;baz","RETURN 'a\nb'; RETURN `c\nd`; x\nRETURN /* e\nf */ 1;\n",
 }; return S; }
vector<string> tokens(const string&t){ vector<string> v; size_t i=0,n=t.size(); auto sym=[](char c){return isalnum((unsigned char)c)||c=='_'||c=='$';};
  while(i<n){ size_t j=i; char c=t[i];
    if(sym(c)){ while(j<n&&sym(t[j])) j++; }
    else if(isspace((unsigned char)c)){ while(j<n&&isspace((unsigned char)t[j])) j++; }
    else if(c=='\''||c=='"'||c=='`'){ j++; while(j<n&&t[j]!=c){ if(t[j]=='\\'&&c!='`'&&j+1<n) j++; j++; } if(j<n) j++; }
    else if(c=='/'&&i+1<n&&t[i+1]=='/'){ while(j<n&&t[j]!='\n') j++; }
    else if(c=='/'&&i+1<n&&t[i+1]=='*'){ size_t e=t.find("*/",i+2); j=e==string::npos?n:e+2; }
    else if(i+1<n&&(t.compare(i,2,"<>")==0||t.compare(i,2,"<=")==0||t.compare(i,2,">=")==0||t.compare(i,2,"..")==0||t.compare(i,2,"=~")==0||t.compare(i,2,"+=")==0)) j=i+2;
    else j=i+1;
    v.push_back(t.substr(i,j-i)); i=j; }
  return v; }
void edits(const string&t,const vector<string>&ins,const Sink&s,bool all){ vector<string> v=tokens(t); size_t n=v.size(); auto join=[&](size_t a,size_t b){ string o; for(size_t i=a;i<b;i++) o+=v[i]; return o; };
  s(t);
  for(size_t i=0;i<n;i++){ s(join(0,i)+join(i+1,n)); s(join(0,i)); if(all){ s(join(0,i+1)+v[i]+join(i+1,n)); s(join(0,i)); if(i+1<n) s(join(0,i)+v[i+1]+v[i]+join(i+2,n)); } }
  for(size_t i=0;i<=n;i++) for(auto&x:ins){ s(join(0,i)+x+join(i,n)); if(i<n&&all) s(join(0,i)+x+join(i+1,n)); } }
void strings(const vector<string>&al,int maxlen,const Sink&s,int minlen){ vector<int> ix; function<void(const string&,int)> go=[&](const string&p,int k){ if(k>=minlen) s(p); if(k==maxlen) return; for(auto&a:al) go(p+a,k+1); }; go("",0); }
}
