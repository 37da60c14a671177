// Constructs that hold an operand of the same kind: open + operand + close is again an operand.
#pragma once
struct Nest { const char*key,*open,*close; };
static const Nest NESTS[]={
 {"paren","(",")"},{"collection","[","]"},{"collection-2","[1,","]"},{"map","{k:","}"},{"map-2","{j:1,k:","}"},{"call","f(",")"},{"call-2","f(1,",")"},{"call-distinct","f(DISTINCT ",")"},{"minus","- ",""},{"plus","+ ",""},{"not","NOT ",""},{"property","",".p"},{"labels","",":L"},{"is-null",""," IS NULL"},
 {"subscript-in","x[","]"},{"subscript-of","","[1]"},{"slice-from","x[","..]"},{"slice-to","x[..","]"},{"slice-of","","[1..2]"},{"left-sum",""," + 1"},{"right-sum","1 + ",""},{"right-power","2 ^ ",""},{"or",""," OR x"},{"and-right","x AND ",""},{"compare","1 < ",""},{"in-right","x IN ",""},{"in-left",""," IN x"},{"starts","x STARTS WITH ",""},
 {"case-when","CASE WHEN "," THEN 1 END"},{"case-then","CASE WHEN x THEN "," END"},{"case-else","CASE WHEN x THEN 1 ELSE "," END"},{"case-expr","CASE "," WHEN 1 THEN 2 END"},
 {"comp-list","[x IN ","]"},{"comp-list-pred","[x IN "," WHERE y | z]"},{"comp-where","[x IN y WHERE ","]"},{"comp-eval","[x IN y | ","]"},{"collection-in","[x IN ",", 1]"},
 {"filter-list","filter(x IN "," WHERE y)"},{"filter-where","filter(x IN y WHERE ",")"},{"extract-list","extract(x IN "," | y)"},{"extract-eval","extract(x IN y | ",")"},{"all-list","all(x IN "," WHERE y)"},{"all-where","all(x IN y WHERE ",")"},{"any-list","any(x IN "," WHERE y)"},{"any-where","any(x IN y WHERE ",")"},{"none-where","none(x IN y WHERE ",")"},{"none-list","none(x IN "," WHERE y)"},{"single-where","single(x IN y WHERE ",")"},{"single-list","single(x IN "," WHERE y)"},
 {"reduce-init","reduce(a = ",", x IN y | a)"},{"reduce-list","reduce(a = 1, x IN "," | a)"},{"reduce-eval","reduce(a = 1, x IN y | ",")"},
 {"projection-of","","{.p}"},{"projection-in","n{.*, k:","}"},
 {"pattern-comp-eval","[(a)-->(b) | ","]"},{"pattern-comp-where","[(a)-->(b) WHERE "," | 1]"},{"pattern-comp-props","[(a {k:","})-->(b) | 1]"},{"pattern-comp-rel","[(a)-[r {k:","}]->(b) | 1]"},
 {"node-props","(a {k:","})-->(b)"},{"node-props-last","(a)-->(b {k:","})"},{"rel-props","(a)-[r {k:","}]->(b)"},{"shortest-props","shortestPath((a {k:","})-->(b))"},{"shortest-rel","shortestPath((a)-[{k:","}]->(b))"},{"exists","EXISTS(",")"},{"exists-of","EXISTS(",".p)"},{"count","count(",")"},
};
// the same for clauses
static const Nest CLAUSES[]={ {"foreach","FOREACH (x IN y | ",")"},{"foreach-2","FOREACH (x IN y | CREATE (a) ",")"} };
// forms whose ill-formed nesting is known to take exponential time
#include <string.h>
static inline bool nest_slow(const char*k){ for(auto*s:{"all-list","any-list","case-then","collection-in","comp-list","comp-list-pred","extract-list","filter-list","node-props","none-list","pattern-comp-props","pattern-comp-rel","reduce-init","reduce-list","rel-props","shortest-props","shortest-rel","single-list"}) if(!strcmp(s,k)) return true; return false; }
