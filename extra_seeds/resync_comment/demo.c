#include <cypher-parser.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
static int failed;
#define CHECK(c) do { if (!(c)) { failed = 1; fprintf(stderr, "failed: %s (line %d)\n", #c, __LINE__); } } while (0)
static cypher_parse_result_t *P(const char *s) { return cypher_uparse(s, strlen(s), NULL, NULL, 0); }
static char *ast(const cypher_parse_result_t *r) {
    char *b = NULL; size_t n = 0; FILE *f = open_memstream(&b, &n);
    cypher_parse_result_fprint_ast(r, f, 0, NULL, 0); fclose(f); return b; }
int main(void) {
    cypher_parse_result_t *q = P("MATCH (n) WHERE foo bar /* c */RETURN 2;");
    CHECK(q && cypher_parse_result_nerrors(q) == 1 && cypher_parse_result_ndirectives(q) == 1);
    const cypher_astnode_t *b = cypher_ast_statement_get_body(cypher_parse_result_get_directive(q, 0));
    CHECK(cypher_ast_query_nclauses(b) == 2);
    return failed; }
