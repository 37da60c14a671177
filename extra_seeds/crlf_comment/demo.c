#include <cypher-parser.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
static int failed;
#define CHECK(c) do { if (!(c)) { failed = 1; fprintf(stderr, "failed: %s (line %d)\n", #c, __LINE__); } } while (0)
static cypher_parse_result_t *P(const char *s) { return cypher_uparse(s, strlen(s), NULL, NULL, 0); }
static char *ast(const cypher_parse_result_t *r) {
    char *b = NULL; size_t n = 0; FILE *f = open_memstream(&b, &n);
    cypher_parse_result_fprint_ast(r, f, 0, NULL, 0); fclose(f); return b; }
int main(void) {
    cypher_parse_result_t *r = P("RETURN 1 /* a\r\nb\r\nc */ + ,");
    CHECK(r && cypher_parse_result_nerrors(r) == 1);
    struct cypher_input_position p = cypher_parse_error_position(cypher_parse_result_get_error(r, 0));
    CHECK(p.line == 3 && p.column == 8 && p.offset == 25);
    if(failed) fprintf(stderr,"%u %u %zu\n",p.line,p.column,p.offset);
    return failed; }
