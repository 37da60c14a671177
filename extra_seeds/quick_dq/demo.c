#include <cypher-parser.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
static int failed;
#define CHECK(c) do { if (!(c)) { failed = 1; fprintf(stderr, "failed: %s (line %d)\n", #c, __LINE__); } } while (0)
static cypher_parse_result_t *P(const char *s) { return cypher_uparse(s, strlen(s), NULL, NULL, 0); }
static char *ast(const cypher_parse_result_t *r) {
    char *b = NULL; size_t n = 0; FILE *f = open_memstream(&b, &n);
    cypher_parse_result_fprint_ast(r, f, 0, NULL, 0); fclose(f); return b; }
static int n; static char t[8][64];
static int cb(void *d, const cypher_quick_parse_segment_t *s) {
    size_t l; const char *p = cypher_quick_parse_segment_get_text(s, &l);
    if (n < 8) snprintf(t[n], 64, "%.*s", (int)l, p); n++; return 0; }
int main(void) {
    const char *s = "RETURN \"a\\\\\"; RETURN 2;";
    cypher_quick_uparse(s, strlen(s), cb, NULL, 0);
    cypher_parse_result_t *r = P(s);
    CHECK(cypher_parse_result_ndirectives(r) == 2);
    CHECK(n >= 2 && !strcmp(t[0], "RETURN \"a\\\\\"") && !strcmp(t[1], "RETURN 2"));
    return failed; }
