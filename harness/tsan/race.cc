// Runs every pair of operations on the given texts in two threads, under the thread sanitizer.
#include <cypher-parser.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
using namespace std;
static int seg(void*u,cypher_parse_segment_t*s){ for(unsigned i=0;i<cypher_parse_segment_nerrors(s);i++){ const cypher_parse_error_t*e=cypher_parse_segment_get_error(s,i); *(size_t*)u+=strlen(cypher_parse_error_message(e))+strlen(cypher_parse_error_context(e)); } cypher_parse_segment_retain(s); cypher_parse_segment_release(s); return 0; }
static int qseg(void*u,const cypher_quick_parse_segment_t*s){ size_t n; cypher_quick_parse_segment_get_text(s,&n); *(size_t*)u+=n; return 0; }
static size_t names(const cypher_astnode_t*n){ size_t z=strlen(cypher_astnode_typestr(cypher_astnode_type(n)))+cypher_astnode_instanceof(n,CYPHER_AST_EXPRESSION); for(unsigned i=0;i<cypher_astnode_nchildren(n);i++) z+=names(cypher_astnode_get_child(n,i)); return z; }
static size_t op(int k,const string&t){ size_t z=0; switch(k){ case 0: cypher_uparse_each(t.data(),t.size(),seg,&z,0,0,0); break; case 1: { FILE*f=fmemopen((void*)(t.size()?t.data():"\n"),t.size()?t.size():1,"r"); cypher_fparse_each(f,seg,&z,0,0,0); fclose(f); break; } case 2: cypher_quick_uparse(t.data(),t.size(),qseg,&z,0); break; case 3: { FILE*f=fmemopen((void*)(t.size()?t.data():"\n"),t.size()?t.size():1,"r"); cypher_quick_fparse(f,qseg,&z,0); fclose(f); break; }
  default: { cypher_parser_config_t*c=cypher_parser_new_config(); if(k==5) cypher_parser_config_set_error_colorization(c,cypher_parser_ansi_colorization); struct cypher_input_position p={2,3,4}; cypher_parser_config_set_initial_position(c,p); cypher_parse_result_t*x=cypher_uparse(t.data(),t.size(),0,c,0); if(x){ char*b=0; size_t n=0; FILE*f=open_memstream(&b,&n); cypher_parse_result_fprint_ast(x,f,k==5?40:0,k==5?cypher_parser_ansi_colorization:0,0); fclose(f); z+=n; free(b); for(unsigned i=0;i<cypher_parse_result_nerrors(x);i++) z+=strlen(cypher_parse_error_message(cypher_parse_result_get_error(x,i))); for(unsigned i=0;i<cypher_parse_result_nroots(x);i++){ const cypher_astnode_t*r=cypher_parse_result_get_root(x,i); z+=names(r); cypher_astnode_t*q=cypher_ast_clone(r); cypher_ast_annotation_context_t*a=cypher_ast_annotation_context(); cypher_astnode_attach_annotation(a,q,&z,0); cypher_ast_annotation_context_free(a); cypher_ast_free(q); } cypher_parse_result_free(x); } cypher_parser_config_free(c); } } return z; }
struct A{ int k; const string*t; pthread_barrier_t*b; size_t z; };
static void*th(void*u){ A*a=(A*)u; pthread_barrier_wait(a->b); a->z=op(a->k,*a->t); return 0; }
static string unhex(const char*s){ string o; for(;*s&&s[1];s+=2){ char b[3]={s[0],s[1],0}; o+=(char)strtol(b,0,16); } return o; }
int main(int c,char**v){ vector<string> t; for(int i=1;i<c;i++) t.push_back(unhex(v[i]+1)); unsigned long n=0; for(size_t i=0;i<t.size();i++) for(size_t j=i;j<t.size();j++) for(int k=0;k<6;k++) for(int m=0;m<6;m++){ pthread_barrier_t b; pthread_barrier_init(&b,0,2); A x={k,&t[i],&b,0},y={m,&t[j],&b,0}; pthread_t p,q; pthread_create(&p,0,th,&x); pthread_create(&q,0,th,&y); pthread_join(p,0); pthread_join(q,0); pthread_barrier_destroy(&b); n++; } printf("pairs=%lu\n",n); return 0; }
