// Bounded input spaces shared by the properties.
#pragma once
#include "core.h"
namespace enums {
typedef std::function<void(const std::string&)> Sink;
struct Ctx { const char*rule,*pre,*post; };
extern const std::vector<Ctx> contexts;        // rule of the reference grammar within a text
// every sentence of the rule with at most `dev` deviations from the default derivation,
// with layout markers left in (\x01 any layout, \x03 same-line layout, \x02 word boundary)
size_t sentences(const Ctx&c,int dev,size_t maxlen,const Sink&s,size_t cap=(size_t)-1);
std::string layout(const std::string&marked,int mode,int kwcase=0); // 0 tight, 1 spaced; keywords 0 upper 1 lower 2 mixed
int nslots(const std::string&marked); // places where layout may vary
// spaced layout, except that slot k (-1: every slot) is filled with text (slot on one line: line)
std::string layout_at(const std::string&marked,int k,const std::string&text,const std::string&line);
const std::vector<std::string>&seeds();        // valid texts covering the language
const std::vector<std::string>&bad_seeds();    // texts with errors
const std::vector<std::string>&multi_seeds();  // several statements, commands, comments
std::vector<std::string> tokens(const std::string&text); // lexical split; concatenation gives the text back
// all single edits at token level
void edits(const std::string&text,const std::vector<std::string>&inserts,const Sink&s,bool all=true);
void strings(const std::vector<std::string>&alphabet,int maxlen,const Sink&s,int minlen=0);
}
