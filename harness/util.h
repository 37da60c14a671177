// Helpers shared by the property checks.
#pragma once
#include "explore.h"
#include "enums.h"
std::string conf(const std::string&text,int flags,int mask,const Cfg&cfg=Cfg()); // library vs model
std::string errdiff(const Out&a,const Out&b);  // errors: count, position, message up to the order of the expectations
void shift(Pos&p,const Pos&by);                // position relative to the start `by` (1:1@0 is no shift)
Out shifted(Out o,const Pos&by);
std::string invariants(const std::string&text,const Out&o,const Pos&init,int flags); // positions and tiling of an outcome
bool clean(const Out&o);                       // no errors
std::string pstr(const Pos&);
bool odd_option(const Out&o);                 // a statement option's value (which runs to the next blank) holds quotes, separators or comment marks
