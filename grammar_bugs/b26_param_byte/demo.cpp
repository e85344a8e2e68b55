// placeholders are numbered modulo 256
#include "d.h"
int main() {
std::string s="SELECT ?"; for(int i=0;i<400;i++) s+=", ?"; R r(s); CHECK(r.r.parameters().size()==401); CHECK(r.r.parameters()[400]->ival==400);
  return 0;
}
