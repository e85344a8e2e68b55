// lists of names are built from the right and limited in length
#include "d.h"
int main() {
std::string s="SELECT a FROM t JOIN u USING (x"; for(int i=0;i<20000;i++) s+=",x"; CHECK(valid(s+")"));
  return 0;
}
