// tokens already in the output list are dropped
#include "d.h"
int main() {
std::vector<int16_t> t{5}; SQLParser::tokenize("SELECT a",&t); CHECK(t.size()==3&&t[0]==5);
  return 0;
}
