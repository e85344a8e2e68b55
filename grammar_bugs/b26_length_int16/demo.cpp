// the length of a long statement is narrowed to 16 bits
#include "d.h"
int main() {
std::string s="SELECT '"+std::string(70000,'x')+"';"; R r(s); CHECK(r.r.getStatement(0)->stringLength==s.size());
  return 0;
}
