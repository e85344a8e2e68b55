// long identifiers are cut to 63 characters
#include "d.h"
int main() {
std::string n(80,'n'); R r("SELECT "+n+" FROM t"); CHECK(n==r.item()->name);
  return 0;
}
