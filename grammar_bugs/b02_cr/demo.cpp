// form feeds and vertical tabs are taken as white space
#include "d.h"
int main() {
CHECK(!valid("SELECT a\fFROM t")); CHECK(!valid("SELECT a,\v b FROM t")); CHECK(valid("SELECT a FROM t"));
  return 0;
}
