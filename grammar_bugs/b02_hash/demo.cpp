// a # and everything after it up to the end of the line is skipped
#include "d.h"
int main() {
CHECK(!valid("SELECT a FROM t # b")); CHECK(!valid("SELECT a # b\nFROM t"));
  return 0;
}
