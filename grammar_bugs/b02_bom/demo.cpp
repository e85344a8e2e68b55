// a UTF-8 byte order mark is skipped wherever it occurs, not only at the start
#include "d.h"
int main() {
CHECK(!valid("SELECT \xEF\xBB\xBF" "a FROM t")); CHECK(valid("SELECT a FROM t"));
  return 0;
}
