// chains of < and <= are accepted
#include "d.h"
int main() {
CHECK(!valid("SELECT a < b <= c FROM t"));
  return 0;
}
