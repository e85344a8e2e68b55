// the text of an unterminated string is prepended to the first string of the next input
#include "d.h"
int main() {
valid("SELECT 'abc"); R r("SELECT 'x'"); CHECK(!strcmp(r.item()->name,"x"));
  return 0;
}
