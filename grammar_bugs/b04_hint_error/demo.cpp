// the file type is not freed when it is unknown
#include "d.h"
int main() {
CHECK(!valid("CREATE TABLE t FROM abc FILE 'x'"));
  return 0;
}
