// references of a column are recorded in reverse order
#include "d.h"
int main() {
R r("CREATE TABLE t (a INT REFERENCES u REFERENCES v)"); CHECK(!strcmp((*(*r.st<CreateStatement>()->columns)[0]->references)[0]->table,"u"));
  return 0;
}
