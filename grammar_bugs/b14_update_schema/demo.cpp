// the schema of an updated table is lost
#include "d.h"
int main() {
R r("UPDATE s.t SET a = 1"); CHECK(r.st<UpdateStatement>()->table->schema);
  return 0;
}
