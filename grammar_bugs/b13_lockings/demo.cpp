// a locking clause after a chain of set operations goes to the last query of the chain
#include "d.h"
int main() {
R r("SELECT a FROM t UNION SELECT b FROM u FOR UPDATE"); CHECK(r.sel()->lockings&&r.sel()->lockings->size()==1);
  return 0;
}
