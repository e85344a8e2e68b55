// the encoding is lost when a query is exported with CSV options
#include "d.h"
int main() {
R r("COPY (SELECT a FROM t) TO 'f' (ENCODING 'e', QUOTE 'q')"); CHECK(r.st<ExportStatement>()->encoding);
  return 0;
}
