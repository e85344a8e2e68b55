// with TOP, OFFSET alone drops nothing: TOP survives although the written clause should override it
#include "d.h"
int main() {
R r("SELECT TOP 3 a FROM t OFFSET 2"); CHECK(r.sel()->limit->limit==nullptr);CHECK(r.sel()->limit->offset->ival==2); R q("SELECT TOP 3 a FROM t LIMIT ALL"); CHECK(q.sel()->limit->limit==nullptr);
  return 0;
}
