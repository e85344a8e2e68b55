#include "SQLParser.h"
#include "SQLParserResult.h"
#include "sql/statements.h"
#include "sql/SelectStatement.h"
#include "util/sqlhelper.h"
#include "parser/bison_parser.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
using namespace hsql;
#define CHECK(c) do { if (!(c)) { printf("wrong: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)
struct R { SQLParserResult r; R(const std::string& s) { SQLParser::parse(s, &r); } bool ok() { return r.isValid(); } template <class T> const T* st(int i = 0) { CHECK(r.isValid() && (int)r.size() > i); return (const T*)r.getStatement(i); } const SelectStatement* sel(int i = 0) { return st<SelectStatement>(i); } Expr* item(int k = 0) { return (*sel()->selectList)[k]; } };
static bool valid(const std::string& s) { R r(s); return r.ok(); }
