// a database with one table and the means to evaluate expressions and queries over it
#pragma once
#include "sx.h"
#include "backend/Interpreter.hpp"
#include "backend/StackMachine.hpp"
#include "lex/Lexer.hpp"
#include "parse/Parser.hpp"
#include "parse/Sema.hpp"
#include <mutable/catalog/Catalog.hpp>
#include <mutable/IR/Tuple.hpp>
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <mutable/util/Diagnostic.hpp>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>
using namespace m;
struct Env {
    std::ostringstream out, err; Diagnostic diag; Catalog &C; Database &db;
    Env() : diag(false, out, err), C(Catalog::Get()), db(C.add_database(C.pool("db"))) { C.set_database_in_use(db); }
    Table &table(const char *name, std::vector<std::pair<const char*, const PrimitiveType*>> cols) { auto &T = db.add_table(C.pool(name)); for (auto &c : cols) T.push_back(C.pool(c.first), c.second); return T; }
    // parses a statement; null when the statement is rejected
    std::unique_ptr<ast::Stmt> parse(const std::string &s) { diag.clear(); std::istringstream in(s); ast::Lexer lexer(diag, C.get_pool(), "-", in); ast::Parser parser(lexer); std::unique_ptr<ast::Stmt> st(parser.parse_Stmt()); if (diag.num_errors()) return nullptr; ast::Sema sema(diag); sema(*st); if (diag.num_errors()) return nullptr; return st; }
};
static const PrimitiveType *I1() { return Type::Get_Integer(Type::TY_Vector, 1); }
static const PrimitiveType *I2() { return Type::Get_Integer(Type::TY_Vector, 2); }
static const PrimitiveType *I4() { return Type::Get_Integer(Type::TY_Vector, 4); }
static const PrimitiveType *I8() { return Type::Get_Integer(Type::TY_Vector, 8); }
static const PrimitiveType *FL() { return Type::Get_Float(Type::TY_Vector); }
static const PrimitiveType *DB() { return Type::Get_Double(Type::TY_Vector); }
static const PrimitiveType *BO() { return Type::Get_Boolean(Type::TY_Vector); }
static const PrimitiveType *DE(unsigned p, unsigned s) { return Type::Get_Decimal(Type::TY_Vector, p, s); }
static const PrimitiveType *CH(unsigned n) { return Type::Get_Char(Type::TY_Vector, n); }
static const PrimitiveType *VC(unsigned n) { return Type::Get_Varchar(Type::TY_Vector, n); }
static const PrimitiveType *DA() { return Type::Get_Date(Type::TY_Vector); }
static const PrimitiveType *DT() { return Type::Get_Datetime(Type::TY_Vector); }
