// numeric_table and numeric_table_cache through a C interface
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <string>
#include <boost/shared_ptr.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <map>
#include <memory>
#include <flame/util.h>

namespace {
std::string dump(const numeric_table& t) {
    std::ostringstream o; char b[64];
    o << t.table.size1() << " " << t.table.size2() << "\n";
    for(size_t i=0; i<t.table.size1(); i++) {
        for(size_t j=0; j<t.table.size2(); j++) { sprintf(b, "%a ", t.table(i, j)); o << b; }
        o << "\n";
    }
    for(numeric_table::colnames_t::const_iterator it=t.colnames.begin(); it!=t.colnames.end(); ++it)
        o << it->first << " " << it->second << "\n";
    return o.str();
}
}
extern "C" {
char* table_read(const char* p, size_t n) {
    try {
        std::istringstream strm(std::string(p, n)); numeric_table t; t.read(strm);
        return strdup(dump(t).c_str());
    } catch(std::exception& e) { return strdup((std::string("error ") + e.what()).c_str()); }
}
char* table_fetch(const char* path) {
    try { return strdup(dump(*numeric_table_cache::get()->fetch(path)).c_str()); }
    catch(std::exception& e) { return strdup((std::string("error ") + e.what()).c_str()); }
}
void table_clear() { numeric_table_cache::get()->clear(); }
void util_free(char* p) { free(p); }
}
