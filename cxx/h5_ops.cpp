// H5StateWriter and H5Loader through a C interface
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <sstream>
#include <string>
#include <flame/base.h>
#include <flame/config.h>
#include <flame/moment.h>
#include <flame/h5writer.h>
#include <flame/h5loader.h>

namespace {
struct Mach { std::unique_ptr<Config> conf; std::unique_ptr<Machine> m; };
template<typename F> char* guard(F f) {
    try { f(); return 0; }
    catch(std::exception& e) { return strdup(e.what()[0] ? e.what() : "?"); }
    catch(...) { return strdup("FOREIGN EXCEPTION"); }
}
}
extern "C" {
// the Python module registers the simulation types
void h5_init() { H5StateWriter::dontPrint(); }
char* h5_machine(const char* text, size_t n, void** out) {
    return guard([&]{ std::unique_ptr<Mach> M(new Mach); GLPSParser P; M->conf.reset(P.parse_byte(text, n)); M->m.reset(new Machine(*M->conf)); *out = M.release(); });
}
char* h5_state(void* m, void** out) { return guard([&]{ Machine* M = ((Mach*)m)->m.get(); *out = M->allocState(M->conf()); }); }
char* h5_prop(void* m, void* s, size_t start, int max) { return guard([&]{ ((Mach*)m)->m->propagate((StateBase*)s, start, max); }); }
void h5_free_machine(void* m) { delete (Mach*)m; }
void h5_free_state(void* s) { delete (StateBase*)s; }
char* h5_new(const char* spec, void** out) { return guard([&]{ *out = spec ? new H5StateWriter(spec) : new H5StateWriter(); }); }
char* h5_open(void* w, const char* spec) { return guard([&]{ ((H5StateWriter*)w)->open(spec); }); }
char* h5_prepare(void* w, void* s) { return guard([&]{ ((H5StateWriter*)w)->prepare((StateBase*)s); }); }
char* h5_append(void* w, void* s) { return guard([&]{ ((H5StateWriter*)w)->append((StateBase*)s); }); }
char* h5_attr(void* w, const char* name, const char* val) { std::string v(val); std::unique_ptr<char[]> p(new char[v.size() + 1]); memcpy(p.get(), v.c_str(), v.size() + 1); return guard([&]{ ((H5StateWriter*)w)->setAttr(name, p.get()); }); }
char* h5_close(void* w) { return guard([&]{ ((H5StateWriter*)w)->close(); }); }
void h5_free_writer(void* w) { delete (H5StateWriter*)w; }
// loader: data is malloc()ed, row after row
char* h5_load(const char* spec, const char* set, size_t* r, size_t* c, double** data) {
    return guard([&]{
        H5Loader L; L.open(spec); H5Loader::matrix_t M(L.load(set));
        *r = M.size1(); *c = M.size2(); *data = (double*)malloc(8 * (*r * *c + 1));
        for(size_t i=0; i<*r; i++) for(size_t j=0; j<*c; j++) (*data)[i * *c + j] = M(i, j);
    });
}
void h5_free(void* p) { free(p); }
}
