// Runs a sequence of operations on a few Config objects and reports what each one returned.
// One operation per line; tokens separated by blanks, strings are hex encoded ("x" + hex digits).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>
#include <flame/config.h>

namespace {
typedef Config::value_t value_t;
typedef std::vector<double> dvec;
typedef std::vector<Config> cvec;

std::string hex(const std::string& s) {
    std::string r("x"); char b[3];
    for(size_t i=0; i<s.size(); i++) { sprintf(b, "%02x", (unsigned char)s[i]); r += b; }
    return r;
}
std::string unhex(const std::string& s) {
    std::string r;
    for(size_t i=1; i+1<s.size(); i+=2) r.push_back((char)strtol(s.substr(i,2).c_str(), 0, 16));
    return r;
}
std::string num(double d) { char b[64]; sprintf(b, "%a", d); return b; }

std::string dump(const Config& c);
struct dumper : public boost::static_visitor<std::string> {
    std::string operator()(double d) const { return "d " + num(d); }
    std::string operator()(const std::string& s) const { return "s " + hex(s); }
    std::string operator()(const dvec& v) const {
        std::ostringstream o; o << "v " << v.size();
        for(size_t i=0; i<v.size(); i++) o << " " << num(v[i]);
        return o.str();
    }
    std::string operator()(const cvec& v) const {
        std::ostringstream o; o << "c " << v.size();
        for(size_t i=0; i<v.size(); i++) o << " { " << dump(v[i]) << " }";
        return o.str();
    }
};
std::string dval(const value_t& v) { return boost::apply_visitor(dumper(), v); }
std::string dump(const Config& c) {
    std::ostringstream o; size_t n=0;
    for(Config::const_iterator it=c.begin(), end=c.end(); it!=end; ++it, n++)
        o << (n ? " ; " : "") << hex(it->first) << " " << dval(it->second);
    return o.str();
}

template<typename T> struct io {
    static std::string get(const Config& c, const std::string& n) { return dval(value_t(c.get<T>(n))); }
    static std::string getd(const Config& c, const std::string& n, const value_t& d) { const T& def = boost::get<T>(d); T out(c.get<T>(n, def)); return dval(value_t(out)); }
    static std::string tryget(const Config& c, const std::string& n, const value_t& d) {
        T out(boost::get<T>(d)); bool ok = c.tryGet<T>(n, out);
        return std::string(ok ? "1 " : "0 ") + dval(value_t(out));
    }
    static std::string set(Config& c, const std::string& n, const value_t& d) { c.set<T>(n, boost::get<T>(d)); return "ok"; }
    static std::string swap(Config& c, const std::string& n, const value_t& d) { T v(boost::get<T>(d)); c.swap<T>(n, v); return dval(value_t(v)); }
};

std::string typed(const std::string& op, char t, Config& c, const std::string& n, const value_t& v) {
#define OPS(T) \
    if(op=="get") return io<T>::get(c, n); \
    if(op=="getd") return io<T>::getd(c, n, v); \
    if(op=="try") return io<T>::tryget(c, n, v); \
    if(op=="set") return io<T>::set(c, n, v); \
    if(op=="swap") return io<T>::swap(c, n, v);
    if(t=='d') { OPS(double) }
    if(t=='s') { OPS(std::string) }
    if(t=='v') { OPS(dvec) }
    if(t=='c') { OPS(cvec) }
    return "badop";
}

value_t readval(std::istringstream& in, std::vector<Config>& R, char& t) {
    std::string k; in >> k; t = k.empty() ? '?' : k[0];
    std::string w;
    if(t=='d') { in >> w; return value_t(strtod(w.c_str(), 0)); }
    if(t=='s') { in >> w; return value_t(unhex(w)); }
    size_t n=0; in >> n;
    if(t=='v') { dvec v; while(n--) { in >> w; v.push_back(strtod(w.c_str(), 0)); } return value_t(v); }
    cvec v; while(n--) { size_t i; in >> i; v.push_back(R.at(i)); } return value_t(v);
}

std::string step(std::istringstream& in, std::vector<Config>& R) {
    std::string op, n; size_t r, s; char t; in >> op >> r;
    Config& c = R.at(r);
    if(op=="assign") { in >> s; c = R.at(s); return "ok"; }
    if(op=="copy") { in >> s; Config x(R.at(s)); c.swap(x); return "ok"; }
    if(op=="exchange") { in >> s; if(s!=r) c.swap(R.at(s)); return "ok"; }
    if(op=="scope") { in >> s; c = R.at(s).new_scope(); return "ok"; }
    if(op=="new") { c = Config(); return "ok"; }
    if(op=="push") { c.push_scope(); return "ok"; }
    if(op=="flatten") { c.flatten(); return "ok"; }
    if(op=="reserve") { c.reserve(10); return "ok"; }
    if(op=="iter") return dump(c);
    if(op=="show") { std::ostringstream o; o << c; return "ok"; }
    in >> n; n = unhex(n);
    if(op=="any") return dval(c.getAny(n));
    if(op=="tryany") { value_t v(42.5); bool ok = c.tryGetAny(n, v); return std::string(ok ? "1 " : "0 ") + dval(v); }
    if(op=="sub") { size_t i; in >> s >> i; const cvec& v = c.get<cvec>(n); Config x(v.at(i % (v.size() ? v.size() : 1))); R.at(s) = x; return "ok"; }
    value_t v(readval(in, R, t));
    if(op=="setany") { c.setAny(n, v); return "ok"; }
    if(op=="swapany") { c.swapAny(n, v); return dval(v); }
    return typed(op, t, c, n, v);
}
}

extern "C" char* config_ops(const char* prog, unsigned regs) {
    std::vector<Config> R(regs); for(size_t i=0; i<R.size(); i++) R[i] = Config();
    std::istringstream in(prog); std::string line, out;
    while(std::getline(in, line)) {
        std::istringstream l(line);
        try { out += step(l, R); }
        catch(key_error& e) { out += "key_error " + hex(e.what()); }
        catch(std::out_of_range& e) { out += "range"; }
        catch(std::exception& e) { out += std::string("exception ") + e.what(); }
        out += "\n";
    }
    for(size_t i=0; i<R.size(); i++) out += dump(R[i]) + "\n";
    return strdup(out.c_str());
}
extern "C" void config_free(char* p) { free(p); }
