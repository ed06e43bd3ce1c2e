// simulations defined by a user of the library, driven through a C interface
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <flame/base.h>
#include <flame/config.h>
#include <flame/h5writer.h>

namespace {
typedef std::vector<double> vec;
long live_elem, live_state;
std::string hex(double v) { char b[64]; sprintf(b, "%a", v); return b; }
const char* const NAMES[] = {"m0", "m1", "m2", "m3"};

struct Arr {
    bool sz; unsigned nd; size_t dim[3], stride[3], off; std::vector<double> buf; // 8 bytes per entry, either type
    char* at(size_t i, size_t j, size_t k) {
        size_t d[3] = {i, j, k}, o = off;
        for(unsigned n=0; n<nd; n++) o += d[n]*stride[n];
        return (char*)&buf[0] + o;
    }
};

struct CS : public StateBase {
    double acc; size_t hits; std::vector<Arr> arrs;
    CS(const Config& c) :StateBase(c), acc(c.get<double>("acc", 1.0)), hits(0) {
        if(c.get<double>("refuse", 0.0)!=0.0) throw std::runtime_error("state refused");
        if(c.get<double>("lack", 0.0)!=0.0) c.get<double>("absent_parameter");
        for(int n=0; n<4; n++) {
            std::ostringstream s; s << "spec" << n; vec v, data;
            if(!c.tryGet<vec>(s.str(), v)) break;
            std::ostringstream t; t << "data" << n; data = c.get<vec>(t.str());
            // v: is integer, number of dimensions, dimensions, order of the dimensions in memory (permutation number), padding entries
            Arr a; a.sz = v[0]!=0; a.nd = (unsigned)v[1]; size_t tot = 8, pad = (size_t)v[6];
            static const int perm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
            for(int k=0; k<3; k++) { a.dim[k] = (size_t)v[2+k]; a.stride[k] = 0; }
            for(int k=2; k>=0; k--) {
                int d = perm[(int)v[5]][k];
                if(d>=(int)a.nd) continue;
                a.stride[d] = tot; tot = tot*(a.dim[d] ? a.dim[d] : 1) + 8*pad;
            }
            a.off = 8*pad; a.buf.assign(tot/8 + pad + 1, -12345.0); size_t q = 0;
            for(size_t i=0; i<(a.nd>0 ? a.dim[0] : 1); i++) for(size_t j=0; j<(a.nd>1 ? a.dim[1] : 1); j++) for(size_t l=0; l<(a.nd>2 ? a.dim[2] : 1); l++) {
                char* p = a.at(i, j, l); double x = data.at(q++);
                if(a.sz) *(size_t*)p = (size_t)x; else *(double*)p = x;
            }
            arrs.push_back(a);
        }
        live_state++;
    }
    CS(const CS& o) :StateBase(o, clone_tag()), acc(o.acc), hits(o.hits), arrs(o.arrs) { live_state++; }
    virtual ~CS() { live_state--; }
    virtual void assign(const StateBase& other) {
        StateBase::assign(other); const CS& o = dynamic_cast<const CS&>(other);
        acc = o.acc; hits = o.hits; arrs = o.arrs;
    }
    virtual StateBase* clone() const { return new CS(*this); }
    virtual void show(std::ostream& s, int level) const { s << "acc=" << hex(acc) << " hits=" << hits << " level=" << level; }
    // as in the documentation: own parameters first, only what differs from the defaults is filled in
    virtual bool getArray(unsigned idx, ArrayInfo& I) {
        unsigned n = 0;
        if(idx==n++) { I.name = "acc"; I.ptr = &acc; return true; }
        for(size_t q=0; q<arrs.size(); q++) if(idx==n++) {
            Arr& a = arrs[q];
            I.name = NAMES[q]; I.ptr = (char*)&a.buf[0] + a.off; I.ndim = a.nd; if(a.sz) I.type = ArrayInfo::Sizet;
            for(unsigned k=0; k<a.nd; k++) { I.dim[k] = a.dim[k]; I.stride[k] = a.stride[k]; }
            return true;
        }
        if(idx==n++) { I.name = "hits"; I.ptr = &hits; I.type = ArrayInfo::Sizet; return true; }
        return StateBase::getArray(idx-n, I);
    }
    void bump(double by) {
        for(size_t q=0; q<arrs.size(); q++) { Arr& a = arrs[q];
            for(size_t i=0; i<(a.nd>0 ? a.dim[0] : 1); i++) for(size_t j=0; j<(a.nd>1 ? a.dim[1] : 1); j++) for(size_t l=0; l<(a.nd>2 ? a.dim[2] : 1); l++) {
                char* p = a.at(i, j, l); if(a.sz) *(size_t*)p += (size_t)by; else *(double*)p += by; }
        }
    }
};
struct CS2 : public CS { // another simulation: starts elsewhere
    CS2(const Config& c) :CS(c) { acc += 100; }
    CS2(const CS2& o) :CS(o) {}
    virtual StateBase* clone() const { return new CS2(*this); }
};

template<int K> struct CE : public ElementVoid {
    double k, to, times; std::string typ;
    CE(const Config& c) :ElementVoid(c), k(c.get<double>("k")), to(c.get<double>("to", 0.0)), times(c.get<double>("times", 0.0)),
        typ(c.get<double>("lie", 0.0)!=0.0 ? std::string("some_other_type") : c.get<std::string>("type")) {
        if(c.get<double>("boom", 0.0)!=0.0) throw std::invalid_argument("boom goes the element");
        live_elem++;
    }
    virtual ~CE() { live_elem--; }
    virtual const char* type_name() const { return typ.c_str(); }
    virtual void assign(const ElementVoid* other) {
        const CE* o = static_cast<const CE*>(other); k = o->k; to = o->to; times = o->times; typ = o->typ;
        ElementVoid::assign(other);
    }
    virtual void advance(StateBase& s) {
        CS& S = dynamic_cast<CS&>(s);
        if(K==0) { S.acc += k; S.bump(1); }
        if(K==1) { S.acc = S.acc*k + 1; }
        if(K==2 && S.hits<(size_t)times) { S.hits++; S.next_elem = (size_t)to; }
        if(K==3 && S.acc>k) throw std::runtime_error("tripped in " + name);
        S.pos += S.retreat ? -length : length;
    }
};

struct Obs : public Observer {
    std::ostringstream* out; bool thrower;
    Obs(std::ostringstream* o, bool t) :out(o), thrower(t) {}
    virtual void view(const ElementVoid* e, const StateBase* s) {
        const CS* S = dynamic_cast<const CS*>(s);
        *out << "view " << e->index << " " << e->name << " " << hex(S->acc) << " " << S->next_elem << " " << hex(S->pos) << "\n";
        if(thrower) throw std::runtime_error("observer objects");
    }
};
struct Mach { std::unique_ptr<Machine> m; std::map<size_t, Obs*> obs; std::ostringstream log; };
std::map<int, std::unique_ptr<Mach> > machs;
std::map<int, std::unique_ptr<StateBase> > states;
int next_handle;

char* ret(const std::string& s) { return strdup(s.c_str()); }
std::string kind(std::exception& e) {
    const char* k = dynamic_cast<key_error*>(&e) ? "key_error" : dynamic_cast<std::out_of_range*>(&e) ? "out_of_range" : dynamic_cast<std::invalid_argument*>(&e) ? "invalid_argument"
        : dynamic_cast<std::logic_error*>(&e) ? "logic_error" : dynamic_cast<std::runtime_error*>(&e) ? "runtime_error" : "exception";
    return std::string("error ") + k + " " + e.what();
}
#define GUARD(...) try { __VA_ARGS__ } catch(std::exception& e) { return ret(kind(e)); }

// lines "key d value", "key s text", "key v n values", "key [" ... "]" (a list of configurations, each started by "-")
void read_conf(std::istream& in, Config& c, bool nested) {
    std::string key, t;
    while(in >> key) {
        if(key==";") return;
        in >> t;
        if(t=="d") { std::string v; in >> v; c.set<double>(key, strtod(v.c_str(), 0)); }
        else if(t=="s") { std::string v; in >> v; c.set<std::string>(key, v=="~" ? std::string() : v); }
        else if(t=="v") { size_t n; in >> n; vec x(n); std::string v; for(size_t i=0; i<n; i++) { in >> v; x[i] = strtod(v.c_str(), 0); } c.set<vec>(key, x); }
        else if(t=="e") {
            size_t n; in >> n; Config::vector_t L(n);
            for(size_t i=0; i<n; i++) { Config x(c.new_scope()); read_conf(in, x, true); L[i] = x; }
            c.set<Config::vector_t>(key, L);
        }
    }
}
template<int K> void reg(const char* s, const char* e) { Machine::registerElement<CE<K> >(s, e); }
}

extern "C" {
void custom_free(char* p) { free(p); }
char* custom_reg_state(const char* name, int k) { GUARD(if(k) Machine::registerState<CS2>(name); else Machine::registerState<CS>(name); return ret("ok");) }
char* custom_reg_elem(const char* sim, const char* name, int k) {
    GUARD(switch(k) { case 0: reg<0>(sim, name); break; case 1: reg<1>(sim, name); break; case 2: reg<2>(sim, name); break; default: reg<3>(sim, name); } return ret("ok");)
}
char* custom_cleanup() { GUARD(Machine::registeryCleanup(); return ret("ok");) }
char* custom_builtin() { GUARD(registerLinear(); registerMoment(); return ret("ok");) }
char* custom_live() { std::ostringstream o; o << live_elem << " " << live_state; return ret(o.str()); }

char* custom_machine(const char* conf) {
    GUARD(
        Config c; std::istringstream in(conf); read_conf(in, c, false);
        std::unique_ptr<Mach> M(new Mach); M->m.reset(new Machine(c));
        int h = next_handle++; machs[h] = std::move(M); std::ostringstream o; o << "ok " << h; return ret(o.str());)
}
char* custom_machine_text(const char* text, size_t n) {
    GUARD(
        GLPSParser P; std::unique_ptr<Config> c(P.parse_byte(text, n));
        std::unique_ptr<Mach> M(new Mach); M->m.reset(new Machine(*c));
        int h = next_handle++; machs[h] = std::move(M); std::ostringstream o; o << "ok " << h; return ret(o.str());)
}
void custom_machine_del(int h) {
    Mach& M = *machs.at(h);
    for(std::map<size_t, Obs*>::iterator it=M.obs.begin(); it!=M.obs.end(); ++it) { M.m->at(it->first)->set_observer(NULL); delete it->second; }
    machs.erase(h);
}
char* custom_info(int h) {
    GUARD(
        Machine& m = *machs.at(h)->m; std::ostringstream o; o << m.simtype() << " " << m.size() << " " << (m.end()-m.begin()) << "\n";
        size_t i = 0;
        for(Machine::iterator it=m.begin(); it!=m.end(); ++it, i++) {
            ElementVoid* E = *it;
            o << E->index << " " << E->type_name() << " " << E->name << " " << hex(E->length) << " " << E->conf().get<std::string>("name") << " " << E->conf().get<std::string>("tag", "-")
              << " " << (E==m[i]) << (E==m.at(i)) << (((const Machine&)m)[i]==E) << "\n";
        }
        return ret(o.str());)
}
char* custom_print(int h) { GUARD(std::ostringstream o; o << *machs.at(h)->m; return ret(o.str());) }
char* custom_at(int h, size_t i) { GUARD(std::ostringstream o; o << "ok " << machs.at(h)->m->at(i)->index; return ret(o.str());) }
char* custom_find(int h, const char* name, size_t nth) {
    GUARD(ElementVoid* E = machs.at(h)->m->find(name, nth); std::ostringstream o; if(E) o << E->index; else o << "none"; return ret(o.str());)
}
char* custom_range(int h, const char* name, int which) { // 0 by name, 1 by type, 2 all
    GUARD(
        Machine& m = *machs.at(h)->m; std::ostringstream o;
        std::pair<Machine::lookup_iterator, Machine::lookup_iterator> r = which==0 ? m.equal_range(name) : which==1 ? m.equal_range_type(name) : m.all_range();
        for(; r.first!=r.second; ++r.first) o << (*r.first)->index << " ";
        return ret(o.str());)
}
char* custom_reconf(int h, size_t i, const char* conf) {
    GUARD(Config c; std::istringstream in(conf); read_conf(in, c, false); machs.at(h)->m->reconfigure(i, c); return ret("ok");)
}
char* custom_observe(int h, size_t i, int mode) {
    GUARD(
        Mach& M = *machs.at(h); ElementVoid* E = M.m->at(i);
        if(M.obs.count(i)) { if(E->observer()!=M.obs[i]) return ret("error lost observer"); E->set_observer(NULL); delete M.obs[i]; M.obs.erase(i); }
        if(mode) { Obs* o = new Obs(&M.log, mode==2); M.obs[i] = o; E->set_observer(o); }
        return ret("ok");)
}
char* custom_trace(int h, int on) { Mach& M = *machs.at(h); M.m->set_trace(on ? &M.log : NULL); return ret(M.m->trace()==(on ? &M.log : NULL) ? "ok" : "error trace"); }
char* custom_propagate(int h, int s, size_t start, int max) {
    Mach& M = *machs.at(h); M.log.str(std::string()); std::string r = "ok";
    try { M.m->propagate(states.at(s).get(), start, max); } catch(std::exception& e) { r = kind(e); }
    return ret(r + "\n" + M.log.str());
}
char* custom_state(int h, const char* conf) {
    GUARD(
        StateBase* S;
        if(!conf) S = machs.at(h)->m->allocState();
        else { Config c; std::istringstream in(conf); read_conf(in, c, false); S = machs.at(h)->m->allocState(c); }
        int n = next_handle++; states[n].reset(S); std::ostringstream o; o << "ok " << n; return ret(o.str());)
}
void custom_state_del(int s) { states.erase(s); }
char* custom_clone(int s) { GUARD(int n = next_handle++; states[n].reset(states.at(s)->clone()); std::ostringstream o; o << "ok " << n; return ret(o.str());) }
char* custom_assign(int a, int b) { GUARD(states.at(a)->assign(*states.at(b)); return ret("ok");) }
char* custom_state_get(int s) {
    GUARD(
        std::ostringstream o; StateBase* S = states.at(s).get();
        for(unsigned i=0; ; i++) {
            StateBase::ArrayInfo I; if(!S->getArray(i, I)) break;
            o << I.name << " " << (I.type==StateBase::ArrayInfo::Sizet) << " " << I.ndim;
            size_t d[3] = {1, 1, 1}; for(unsigned k=0; k<I.ndim; k++) { d[k] = I.dim[k]; o << " " << d[k]; }
            o << " :"; size_t ix[3];
            for(ix[0]=0; ix[0]<d[0]; ix[0]++) for(ix[1]=0; ix[1]<d[1]; ix[1]++) for(ix[2]=0; ix[2]<d[2]; ix[2]++) {
                if(!I.inbounds(ix)) { o << " outside"; continue; }
                if(I.type==StateBase::ArrayInfo::Sizet) o << " " << *I.get<size_t>(ix); else o << " " << hex(*I.get<double>(ix));
            }
            for(unsigned k=0; k<I.ndim; k++) { ix[0] = ix[1] = ix[2] = 0; ix[k] = d[k]; if(I.inbounds(ix)) o << " beyond"; }
            o << "\n";
        }
        o << *S << "\n"; return ret(o.str());)
}
char* custom_h5(const char* path, const int* hs, int n) {
    GUARD(
        { H5StateWriter W(path); W.prepare(states.at(hs[0]).get()); for(int i=0; i<n; i++) W.append(states.at(hs[i]).get()); W.setAttr("who", "custom"); W.close(); }
        return ret("ok");)
}
}
