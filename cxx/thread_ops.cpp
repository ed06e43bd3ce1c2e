// C23: scripts of operations on machines, run first concurrently (one thread per script), then one after the other.
// usage: thread_ops JOBFILE   prints "OK <results>" or "MISMATCH ..." (exit 1); data races are reported by ThreadSanitizer.
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "flame/base.h"
#include "flame/moment.h"

struct Op { char code; std::string slot, a, b, c; };
typedef std::vector<Op> Script;
typedef std::vector<std::string> Result;

static std::string dump(StateBase& S)
{
    std::string out;
    for(unsigned i=0; ; i++) {
        StateBase::ArrayInfo I;
        if(!S.getArray(i, I)) break;
        out += I.name; out += '=';
        size_t d[3] = {1,1,1};
        for(unsigned k=0; k<I.ndim; k++) d[k] = I.dim[k];
        for(size_t x=0; x<d[0]; x++) for(size_t y=0; y<d[1]; y++) for(size_t z=0; z<d[2]; z++) {
            char *p = (char*)I.ptr;
            if(I.ndim>0) p += x*I.stride[0];
            if(I.ndim>1) p += y*I.stride[1];
            if(I.ndim>2) p += z*I.stride[2];
            char buf[40];
            if(I.type==StateBase::ArrayInfo::Double) snprintf(buf, sizeof buf, "%.17g,", *(double*)p);
            else snprintf(buf, sizeof buf, "%lu,", (unsigned long)*(size_t*)p);
            out += buf;
        }
        out += ';';
    }
    return out;
}

struct Slot { std::unique_ptr<Machine> M; std::unique_ptr<StateBase> S; };

static std::string step(std::map<std::string, Slot>& slots, const Op& o)
{
    try {
        if(o.code=='X') {                       // parse and print
            GLPSParser P; std::unique_ptr<Config> C(P.parse_file(o.a.c_str()));
            std::ostringstream s; GLPSPrint(s, *C); return s.str();
        }
        if(o.code=='Y') {                       // parse from memory, with a definition from outside
            std::ifstream f(o.a.c_str()); std::stringstream t; t<<f.rdbuf();
            GLPSParser P; P.setVar("zz", strtod(o.b.c_str(), 0)); std::unique_ptr<Config> C(P.parse_byte(t.str()));
            std::ostringstream s; GLPSPrint(s, *C); return s.str();
        }
        Slot& L = slots[o.slot];
        if(o.code=='B') {
            GLPSParser P; std::unique_ptr<Config> C(P.parse_file(o.a.c_str()));
            L.S.reset(); L.M.reset(new Machine(*C)); return L.M->simtype();
        }
        if(o.code=='D') { L.M.reset(); return "deleted"; }
        if(!L.M.get()) return "no machine";
        if(o.code=='P') {
            L.S.reset(L.M->allocState(L.M->conf())); L.M->propagate(L.S.get(), strtoul(o.a.c_str(),0,10), atoi(o.b.c_str()));
            return dump(*L.S);
        }
        if(o.code=='Q') {
            if(!L.S.get()) return "no state";
            std::unique_ptr<StateBase> T(L.S->clone());
            L.M->propagate(T.get(), strtoul(o.a.c_str(),0,10), atoi(o.b.c_str()));
            L.S.reset(T.release()); return dump(*L.S);
        }
        if(o.code=='R') {
            size_t i = strtoul(o.a.c_str(),0,10) % std::max<size_t>(1, L.M->size());
            Config c((*L.M)[i]->conf()); c.set<double>(o.b, strtod(o.c.c_str(), 0));
            L.M->reconfigure(i, c); return "reconfigured";
        }
        return "?";
    } catch(std::exception& e) { return std::string("error: ")+e.what(); }
}

static unsigned long mix(unsigned long x) { x ^= x>>33; x *= 0xff51afd7ed558ccdUL; x ^= x>>33; x *= 0xc4ceb9fe1a85ec53UL; return x ^ (x>>33); }

// jitter!=0: pauses before some operations, to vary the order in which threads reach shared code
static void run(const Script& s, Result& r, unsigned long jitter)
{
    std::map<std::string, Slot> slots;
    for(size_t i=0; i<s.size(); i++) {
        if(jitter) {
            unsigned long h = mix(jitter + 7919*i);
            if(h%3==0) std::this_thread::sleep_for(std::chrono::microseconds((h>>8)%2000));
        }
        r.push_back(step(slots, s[i]));
    }
}

int main(int argc, char **argv)
{
    registerLinear(); registerMoment();
    struct Quiet : public Machine::Logger { std::atomic<unsigned> n; Quiet() :n(0) {} virtual void log(const Machine::LogRecord& r) { n += r.strm.str().size(); } };
    Machine::set_logger(boost::shared_ptr<Machine::Logger>(new Quiet));
    std::vector<Script> jobs;
    std::ifstream f(argv[1]); std::string line;
    while(std::getline(f, line)) {
        std::istringstream s(line); std::string code; Op o;
        if(!std::getline(s, code, '\t')) continue;
        if(code=="T") { jobs.push_back(Script()); continue; }
        std::getline(s, o.slot, '\t'); std::getline(s, o.a, '\t'); std::getline(s, o.b, '\t'); std::getline(s, o.c, '\t');
        o.code = code[0]; jobs.back().push_back(o);
    }
    // every round uses its own copy of the files ('@' in a path is the round's number), as the library caches by path
    const unsigned rounds = argc>2 ? atoi(argv[2]) : 1, seed = argc>3 ? atoi(argv[3]) : 1;
    const size_t N = jobs.size();
    size_t n = 0, err = 0;
    for(unsigned rd=0; rd<rounds; rd++) {
        std::vector<Script> J(jobs);
        for(size_t k=0; k<N; k++) for(size_t i=0; i<J[k].size(); i++) {
            std::string& a = J[k][i].a; size_t p = a.find('@');
            if(p!=a.npos) { std::ostringstream t; t<<rd; a.replace(p, 1, t.str()); }
        }
        std::vector<Result> par(N), seq(N);
        std::atomic<size_t> ready(0);
        {
            std::vector<std::thread> T;
            for(size_t k=0; k<N; k++) T.push_back(std::thread([&,k]() {
                ready++; while(ready.load()<N) std::this_thread::yield();
                run(J[k], par[k], rd==0 ? 0 : mix(seed*131+rd*17+k)|1);
            }));
            for(size_t k=0; k<N; k++) T[k].join();
        }
        for(size_t k=0; k<N; k++) {
            run(J[k], seq[k], 0);
            for(size_t i=0; i<J[k].size(); i++, n++) {
                if(par[k][i].compare(0, 6, "error:")==0) err++;
                if(par[k][i]!=seq[k][i]) {
                    std::cout<<"MISMATCH round "<<rd<<" thread "<<k<<" operation "<<i<<" "<<J[k][i].code<<"\n concurrent: "<<par[k][i].substr(0,600)<<"\n alone:      "<<seq[k][i].substr(0,600)<<"\n";
                    return 1;
                }
            }
        }
    }
    std::cout<<"OK "<<n<<" "<<err<<"\n";
    return 0;
}
