// Script interpreter: drives the public C++ and C interfaces of the library.
#include "simapi.h"
#include "cgmfEvents.h"
#include "cgmfEvents_capi.h"
#include <random>
#include <sstream>
#include <map>
#include <vector>
#include <string>
#include <string.h>
#include <stdlib.h>
#include <math.h>
using std::string; using std::vector;
#include "dump.h"


// ---- random stream ----------------------------------------------------------
struct Stream {
  std::mt19937 gen; std::uniform_real_distribution<> dist; 
  std::map<long, double> over; long idx = 0; long limit = 0;
  double next() {
    double v = dist(gen);
    auto it = over.find(idx); if (it != over.end()) { v = it->second; sim_note("rng:override"); }
    idx++; sim_draw(v);
    if (limit && idx > limit) sim_hang();
    return v;
  }
};
static Stream G;
static double gdraw(void) { return G.next(); }

static string dumpC() {
  string s = "{";
  int nn = cgmf_getnnu(), ng = cgmf_getgnu(), np = cgmf_getprennu();
  auto lim = [](int n) { return n < 0 ? 0 : (n > 200 ? 200 : n); };
  s += "\"nn\":" + inum(nn) + ",\"ng\":" + inum(ng) + ",\"np\":" + inum(np);
#define FC(tag, N) s += string(",\"" tag "\":{\"A\":") + inum(cgmf_get##N##mass()) + ",\"Z\":" + inum(cgmf_get##N##charge()) \
  + ",\"KE\":" + num(cgmf_get##N##ke()) + ",\"KEp\":" + num(cgmf_get##N##kepost()) + ",\"U\":" + num(cgmf_get##N##u()) \
  + ",\"J\":" + num(cgmf_get##N##spin()) + ",\"P\":" + inum(cgmf_get##N##parity()) + ",\"nu\":" + inum(cgmf_get##N##nnu()) + ",\"nug\":" + inum(cgmf_get##N##gnu()) \
  + ",\"pre\":[" + num(cgmf_get##N##premomentum_x()) + "," + num(cgmf_get##N##premomentum_y()) + "," + num(cgmf_get##N##premomentum_z()) + "]" \
  + ",\"post\":[" + num(cgmf_get##N##postmomentum_x()) + "," + num(cgmf_get##N##postmomentum_y()) + "," + num(cgmf_get##N##postmomentum_z()) + "]}";
  FC("L", lf) FC("H", hf)
  int n = lim(nn);
  s += ",\"nE\":" + arr(n, cgmf_getnerg) + ",\"nu_\":" + arr(n, cgmf_getndircosu) + ",\"nv\":" + arr(n, cgmf_getndircosv) + ",\"nw\":" + arr(n, cgmf_getndircosw) + ",\"nt\":" + arr(n, cgmf_getntme);
  s += ",\"cE\":" + arr(n, cgmf_getcmnerg) + ",\"cu\":" + arr(n, cgmf_getcmndircosu) + ",\"cv\":" + arr(n, cgmf_getcmndircosv) + ",\"cw\":" + arr(n, cgmf_getcmndircosw);
  n = lim(ng);
  s += ",\"gE\":" + arr(n, cgmf_getgerg) + ",\"gu\":" + arr(n, cgmf_getgdircosu) + ",\"gv\":" + arr(n, cgmf_getgdircosv) + ",\"gw\":" + arr(n, cgmf_getgdircosw) + ",\"gt\":" + arr(n, cgmf_getgtme);
  n = lim(np);
  s += ",\"pE\":" + arr(n, cgmf_getprenerg) + ",\"pu\":" + arr(n, cgmf_getprendircosu) + ",\"pv\":" + arr(n, cgmf_getprendircosv) + ",\"pw\":" + arr(n, cgmf_getprendircosw);
  return s + "}";
}

extern "C" int cgmf_sim_main(int, char**);

// Script lines:
//   path P | rng SEED [limit N] [ov i:v ...] | event SLOT ZAID E TIME WINDOW | del SLOT
//   cevent ZAID E TIME WINDOW | cclean | ccgm ZAI EX | cgm SLOT ZAI EX TIME | cgmdel SLOT
//   yields ZAID E N FILE | cleanup
struct Dbl { double v; operator double() const { return v; } };
static std::istream& operator>>(std::istream& is, Dbl& d) { string t; is >> t; d.v = strtod(t.c_str(), 0); return is; }
static int script() {
  std::map<int, cgmfEvent*> ev; std::map<int, cgmEvent*> cg;
  int n = sim_nops();
  for (int k = 0; k < n; k++) {
    std::istringstream is(sim_op(k)); string w; is >> w;
    sim_opmark(k);
    string head = "{\"op\":" + inum(k) + ",\"k\":\"" + w + "\"";
    if (w == "path") { string p; is >> p; setdatapath(p); }
    else if (w == "path0") { setdatapath(string("")); }
    else if (w == "rng") {
      unsigned long s; is >> s; G.gen.seed((unsigned)s); G.dist.reset(); G.idx = 0; G.over.clear(); G.limit = 0;
      string t; bool ov = false;
      while (is >> t) {
        if (t == "limit") is >> G.limit;
        else if (t == "ov") ov = true;
        else if (ov) { size_t c = t.find(':'); G.over[atol(t.c_str())] = strtod(t.c_str() + c + 1, 0); }
      }
      set_rng(gdraw);
    }
    else if (w == "event") {
      int sl, z; Dbl e, t, tw; is >> sl >> z >> e >> t >> tw;
      ev[sl] = new cgmfEvent(z, e, t, tw);
      emit(head + ",\"draws\":" + inum(G.idx) + ",\"ev\":" + dumpEvent(ev[sl]) + "}\n");
    }
    else if (w == "dump") { int sl; is >> sl; emit(head + ",\"ev\":" + dumpEvent(ev[sl]) + "}\n"); }
    else if (w == "del") { int sl; is >> sl; delete ev[sl]; ev.erase(sl); emit(head + "}\n"); }
    else if (w == "cevent") {
      int z; Dbl e, t, tw; is >> z >> e >> t >> tw;
      cgmf_genfissevent(z, e, t, tw);
      emit(head + ",\"draws\":" + inum(G.idx) + ",\"ev\":" + dumpC() + "}\n");
    }
    else if (w == "crng") { setrngdptr(gdraw); }
    else if (w == "cpath") { string p; is >> p; setdatapath(p.c_str()); }
    else if (w == "cclean") { cgmf_clean(); emit(head + "}\n"); }
    else if (w == "ccgm") {
      int z; Dbl e; is >> z >> e; int ng = 0, nn = 0; double gl[31] = {0}, nl[31] = {0};
      cgm(z, e, &ng, gl, &nn, nl);
      emit(head + ",\"draws\":" + inum(G.idx) + ",\"g\":" + arr(ng, [&](int i) { return gl[i]; }) + ",\"n\":" + arr(nn, [&](int i) { return nl[i]; }) + "}\n");
    }
    else if (w == "cgm") {
      int sl, z; Dbl e, t; is >> sl >> z >> e >> t;
      cg[sl] = new cgmEvent(z, e, t); cgmEvent* c = cg[sl];
      emit(head + ",\"draws\":" + inum(G.idx) + ",\"g\":" + arr(c->getPhotonNu(), [&](int i) { return c->getPhotonEnergy(i); }) + ",\"n\":" + arr(c->getNeutronNu(), [&](int i) { return c->getNeutronEnergy(i); }) + "}\n");
    }
    else if (w == "cgmdel") { int sl; is >> sl; delete cg[sl]; cg.erase(sl); emit(head + "}\n"); }
    else if (w == "yields") {
      int z, m; Dbl e; string f; is >> z >> e >> m >> f;
      new cgmfYields(z, e, m, f);
      emit(head + ",\"draws\":" + inum(G.idx) + "}\n");
    }
    else if (w == "cleanup") { cgmf_cleanup(); emit(head + "}\n"); }
    else { emit(head + ",\"bad\":1}\n"); }
  }
  return 0;
}

extern "C" int node_entry(int argc, char** argv) {
  if (argc == 0) return script();
  return cgmf_sim_main(argc, argv);
}
