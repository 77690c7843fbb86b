// Cheap stand-in for the physics library, used only to drive the real command
// line driver (utils/cgmf) through many events: an event is a pure function of
// the random stream the driver installed, and each generated event is reported
// to the simulator so that the judge knows what the driver was given.
#include "dump.h"
#include "rngcgm.h"
#include <string.h>
#include <stdint.h>
#include <fstream>
#include <sstream>
std::function<double(void)> rng_cgm;
void set_rng(std::function<double(void)> r) { rng_cgm = r; }
void set_rng(double (*r)(void)) { rng_cgm = r; }
int checkdatapath(std::string) { return 1; }
void setdatapath(std::string) {}
void cgmf_cleanup(void) {}
cgmEvent::cgmEvent() {}
static double* D(int n) { return n > 0 ? new double[n] : 0; }
static void K(double* p, int n) { if (n > 0) delete[] p; }
cgmEvent::~cgmEvent() {
  K(neutronEnergies, neutronNu); K(neutronDircosu, neutronNu); K(neutronDircosv, neutronNu); K(neutronDircosw, neutronNu); K(neutronAges, neutronNu);
  K(cmNeutronEnergies, neutronNu); K(cmNeutronDircosu, neutronNu); K(cmNeutronDircosv, neutronNu); K(cmNeutronDircosw, neutronNu);
  K(photonEnergies, photonNu); K(photonDircosu, photonNu); K(photonDircosv, photonNu); K(photonDircosw, photonNu); K(photonAges, photonNu);
}
struct R { uint64_t s; uint64_t n() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); } double u() { return (n() >> 11) * (1.0 / 9007199254740992.0); } int below(int k) { return (int)(n() % (uint64_t)k); } };
cgmfEvent::cgmfEvent() { neutronNu = photonNu = preFissionNeutronNu = 0; }
static long nth = 0;
cgmfEvent::cgmfEvent(int z, double e, double t, double w) : cgmEvent() {
  double d = rng_cgm(); sim_draw(d); R r; memcpy(&r.s, &d, 8);
  double ds[8]; ds[0] = d; for (int i = 1; i < 8; i++) { ds[i] = rng_cgm(); sim_draw(ds[i]); }
  memset(&eventLF, 0, sizeof eventLF); memset(&eventHF, 0, sizeof eventHF);
  ZAIDt = z; incidentEnergy = e;
  int mode = r.below(4); int cap = mode == 0 ? 1 : (mode == 1 ? 2 : 8);
  fissionEventType* f[2] = {&eventLF, &eventHF};
  for (int k = 0; k < 2; k++) {
    f[k]->A = k ? 126 + r.below(30) : 80 + r.below(40); f[k]->Z = k ? 48 + r.below(12) : 34 + r.below(14); f[k]->U = 40 * r.u(); f[k]->spin = r.below(40) * 0.5; f[k]->parity = r.below(2) ? 1 : -1;
    f[k]->KE = 40 + 80 * r.u(); f[k]->KEpost = f[k]->KE - r.u(); f[k]->nu = r.below(cap + 1); f[k]->nug = r.below(3 * cap + 1);
    for (int i = 0; i < 3; i++) { f[k]->preFragmentMomentum[i] = 8000 * (r.u() - 0.5); f[k]->postFragmentMomentum[i] = 8000 * (r.u() - 0.5); }
  }
  preFissionNeutronNu = e > 0 && mode ? r.below(4) : 0;
  neutronNu = eventLF.nu + eventHF.nu; photonNu = eventLF.nug + eventHF.nug;
  auto fill = [&](int n, double lo, double hi) { double* p = D(n); for (int i = 0; i < n; i++) p[i] = lo + (hi - lo) * r.u(); return p; };
  neutronEnergies = fill(neutronNu, 0, 10); neutronDircosu = fill(neutronNu, -1, 1); neutronDircosv = fill(neutronNu, -1, 1); neutronDircosw = fill(neutronNu, -1, 1); neutronAges = fill(neutronNu, t, t);
  cmNeutronEnergies = fill(neutronNu, 0, 8); cmNeutronDircosu = fill(neutronNu, -1, 1); cmNeutronDircosv = fill(neutronNu, -1, 1); cmNeutronDircosw = fill(neutronNu, -1, 1);
  photonEnergies = fill(photonNu, 0, 7); photonDircosu = fill(photonNu, -1, 1); photonDircosv = fill(photonNu, -1, 1); photonDircosw = fill(photonNu, -1, 1); photonAges = fill(photonNu, 0, 1e-8);
  int np = preFissionNeutronNu;
  preFissionNeutronEnergies = fill(np, 0, 9); preFissionNeutronDircosu = fill(np, -1, 1); preFissionNeutronDircosv = fill(np, -1, 1); preFissionNeutronDircosw = fill(np, -1, 1); preFissionNeutronAges = fill(np, 0, 0);
  emit("{\"op\":" + inum(nth++) + ",\"k\":\"stub\",\"draws\":" + arr(8, [&](int i) { return ds[i]; }) + ",\"time\":" + num(t) + ",\"window\":" + num(w) + ",\"ev\":" + dumpEvent(this) + "}\n");
}
cgmfEvent::~cgmfEvent() {
  int np = preFissionNeutronNu; K(preFissionNeutronEnergies, np); K(preFissionNeutronDircosu, np); K(preFissionNeutronDircosv, np); K(preFissionNeutronDircosw, np); K(preFissionNeutronAges, np);
}
cgmfYields::cgmfYields(int, double, int, std::string) : cgmfEvent() {}
