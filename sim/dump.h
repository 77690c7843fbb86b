#ifndef DUMP_H
#define DUMP_H
#include "simapi.h"
#include "cgmfEvents.h"
#include <string>
#include <stdio.h>
#include <math.h>
#include <cmath>
using std::string;
static void emit(const string& s) { sim_emit(s.data(), s.size()); }
static string num(double v) {
  char b[64];
  if (std::isnan(v)) return "NaN";
  if (std::isinf(v)) return v > 0 ? "Infinity" : "-Infinity";
  snprintf(b, sizeof b, "%.17g", v); return b;
}
static string inum(long v) { char b[32]; snprintf(b, sizeof b, "%ld", v); return b; }

template <class F> static string arr(int n, F f) { string s = "["; for (int i = 0; i < n; i++) { if (i) s += ","; s += num(f(i)); } return s + "]"; }

static string dumpEvent(cgmfEvent* e) {
  string s = "{";
  int nn = e->getNeutronNu(), ng = e->getPhotonNu(), np = e->getPreFissionNeutronNu();
  auto lim = [](int n) { return n < 0 ? 0 : (n > 200 ? 200 : n); };
  s += "\"zaid\":" + inum(e->getTargetNucleus()) + ",\"einc\":" + num(e->getIncidentEnergy());
  s += ",\"nn\":" + inum(nn) + ",\"ng\":" + inum(ng) + ",\"np\":" + inum(np);
#define FR(tag, N) s += string(",\"" tag "\":{\"A\":") + inum(e->get##N##FragmentMass()) + ",\"Z\":" + inum(e->get##N##FragmentCharge()) \
  + ",\"KE\":" + num(e->get##N##FragmentKineticEnergy()) + ",\"KEp\":" + num(e->get##N##FragmentKineticEnergyPost()) \
  + ",\"U\":" + num(e->get##N##FragmentExcitationEnergy()) + ",\"J\":" + num(e->get##N##FragmentSpin()) + ",\"P\":" + inum(e->get##N##FragmentParity()) \
  + ",\"nu\":" + inum(e->get##N##FragmentNeutronNu()) + ",\"nug\":" + inum(e->get##N##FragmentPhotonNu()) \
  + ",\"pre\":[" + num(e->get##N##FragmentPreMomentumX()) + "," + num(e->get##N##FragmentPreMomentumY()) + "," + num(e->get##N##FragmentPreMomentumZ()) + "]" \
  + ",\"post\":[" + num(e->get##N##FragmentPostMomentumX()) + "," + num(e->get##N##FragmentPostMomentumY()) + "," + num(e->get##N##FragmentPostMomentumZ()) + "]}";
  FR("L", Light) FR("H", Heavy)
  int n = lim(nn);
  s += ",\"nE\":" + arr(n, [&](int i) { return e->getNeutronEnergy(i); });
  s += ",\"nu_\":" + arr(n, [&](int i) { return e->getNeutronDircosu(i); });
  s += ",\"nv\":" + arr(n, [&](int i) { return e->getNeutronDircosv(i); });
  s += ",\"nw\":" + arr(n, [&](int i) { return e->getNeutronDircosw(i); });
  s += ",\"nt\":" + arr(n, [&](int i) { return e->getNeutronAge(i); });
  s += ",\"cE\":" + arr(n, [&](int i) { return e->getCmNeutronEnergy(i); });
  s += ",\"cu\":" + arr(n, [&](int i) { return e->getCmNeutronDircosu(i); });
  s += ",\"cv\":" + arr(n, [&](int i) { return e->getCmNeutronDircosv(i); });
  s += ",\"cw\":" + arr(n, [&](int i) { return e->getCmNeutronDircosw(i); });
  n = lim(ng);
  s += ",\"gE\":" + arr(n, [&](int i) { return e->getPhotonEnergy(i); });
  s += ",\"gu\":" + arr(n, [&](int i) { return e->getPhotonDircosu(i); });
  s += ",\"gv\":" + arr(n, [&](int i) { return e->getPhotonDircosv(i); });
  s += ",\"gw\":" + arr(n, [&](int i) { return e->getPhotonDircosw(i); });
  s += ",\"gt\":" + arr(n, [&](int i) { return e->getPhotonAge(i); });
  n = lim(np);
  s += ",\"pE\":" + arr(n, [&](int i) { return e->getPreFissionNeutronEnergy(i); });
  s += ",\"pu\":" + arr(n, [&](int i) { return e->getPreFissionNeutronDircosu(i); });
  s += ",\"pv\":" + arr(n, [&](int i) { return e->getPreFissionNeutronDircosv(i); });
  s += ",\"pw\":" + arr(n, [&](int i) { return e->getPreFissionNeutronDircosw(i); });
  s += ",\"oob\":[" + num(e->getNeutronEnergy(nn)) + "," + num(e->getPhotonEnergy(ng)) + "," + num(e->getNeutronEnergy(-1)) + "," + num(e->getPhotonEnergy(-1)) + "," + num(e->getPreFissionNeutronEnergy(np)) + "," + num(e->getCmNeutronEnergy(nn)) + "," + num(e->getPhotonAge(ng)) + "," + num(e->getNeutronAge(nn)) + "]";
  return s + "}";
}

#endif
