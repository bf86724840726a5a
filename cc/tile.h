// tiles kept between calls of the contracts, parameters set through the field tables of the python bindings
#pragma once
#include "kern.h"
#include "rpu_pulsed.h"
using namespace RPU;
typedef AbstractRPUDeviceMetaParameter<float> DevPar;
struct Hnd {
  std::unique_ptr<RPUSimple<float>> rpu;
  RPUPulsed<float> *pulsed = nullptr;
  std::vector<float> delta, shared;
  std::vector<int> idx;
  RPU::state_t dump;
  RNG<float> rng{0};
  AbstractRPUDevice<float> *dev() {
    if (!pulsed) throw std::logic_error("kernel: no device");
    return &*pulsed->rpu_device_;
  }
  float **w() { return rpu->getWeightsPtr(); }
};
Hnd &hnd(Io &io);
int newhnd(Io &io);
int newtile(RPUSimple<float> *r);
void setmod(WeightModifierParameter<float> &p, Io &io);
DevPar *mkdev(Io &io);
void getdev(DevPar &p, Io &io);
void pars_back(Io &io);
template <class P> void setpars(P &p, Io &io);
