#include <stdint.h>
#include <string.h>
#include "instances.h"
/* lambda Nwd Ske R Senc l Lke Lenc tau k0 k1 t0 t1 sigSize pkSize id */
void hx_params(int pid, int* out) {
  faest_paramset_t p = faest_get_paramset((faest_paramid_t)pid);
  const int v[16] = {p.faest_param.lambda, p.faest_param.Nwd, p.faest_param.Ske, p.faest_param.R, p.faest_param.Senc,
                     p.faest_param.l, p.faest_param.Lke, p.faest_param.Lenc, p.faest_param.tau, p.faest_param.k0,
                     p.faest_param.k1, p.faest_param.t0, p.faest_param.t1, p.faest_param.sigSize, p.faest_param.pkSize,
                     p.faest_paramid};
  memcpy(out, v, sizeof v);
}
const char* hx_param_name(int pid) { return faest_get_param_name((faest_paramid_t)pid); }
/* every byte of the record, for unknown identifiers */
int hx_params_zero(int pid) {
  faest_paramset_t p = faest_get_paramset((faest_paramid_t)pid);
  const faest_param_t z = {0};
  return p.faest_paramid == PARAMETER_SET_INVALID && !memcmp(&p.faest_param, &z, sizeof z);
}
