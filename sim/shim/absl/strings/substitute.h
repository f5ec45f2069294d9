#ifndef VERIF_SHIM_SUBSTITUTE_H_
#define VERIF_SHIM_SUBSTITUTE_H_
#include <absl/status/status.h>
#include <absl/status/statusor.h>
#include <absl/strings/str_cat.h>
#include_next <absl/strings/substitute.h>
#include "verif_absl_shim.h"
#define Substitute VerifShimSubstitute
#endif
