#ifndef VERIF_SHIM_STR_FORMAT_H_
#define VERIF_SHIM_STR_FORMAT_H_
#include <absl/status/status.h>
#include <absl/status/statusor.h>
#include <absl/strings/str_cat.h>
#include_next <absl/strings/str_format.h>
#include "verif_absl_shim.h"
#define StrFormat VerifShimStrFormat
#endif
