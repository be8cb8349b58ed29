#pragma once
#include "absl/log/log.h"
#define CHECK(c) (__builtin_expect(static_cast<bool>(c), 1)) ? (void)0 : ::vp_shim_log::Voidify() & LOG(FATAL) << "Check failed: " #c " "
#define VP_SHIM_OP(a, op, b) CHECK((a)op(b))
#define CHECK_EQ(a, b) VP_SHIM_OP(a, ==, b)
#define CHECK_NE(a, b) VP_SHIM_OP(a, !=, b)
#define CHECK_GE(a, b) VP_SHIM_OP(a, >=, b)
#define CHECK_GT(a, b) VP_SHIM_OP(a, >, b)
#define CHECK_LE(a, b) VP_SHIM_OP(a, <=, b)
#define CHECK_LT(a, b) VP_SHIM_OP(a, <, b)
#define CHECK_OK(s) for (absl::Status vp_s_ = ::vp_shim_log::AsStatus(s); !vp_s_.ok();) LOG(FATAL) << "CHECK_OK(" #s ") " << vp_s_ << " "
#define QCHECK CHECK
#define QCHECK_OK CHECK_OK
#define DCHECK(c) CHECK(true || (c))
#define DCHECK_EQ(a, b) DCHECK((a) == (b))
#define DCHECK_NE(a, b) DCHECK((a) != (b))
#define DCHECK_GE(a, b) DCHECK((a) >= (b))
#define DCHECK_GT(a, b) DCHECK((a) > (b))
#define DCHECK_LE(a, b) DCHECK((a) <= (b))
#define DCHECK_LT(a, b) DCHECK((a) < (b))
#define PCHECK CHECK
#define DCHECK_OK(s) DCHECK((s).ok())
#define QCHECK_EQ CHECK_EQ
#define QCHECK_NE CHECK_NE
#define QCHECK_GE CHECK_GE
#define QCHECK_GT CHECK_GT
#define QCHECK_LE CHECK_LE
#define QCHECK_LT CHECK_LT
