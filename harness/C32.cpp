#include <vp.h>
#include <u5e/version.hpp>
using namespace u5e::version;
CHECK check_version() {
  __vp_assert_eq(run_time::major, compile_time::major, "major");
  __vp_assert_eq(run_time::minor, compile_time::minor, "minor");
  __vp_assert_eq(run_time::patch, compile_time::patch, "patch");
  __vp_cover("version");
}
