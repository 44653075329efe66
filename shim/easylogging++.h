// Stand-in for the logging library (an external dependency of the code under verification).
// Messages are dropped; a failed CHECK and LOG(FATAL) end the program (vp_abort never returns).
#ifndef VP_EASYLOGGING
#define VP_EASYLOGGING
// the real easylogging++ header makes these available to the code including it
#include <string>
#include <vector>
#include <map>
#include <iostream>
#include <sstream>
#include <memory>
#include <limits>
#include <algorithm>
#include <functional>
#include <utility>
#include <cstring>
#include <cstdlib>
#include <cmath>
extern "C" void vp_abort() __attribute__((noreturn));
namespace vp {
  struct NullStream {
    template<typename T> NullStream & operator<<( T const & ) { return *this; }
  };
  inline bool chk( bool i_c ) { if( !i_c ) vp_abort(); return false; }
}
#define VP_DROP            for(;false;) vp::NullStream()
#define VP_LOG_INFO        VP_DROP
#define VP_LOG_TRACE       VP_DROP
#define VP_LOG_DEBUG       VP_DROP
#define VP_LOG_ERROR       VP_DROP
#define VP_LOG_WARNING     VP_DROP
#define VP_LOG_VERBOSE     VP_DROP
#define VP_LOG_FATAL       for(vp_abort();false;) vp::NullStream()
#define LOG(x)             VP_LOG_##x
#define LOG_IF(c,x)        VP_LOG_##x
#define VLOG(x)            VP_DROP
#define VLOG_IF(c,x)       VP_DROP
#define VLOG_IS_ON(x)      false
#undef CHECK
#define CHECK(c)           for(;vp::chk( (c) ? true : false );) vp::NullStream()
#define CHECK_EQ(a,b)      CHECK((a)==(b))
#define CHECK_NE(a,b)      CHECK((a)!=(b))
#define CHECK_LT(a,b)      CHECK((a)<(b))
#define CHECK_GT(a,b)      CHECK((a)>(b))
#define CHECK_LE(a,b)      CHECK((a)<=(b))
#define CHECK_GE(a,b)      CHECK((a)>=(b))
#endif
