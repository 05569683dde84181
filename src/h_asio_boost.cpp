#define BOOST_ASIO_DISABLE_THREAD_KEYWORD_EXTENSION 1   // thread-specific data through the controlled scheduler
#define BOOST_ASIO_DISABLE_ALIGNOF 1                    // memory through operator new
#include <cli/boostasioscheduler.h>
#define NS asio_boost
#define ASIO boost::asio
#define SCHED cli::BoostAsioScheduler
#define LIBNAME "boost"
#include "asio_model.h"
