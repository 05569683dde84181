#define ASIO_DISABLE_THREAD_KEYWORD_EXTENSION 1   // thread-specific data through the controlled scheduler
#define ASIO_DISABLE_ALIGNOF 1                    // memory through operator new
#include <cli/standaloneasioscheduler.h>
#define NS asio_std
#define ASIO asio
#define SCHED cli::StandaloneAsioScheduler
#define LIBNAME "standalone"
#include "asio_model.h"
