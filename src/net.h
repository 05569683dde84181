// Telnet rig: the client's end of a connection, the telnet decoder, a server with sessions
#pragma once
#include "mc.h"
#ifdef STD_ASIO   // the second compilation: everything of the library is in namespace cli_std, on the standalone asio
#include <asio.hpp>
#include <cli/standaloneasioscheduler.h>
#include <cli/standaloneasioremotecli.h>
#define LASIO asio
#define ASIOSCHED cli::StandaloneAsioScheduler
#define TELNETSRV cli::StandaloneAsioCliTelnetServer
#define ASYNCSES cli::StandaloneAsioCliAsyncSession
#define NETNS std_asio
#else
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
#define LASIO boost::asio
#define ASIOSCHED cli::BoostAsioScheduler
#define TELNETSRV cli::BoostAsioCliTelnetServer
#define ASYNCSES cli::BoostAsioCliAsyncSession
#define NETNS boost_asio
#endif
#include <cli/cli.h>
#include "end.h"
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <cstring>
using namespace std;
using namespace mc;

namespace net { inline namespace NETNS {
struct TRig {
    Ctx& c; unique_ptr<cli::Cli> cl; unique_ptr<ASIOSCHED> sch; unique_ptr<TELNETSRV> srv; vector<unique_ptr<End>> e;
    int hi = 0; ostream* last_out = nullptr; function<void()> on_drop;
    TRig(Ctx& ctx, unsigned acts);   // actions: 1 global enter, 2 server enter, 4 server exit, 8 global exit
    End& connect();
    bool one();     // one handler of the loop
    void run();     // until idle
    ~TRig();
};
}}
#ifdef STD_ASIO
// the models are registered once more, with smaller bounds
namespace { struct RegStd { RegStd(Model m) { if (!strcmp(m.name, "slow-client")) return; string n = string("standalone-") + m.name; m.name = strdup(n.c_str()); m.thorough.clear(); if (!strcmp(m.name, "standalone-two-clients")) { m.thorough = m.quick; m.quick.clear(); } else if (m.quick.size() > 1) { m.thorough.assign(m.quick.begin() + 1, m.quick.end()); m.quick.resize(1); } Reg r(m); } }; }
#define Reg RegStd
#endif
