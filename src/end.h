// The client's end of a connection; the functions through which the libraries make their system calls (net.cpp)
#pragma once
#include "mc.h"
#include <map>
#include <memory>
#include <string>
#include <vector>
using namespace std;
using namespace mc;
namespace net {}
using namespace net;

namespace net {
struct End {                 // the client's end
    int cfd = -1, sfd = -1; string rx; bool eof = false, rst = false;
    bool noread = false;     // the client does not read
    bool victim = false;     // not disturbed by injected faults
    bool stalled = false;    // the socket accepts nothing
    int broken = 0, fails = 0; // the connection has failed: every receive fails with this error (so many have), every send with EPIPE
    weak_ptr<void> sess;
    void pull(); void put(const string& s); void close_(); void reset_();
};
extern mc::Ctx* C; extern int budget; extern int listen_fd;
extern bool inj_send, inj_recv, inj_accept, send_err, in_poll_block;
map<int, End*>& ends();
inline void reset_net(Ctx* c) { C = c; budget = 0; inj_send = inj_recv = inj_accept = send_err = in_poll_block = false; ends().clear(); listen_fd = -1; }
// standard input
extern bool inj_read; extern mc::Ctx* AC; extern int rbudget; extern unsigned long reads; extern int watch_dup;
// telnet decoder (RFC 854)
struct Nvt {
    string data, asks, cmds; bool odd = false; int state = 0; char verb = 0; // 0 data 1 IAC 2 option 3 sub 4 sub IAC
    void feed(const string& s)
    {
        for (char c : s) { unsigned char u = c; switch (state) {
            case 0: if (u == 255) state = 1; else data += c; break;
            case 1: if (u == 255) { data += c; state = 0; } else if (u >= 251) { verb = c; state = 2; } else if (u == 250) state = 3; else { cmds += c; state = 0; if (u < 240) odd = true; } break;
            case 2: if (u == 255) odd = true; cmds += verb; cmds += c; if (verb == '\xfb' || verb == '\xfd') asks += c; state = 0; break;
            case 3: if (u == 255) state = 4; break;
            case 4: if (u == 240) { state = 0; cmds += c; } else if (u == 255) state = 3; else { odd = true; state = 3; } break;
        } }
    }
};
}
