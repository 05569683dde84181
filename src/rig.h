// A session driven by keys through the real CommandProcessor
#pragma once
#include "mc.h"
#include "tree.h"
#include <cli/detail/commandprocessor.h>
#include <cli/detail/screen.h>
#include <deque>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

using namespace std;
using namespace mc;
using namespace tree;
using cli::detail::KeyType;
typedef pair<KeyType, char> Key;

struct QueueSched : cli::Scheduler {
    deque<function<void()>> q;
    void Post(const function<void()>& f) override { q.push_back(f); }
    void drain() { while (!q.empty()) { auto f = q.front(); q.pop_front(); f(); } }
};
struct Kb : cli::detail::InputDevice {
    explicit Kb(cli::Scheduler& s) : InputDevice(s) {}
    void key(Key k) { Notify(k); }
};
static Key ch(char c) { return {KeyType::ascii, c}; }
static const Key LEFT{KeyType::left, ' '}, RIGHT{KeyType::right, ' '}, HOME{KeyType::home, ' '}, END{KeyType::end, ' '}, BS{KeyType::backspace, ' '}, DEL{KeyType::canc, ' '}, UP{KeyType::up, ' '}, DOWN{KeyType::down, ' '}, RET{KeyType::ret, ' '}, CLEAR{KeyType::clear, ' '}, IGN{KeyType::ignored, ' '}, EOFK{KeyType::eof, ' '}, TAB = ch('\t');
static string keyname(Key k)
{
    static const char* n[] = {"", "up", "down", "left", "right", "backspace", "delete", "home", "end", "enter", "eof", "unknown", "clear"};
    if (k.first == KeyType::ascii) return k.second == '\t' ? "TAB" : show(string(1, k.second));
    return n[(int)k.first];
}

// the real session behind the real command processor
struct Rig {
    World& w; ostringstream out; QueueSched sched; Kb kb; unique_ptr<cli::CliSession> s; unique_ptr<cli::detail::CommandProcessor<cli::detail::TelnetScreen>> cp;
    Rig(World& _w, size_t hist) : w(_w), kb(sched)
    {
        s = make_unique<cli::CliSession>(*w.cli, out, hist); w.expect_out = &out;
        cp = make_unique<cli::detail::CommandProcessor<cli::detail::TelnetScreen>>(*s, kb);
        s->Enter(); s->Prompt();
    }
    string take() { string r = out.str(); out.str(""); return r; }
    void key(Key k) { kb.key(k); sched.drain(); }
};
struct Stored : cli::HistoryStorage { vector<string> v; explicit Stored(vector<string> x) : v(x) {} void Store(const vector<string>&) override {} vector<string> Commands() const override { return v; } void Clear() override {} };

