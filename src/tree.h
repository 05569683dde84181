// A command tree described by data, built as a real cli::Menu tree, and interpreted by a reference model.
#pragma once
#include "mc.h"
#include <cli/cli.h>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace tree {

enum Kind { MENU, NOARG, INT, STR, FREE, INT2, FPTR, FREEVAL, CHR };

struct Node {
    int id = 0; Kind kind = NOARG; std::string name, desc, prompt; std::vector<std::string> par;
    bool enabled = true, removed = false; int parent = -1; std::vector<int> kids;
    cli::CmdHandler h; cli::Menu* menu = nullptr;
};

struct World;
inline World*& fworld() { static World* w; return w; }
inline int& fid() { static int i; return i; }

struct World {
    std::vector<Node> n;                     // n[0] is the root menu
    std::vector<std::string> log, wrong;     // handler invocations "id(args)", wrong command lines
    const std::ostream* expect_out = nullptr;// stream every handler must receive
    bool bad_out = false;
    std::function<void(int)> on_call;        // what handlers do besides logging
    std::unique_ptr<cli::Cli> cli;

    int add(int parent, Kind k, const std::string& name)
    {
        Node x; x.id = n.size(); x.kind = k; x.name = name; x.desc = k == MENU && name.empty() ? "" : "desc" + std::to_string(x.id); x.parent = parent; x.prompt = k == MENU ? "P" + std::to_string(x.id) : "";
        n.push_back(x);
        if (parent >= 0) n[parent].kids.push_back(x.id);
        return x.id;
    }
    void called(std::ostream& o, int id, const std::string& args)
    {
        log.push_back(std::to_string(id) + "(" + args + ")");
        if (expect_out && &o != expect_out) bad_out = true;
        if (on_call) on_call(id);
    }
    volatile int last_done = 0;
    void done(int id) { last_done = id; }    // reads the closure after the call: it must still be alive
    static std::string lst(const std::vector<std::string>& v) { std::string r; for (auto& s : v) r += (r.empty() ? "" : ",") + s; return r; }
    static void fptr(std::ostream& o, int i) { World* w = fworld(); w->called(o, fid(), std::to_string(i)); }

    std::unique_ptr<cli::Menu> make(int id)
    {
        const Node m = n[id];
        auto r = m.name.empty() ? std::make_unique<cli::Menu>() : std::make_unique<cli::Menu>(m.name, m.desc, m.prompt);
        n[id].menu = r.get(); fill(*r, id);
        return r;
    }
    void fill(cli::Menu& menu, int id)
    {
        for (int k : std::vector<int>(n[id].kids)) put(menu, k);
    }
    void insert_now(int k) { put(*n[n[k].parent].menu, k); }     // a node added after build()
    void put(cli::Menu& menu, int k)
    {
        {
            const Node c = n[k]; int i = k;
            switch (c.kind) {
                case MENU: n[k].h = menu.Insert(make(k)); break;
                case NOARG: n[k].h = menu.Insert(c.name, [this, i](std::ostream& o) { called(o, i, ""); done(i); }, c.desc, c.par); break;
                case INT: n[k].h = menu.Insert(c.name, [this, i](std::ostream& o, int v) { called(o, i, std::to_string(v)); done(i); }, c.desc, c.par); break;
                case STR: n[k].h = menu.Insert(c.name, c.par, [this, i](std::ostream& o, const std::string& v) { called(o, i, v); done(i); }, c.desc); break;
                case FREE: n[k].h = menu.Insert(c.name, [this, i](std::ostream& o, const std::vector<std::string>& v) { called(o, i, lst(v)); done(i); }, c.desc, c.par); break;
                case FREEVAL: n[k].h = menu.Insert(c.name, c.par, [this, i](std::ostream& o, std::vector<std::string> v) { called(o, i, lst(v)); done(i); }, c.desc); break;
                case INT2: n[k].h = menu.Insert(c.name, [this, i](std::ostream& o, int a, int b) { called(o, i, std::to_string(a) + "," + std::to_string(b)); done(i); }, c.desc, c.par); break;
                case CHR: n[k].h = menu.Insert(c.name, [this, i](std::ostream& o, char a) { called(o, i, std::string(1, a)); done(i); }, c.desc, c.par); break;
                case FPTR: fworld() = this; fid() = i; n[k].h = menu.Insert(c.name, &World::fptr, c.desc, c.par); break;
            }
        }
    }
    void build(std::unique_ptr<cli::HistoryStorage> st = nullptr)
    {
        if (st) cli = std::make_unique<cli::Cli>(make(0), std::move(st)); else cli = std::make_unique<cli::Cli>(make(0));
    }
    void custom_wrong() { cli->WrongCommandHandler([this](std::ostream& o, const std::string& l) { wrong.push_back(l); if (expect_out && &o != expect_out) bad_out = true; }); }

    // ---------------- reference model
    bool live(int id) const { return n[id].enabled && !n[id].removed; }
    static bool num(const std::string& s)
    {
        size_t i = 0; if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i;
        if (i == s.size() || s.size() > 8) return false;
        for (; i < s.size(); ++i) if (s[i] < '0' || s[i] > '9') return false;
        return true;
    }
    static std::string canon(const std::string& s) { return std::to_string(atoi(s.c_str())); }
    struct Res { enum { NONE, CALL, NAV } what = NONE; int id = -1; std::string call; };
    using V = std::vector<std::string>;
    bool cmd(int id, const V& t, size_t at, Res& r) const
    {
        const Node& x = n[id]; size_t argc = t.size() - at - 1;
        if (x.name != t[at]) return false;
        std::string a;
        switch (x.kind) {
            case NOARG: if (argc) return false; break;
            case INT: case FPTR: if (argc != 1 || !num(t[at + 1])) return false; a = canon(t[at + 1]); break;
            case STR: if (argc != 1) return false; a = t[at + 1]; break;
            case CHR: if (argc != 1 || t[at + 1].size() != 1) return false; a = t[at + 1]; break;
            case INT2: if (argc != 2 || !num(t[at + 1]) || !num(t[at + 2])) return false; a = canon(t[at + 1]) + "," + canon(t[at + 2]); break;
            case FREE: case FREEVAL: for (size_t i = 0; i < argc; ++i) a += (i ? "," : "") + t[at + 1 + i]; break;
            case MENU: return false;
        }
        r.what = Res::CALL; r.id = id; r.call = std::to_string(id) + "(" + a + ")";
        return true;
    }
    bool inside(int m, const V& t, size_t at, Res& r) const      // entries of menu m, then its parent
    {
        for (int k : n[m].kids) {
            if (!live(k)) continue;
            if (n[k].kind != MENU) { if (cmd(k, t, at, r)) return true; continue; }
            if (n[k].name == t[at]) { if (t.size() == at + 1) { r.what = Res::NAV; r.id = k; return true; } if (inside(k, t, at + 1, r)) return true; }
        }
        int p = n[m].parent;
        if (p >= 0 && live(p) && (t[at] == ".." || t[at] == n[p].name)) {
            if (t.size() == at + 1) { r.what = Res::NAV; r.id = p; return true; }
            return inside(p, t, at + 1, r);
        }
        return false;
    }
    static bool builtin(const V& t)
    {
        if (t.size() == 1) return t[0] == "help" || t[0] == "exit" || t[0] == "history";
        return t.size() == 2 && t[0] == "!" && num(t[1]) && t[1][0] != '-';
    }
    Res resolve(int cur, const V& t) const { Res r; inside(cur, t, 0, r); return r; }

    // completions
    static std::string ltrim(const std::string& s) { size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) ++i; return s.substr(i); }
    static bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
    // does line begin with the whole word w?
    static bool word(const std::string& line, const std::string& w) { return !w.empty() && starts(line, w) && (line.size() == w.size() || isspace((unsigned char)line[w.size()])); }
    void comp_inside(int m, const std::string& line, const std::string& pre, V& out) const
    {
        for (int k : n[m].kids) {
            if (!live(k)) continue;
            if (n[k].kind == MENU && word(line, n[k].name)) comp_inside(k, ltrim(line.substr(n[k].name.size())), pre + n[k].name + " ", out);
            else if (!n[k].name.empty() && starts(n[k].name, line)) out.push_back(pre + n[k].name);
        }
        int p = n[m].parent;
        if (p >= 0 && live(p)) {
            if (word(line, n[p].name)) comp_inside(p, ltrim(line.substr(n[p].name.size())), pre + n[p].name + " ", out);
            else if (word(line, "..")) comp_inside(p, ltrim(line.substr(2)), pre + ".. ", out);
            else if (!n[p].name.empty() && starts(n[p].name, line)) out.push_back(pre + n[p].name);
        }
    }
    V completions(int cur, const std::string& l) const
    {
        std::string line = ltrim(l); V out;
        for (const char* b : {"help", "exit", "history", "!"}) if (starts(b, line)) out.push_back(b);
        comp_inside(cur, line, "", out);
        std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end());
        return out;
    }
    // help: entries of the current menu as "name params|description"
    V help(int cur) const
    {
        V r;
        auto line = [&](int k) {
            const Node& x = n[k]; std::string s = x.name;
            if (x.kind != MENU) {
                if (!x.par.empty()) for (auto& p : x.par) s += " <" + p + ">";
                else switch (x.kind) { case INT: case FPTR: s += " <int>"; break; case STR: s += " <string>"; break; case FREE: case FREEVAL: s += " <list of strings>"; break; case INT2: s += " <int> <int>"; break; case CHR: s += " <char>"; break; default: break; }
            }
            r.push_back(s + "|" + x.desc);
        };
        for (int k : n[cur].kids) if (live(k)) line(k);
        int p = n[cur].parent;
        if (p >= 0 && live(p)) line(p);
        return r;
    }
    std::string dump(int id = 0) const
    {
        static const char* kn[] = {"menu", "()", "(int)", "(string)", "(list)", "(int,int)", "fptr(int)", "(list value)", "(char)"};
        std::string s = n[id].name + (n[id].kind == MENU ? "" : kn[n[id].kind]) + "#" + std::to_string(id);
        if (!n[id].enabled) s += "-disabled"; if (n[id].removed) s += "-removed";
        if (n[id].kind == MENU) { s += "{"; for (int k : n[id].kids) s += " " + dump(k); s += " }"; }
        return s;
    }
    std::vector<int> menus() const { std::vector<int> r; for (auto& x : n) if (x.kind == MENU) r.push_back(x.id); return r; }
    // tokens that lead from the root to menu m
    V path(int m) const { V r; while (n[m].parent >= 0) { r.insert(r.begin(), n[m].name); m = n[m].parent; } return r; }
};

inline std::string join(const std::vector<std::string>& v) { std::string r; for (auto& s : v) r += (r.empty() ? "" : " ") + s; return r; }

// parses the output of help: the entries as "name params|description"
inline std::vector<std::string> parse_help(const std::string& out)
{
    std::vector<std::string> r; std::istringstream is(out); std::string l;
    while (std::getline(is, l)) {
        if (l.compare(0, 3, " - ") == 0) r.push_back(l.substr(3));
        else if (!l.empty() && l[0] == '\t' && !r.empty()) r.back() += "|" + l.substr(1);
        else if (!r.empty() && !l.empty()) r.push_back("?" + l);
    }
    return r;
}

} // namespace tree
