// Reference model of the command history: a plain list of entries with ids, newest last.
#pragma once
#include <string>
#include <vector>

struct RefHistory {
    struct E { std::string text; bool own; size_t id; };
    size_t max; std::vector<E> e;           // oldest first; while browsing the last one is the line being typed
    bool browsing = false; size_t pos = 0;  // pos counts back from the newest (0)
    size_t next = 0;                        // id the next entry gets
    explicit RefHistory(size_t m) : max(m) {}
    void push(const std::string& s, bool own)
    {
        if (!max) return;
        e.push_back({s, own, e.empty() ? next : e.back().id + 1});
        if (e.size() > max) e.erase(e.begin());
        next = e.back().id + 1;
    }
    void pop() { next = e.back().id; e.pop_back(); }
    void load(const std::vector<std::string>& v) { for (auto& s : v) push(s, false); }
    // a command is entered
    void enter(const std::string& s)
    {
        if (browsing) { pop_draft(); }
        browsing = false; pos = 0;
        if (!e.empty() && e.back().text == s) { e.back().own = true; return; }
        push(s, true);
    }
    void pop_draft() { pop(); }
    std::string up(const std::string& line)
    {
        if (!max) return line;
        if (!browsing) { push(line, false); browsing = true; pos = e.size() > 1 ? 1 : 0; }
        else { at(pos).text = line; if (pos + 1 < e.size()) ++pos; }
        return at(pos).text;
    }
    std::string down() { if (e.empty() || pos == 0) return {}; --pos; return at(pos).text; }
    E& at(size_t p) { return e[e.size() - 1 - p]; }
    void blank() { expand(); }
    // the '!' line itself is never recorded, but it ends browsing
    void expand() { if (browsing) pop_draft(); browsing = false; pos = 0; }
    const E* find(size_t id) const { for (auto& x : e) if (x.id == id) return &x; return nullptr; }
    std::vector<std::string> show() const { std::vector<std::string> r; for (auto& x : e) r.push_back(std::to_string(x.id) + "\t" + x.text); return r; }
    // commands entered in this session still retained, oldest first
    std::vector<std::string> own() const { std::vector<std::string> r; for (size_t i = 0; i < e.size() - (browsing ? 1 : 0); ++i) if (e[i].own) r.push_back(e[i].text); return r; }
    std::vector<std::string> texts() const { std::vector<std::string> r; for (auto& x : e) r.push_back(x.text); return r; }
};

inline std::vector<std::string> parse_history(const std::string& out)
{
    std::vector<std::string> r; size_t i = 0;
    while (i < out.size()) { size_t j = out.find('\n', i); if (j == std::string::npos) j = out.size(); std::string l = out.substr(i, j - i); if (!l.empty()) r.push_back(l); i = j + 1; }
    return r;
}
// Sessions whose history size is not specified (file and async sessions): what is stored is the end of the session's own
// commands, at least the latest one. Says what is wrong, or nothing.
inline std::string judge_stored(const std::vector<std::vector<std::string>>& stored, const std::vector<std::string>& own)
{
    auto s = [](const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += (r.empty() ? "" : ", ") + x; return "(" + r + ")"; };
    std::vector<std::string> got; size_t n = 0; for (auto& v : stored) if (!v.empty()) { ++n; got = v; }
    if (n > 1 || stored.size() > 1) return "commands stored " + std::to_string(stored.size()) + " times";
    if (own.empty() ? !got.empty() : got.empty() || got.size() > own.size() || std::vector<std::string>(own.end() - got.size(), own.end()) != got) return "stored " + s(got) + ", expected the end of " + s(own);
    return {};
}
