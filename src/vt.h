// A terminal of unlimited size: interprets the bytes a session writes.
#pragma once
#include <string>
#include <vector>

struct VT {
    std::vector<std::string> rows{""}; std::vector<std::vector<int>> st{{}};
    size_t r = 0, c = 0; int style = 0; std::string bad; std::string esc; bool in = false; bool raw_nl = true;
    void put(char ch)
    {
        while (rows[r].size() <= c) { rows[r] += ' '; st[r].push_back(0); }
        rows[r][c] = ch; st[r][c] = style; ++c;
    }
    void feed(const std::string& s) { for (char ch : s) byte(ch); }
    void byte(char ch)
    {
        if (in) {
            esc += ch; unsigned char u = ch;
            if (esc == "[") return;
            if (u >= 0x40 && u <= 0x7e) {
                in = false;
                if (esc == "[H") { r = c = 0; }
                else if (esc == "[J") { rows.resize(r + 1); st.resize(r + 1); if (rows[r].size() > c) { rows[r].resize(c); st[r].resize(c); } }
                else if (u == 'm') { int v = 0; bool any = false; for (size_t i = 1; i < esc.size(); ++i) { if (esc[i] >= '0' && esc[i] <= '9') { v = v * 10 + esc[i] - '0'; any = true; } else { style = any && v ? v : 0; v = 0; any = false; } } }
                else bad = "unknown sequence ESC" + esc;
            } else if (esc.size() > 12) { bad = "endless escape sequence"; in = false; }
            return;
        }
        switch (ch) {
            case 27: in = true; esc.clear(); break;
            case '\b': if (c) --c; else bad = "backspace in the first column"; break;
            case '\r': c = 0; break;
            case '\n': ++r; if (raw_nl) c = 0; if (r == rows.size()) { rows.push_back(""); st.push_back({}); } break;
            case '\t': c = (c / 8 + 1) * 8; break;
            default: put(ch);
        }
    }
    static std::string rtrim(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
};

// removes ESC [ ... m
inline std::string unstyle(const std::string& s, bool* any = nullptr)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == 27 && i + 1 < s.size() && s[i + 1] == '[') {
            size_t j = i + 2; while (j < s.size() && ((s[j] >= '0' && s[j] <= '9') || s[j] == ';')) ++j;
            if (j < s.size() && s[j] == 'm') { if (any) *any = true; i = j; continue; }
        }
        r += s[i];
    }
    return r;
}
