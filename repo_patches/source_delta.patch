From 070e79914fa4d4604dc733e0e6da538dbd5692c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 01/43] fix: a std::bad_cast thrown by a command handler is not
 a wrong command

---
 include/cli/cli.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 437e838..b72f2f6 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -36,6 +36,7 @@
 #include <functional>
 #include <algorithm>
 #include <cctype> // std::isspace
+#include <exception>
 #include <type_traits>
 #include "colorprofile.h"
 #include "detail/history.h"
@@ -781,15 +782,30 @@ namespace cli
             if (cmdLine.size() != paramSize+1) return false;
             if (Name() == cmdLine[0])
             {
+                // a bad_cast must be handled as a wrong command only when it comes from
+                // the conversion of the parameters, not when the handler throws it
+                std::exception_ptr handlerException;
                 try
                 {
-                    auto g = [&](auto ... pars){ func( session.OutStream(), pars... ); };
+                    auto g = [&](auto ... pars)
+                    {
+                        try
+                        {
+                            func( session.OutStream(), pars... );
+                        }
+                        catch (...)
+                        {
+                            handlerException = std::current_exception();
+                        }
+                    };
                     Select<Args...>::Exec(g, std::next(cmdLine.begin()), cmdLine.end());
                 }
                 catch (std::bad_cast&)
                 {
                     return false;
                 }
+                if (handlerException)
+                    std::rethrow_exception(handlerException);
                 return true;
             }
             return false;
-- 
2.43.0


From bd1b1e2877e053a44b6e73f063793da086085379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:38 +0000
Subject: [PATCH 02/43] fix: a disabled menu does not complete to its content

---
 include/cli/cli.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index b72f2f6..38fe029 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -570,6 +570,8 @@ namespace cli
          */
         std::vector<std::string> GetCompletionRecursive(const std::string& line) const override
         {
+            if (!IsEnabled()) return {};
+
             if (line.rfind(Name(), 0) == 0) // line starts_with Name()
             {
                 return GetCompletionRecursiveHelper(line, Name());
@@ -594,6 +596,8 @@ namespace cli
          */
         std::vector<std::string> GetCompletionWithParent(const std::string& line) const
         {
+            if (!IsEnabled()) return {};
+
             if (line.rfind(Name(), 0) == 0) // line starts_with Name()
             {
                 return GetCompletionRecursiveHelper(line, Name());
-- 
2.43.0


From c53cc342153687cb8104bccb0ef044571ff53d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:38 +0000
Subject: [PATCH 03/43] fix: the content of a menu completes only lines that
 name that menu

---
 include/cli/cli.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 38fe029..b494ecf 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -572,7 +572,7 @@ namespace cli
         {
             if (!IsEnabled()) return {};
 
-            if (line.rfind(Name(), 0) == 0) // line starts_with Name()
+            if (StartsWithWord(line, Name()))
             {
                 return GetCompletionRecursiveHelper(line, Name());
             }
@@ -598,12 +598,12 @@ namespace cli
         {
             if (!IsEnabled()) return {};
 
-            if (line.rfind(Name(), 0) == 0) // line starts_with Name()
+            if (StartsWithWord(line, Name()))
             {
                 return GetCompletionRecursiveHelper(line, Name());
             }
 
-            if (line.rfind(ParentShortcut(), 0) == 0) // line starts_with ..
+            if (StartsWithWord(line, ParentShortcut()))
             {
                 return GetCompletionRecursiveHelper(line, ParentShortcut());
             }
@@ -682,6 +682,14 @@ namespace cli
             return false;
         }
 
+        // line starts with the given word, followed by the end of the line or by a blank
+        static bool StartsWithWord(const std::string& line, const std::string& word)
+        {
+            return !word.empty() &&
+                line.compare(0, word.size(), word) == 0 &&
+                (line.size() == word.size() || std::isspace(static_cast<unsigned char>(line[word.size()])));
+        }
+
         static std::string ParentShortcut()
         {
             return "..";
-- 
2.43.0


From 22ddca46ff714aa986fc0ab9a89ce91ac3a2a19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:38 +0000
Subject: [PATCH 04/43] fix: an unnamed menu is not offered as a completion

---
 include/cli/cli.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index b494ecf..ed44ad4 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -269,7 +269,7 @@ namespace cli
         // and the subcommand recursively
         virtual std::vector<std::string> GetCompletionRecursive(const std::string& line) const
         {
-            if (!enabled) return {};
+            if (!enabled || name.empty()) return {}; // an unnamed menu cannot be typed
             if (name.rfind(line, 0) == 0) return {name}; // name starts_with line
             return {};
         }
-- 
2.43.0


From a1b839bf1da316ebcf7a7da234a3efb7068398f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 05/43] fix: a command can be removed by its own handler

---
 include/cli/cli.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index ed44ad4..55abafd 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -511,7 +511,7 @@ namespace cli
         {
             if (!IsEnabled())
                 return false;
-            for (auto& cmd: *cmds)
+            for (auto cmd: *cmds) // a copy: the command stays alive even if its handler removes it
                 if (cmd->Exec(cmdLine, session))
                     return true;
             assert(!cmdLine.empty());
@@ -674,7 +674,7 @@ namespace cli
                 {
                     // check also for subcommands
                     std::vector<std::string > subCmdLine(cmdLine.begin()+1, cmdLine.end());
-                    for (auto& cmd: *cmds)
+                    for (auto cmd: *cmds) // a copy: the command stays alive even if its handler removes it
                         if (cmd->Exec( subCmdLine, session )) return true;
                     return (parent && parent->ExecParent(subCmdLine, session));
                 }
-- 
2.43.0


From 95026d6b349183dc9a72c32fce4989dc285eda8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 06/43] fix: sessions inside a disabled menu, at any depth,
 cannot use its content

---
 include/cli/cli.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 55abafd..7da8ce7 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -509,7 +509,7 @@ namespace cli
 
         bool ScanCmds(const std::vector<std::string>& cmdLine, CliSession& session)
         {
-            if (!IsEnabled())
+            if (!IsAvailable())
                 return false;
             for (auto cmd: *cmds) // a copy: the command stays alive even if its handler removes it
                 if (cmd->Exec(cmdLine, session))
@@ -525,7 +525,7 @@ namespace cli
 
         void MainHelp(std::ostream& out)
         {
-            if (!IsEnabled()) return;
+            if (!IsAvailable()) return;
             for (const auto& cmd: *cmds)
                 cmd->Help(out);
             if (parent != nullptr)
@@ -544,6 +544,7 @@ namespace cli
         // - the recursive completions of parent menu
         std::vector<std::string> GetCompletions(const std::string& currentLine) const
         {
+            if (!IsAvailable()) return {};
             auto result = cli::GetCompletions(cmds, currentLine);
             if (parent != nullptr)
             {
@@ -582,6 +583,12 @@ namespace cli
 
     private:
 
+        // the content of a menu is available only when the menu and all its ancestors are enabled
+        bool IsAvailable() const
+        {
+            return IsEnabled() && (parent == nullptr || parent->IsAvailable());
+        }
+
         /**
          * Retrieves completion suggestions for the user input recursively, including the parent command.
          *
-- 
2.43.0


From 07123b3157acc74c845dc13221c8150cd7aa5d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 07/43] fix: a session inside a menu that gets removed goes
 back to the root menu

---
 include/cli/cli.h | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 7da8ce7..dde7ac9 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -322,7 +322,7 @@ namespace cli
 
         void Prompt();
 
-        void Current(Menu* menu) { current = menu; }
+        void Current(Menu* menu);
 
         std::ostream& OutStream() { return out; }
 
@@ -382,7 +382,11 @@ namespace cli
 
         Cli& cli;
         std::shared_ptr<cli::OutStream> coutPtr;
+        // the menu the session is in (the root menu if the one it was in has been removed)
+        Menu* CurrentMenu() const { return currentAlive.expired() ? cli.RootMenu() : current; }
+
         Menu* current;
+        std::weak_ptr<const void> currentAlive; // expires when the current menu is destroyed
         std::unique_ptr<Menu> globalScopeMenu;
         std::ostream& out;
         std::function< void(std::ostream&)> enterAction = []( std::ostream& ) noexcept {};
@@ -523,6 +527,12 @@ namespace cli
             return prompt;
         }
 
+        // returns a pointer that expires when this menu is destroyed
+        std::weak_ptr<const void> LifeToken() const
+        {
+            return cmds;
+        }
+
         void MainHelp(std::ostream& out)
         {
             if (!IsAvailable()) return;
@@ -919,6 +929,7 @@ namespace cli
             out(_out),
             history(historySize)
         {
+            Current(cli.RootMenu());
             history.LoadCommands(cli.GetCommands());
 
             coutPtr->Register(out);
@@ -944,6 +955,12 @@ namespace cli
             );
         }
 
+    inline void CliSession::Current(Menu* menu)
+    {
+        current = menu;
+        currentAlive = menu->LifeToken();
+    }
+
     inline void CliSession::Feed(const std::string& cmd)
     {
         std::vector<std::string> strs;
@@ -958,7 +975,7 @@ namespace cli
             bool found = globalScopeMenu->ScanCmds(strs, *this);
 
             // root menu recursive cmds check
-            if (!found) found = current->ScanCmds(strs, *this);
+            if (!found) found = CurrentMenu()->ScanCmds(strs, *this);
 
             if (!found) // wrong command handler if not found
                 cli.WrongCommandHandler(out, cmd);
@@ -979,7 +996,7 @@ namespace cli
     {
         if (exit) return;
         out << beforePrompt
-            << current->Prompt()
+            << CurrentMenu()->Prompt()
             << afterPrompt
             << "> "
             << std::flush;
@@ -989,7 +1006,7 @@ namespace cli
     {
         out << "Commands available:\n";
         globalScopeMenu->MainHelp(out);
-        current -> MainHelp( out );
+        CurrentMenu()->MainHelp( out );
     }
 
     inline std::vector<std::string> CliSession::GetCompletions(std::string currentLine) const
@@ -997,7 +1014,7 @@ namespace cli
         // trim_left(currentLine);
         currentLine.erase(currentLine.begin(), std::find_if(currentLine.begin(), currentLine.end(), [](int ch) { return !std::isspace(ch); }));
         auto v1 = globalScopeMenu->GetCompletions(currentLine);
-        auto v3 = current->GetCompletions(currentLine);
+        auto v3 = CurrentMenu()->GetCompletions(currentLine);
         v1.insert(v1.end(), std::make_move_iterator(v3.begin()), std::make_move_iterator(v3.end()));
 
         // removes duplicates (std::unique requires a sorted container)
-- 
2.43.0


From ca452c4fb19e9c882b230cab19a0b3fff0c64101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 08/43] fix: '!' on an empty history, or with an id beyond the
 newest, is out of range

---
 include/cli/detail/history.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index e8eb401..4f80b0e 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -165,14 +165,14 @@ private:
     // newest has index = 0      and id = idOfOldest + size-1 
     std::size_t IndexToId(std::size_t index) const
     {
-        if (index > idOfOldest+buffer.size()-1)
+        if (index >= buffer.size())
             throw std::out_of_range("Index not found in history");
         return idOfOldest + buffer.size() - 1 - index;
     }
 
     std::size_t IdToIndex(std::size_t id) const
     {
-        if (id < idOfOldest || id > idOfOldest+buffer.size()-1)
+        if (id < idOfOldest || id - idOfOldest >= buffer.size())
             throw std::out_of_range("Index not found in history");
         return idOfOldest + buffer.size() - 1 - id;
     }
-- 
2.43.0


From aa157c50f06b6d23aef9fda350bb70a6de17c0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 09/43] fix: a history of size 0 can be browsed

---
 include/cli/detail/history.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index 4f80b0e..ecd70ca 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -82,6 +82,7 @@ public:
         if (mode == Mode::inserting)
         {
             Insert(line);
+            if (buffer.empty()) return line; // the history has size 0
             mode = Mode::browsing;
             current = (buffer.size() > 1) ? 1 : 0;
         }
@@ -155,8 +156,8 @@ public:
 
     void ForgetLatest()
     {
-        assert(!buffer.empty());
-        buffer.pop_front();
+        if (!buffer.empty())
+            buffer.pop_front();
     }
 
 private:
@@ -179,6 +180,7 @@ private:
 
     void Insert(const std::string& item)
     {
+        if (maxSize == 0) return;
         buffer.emplace_front(item);
         if (buffer.size() > maxSize)
         {
-- 
2.43.0


From 6f96472a654f285a6c98e85d148a1a817be55b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 10/43] fix: the '!' line is forgotten without losing another
 history entry

---
 include/cli/detail/history.h | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index ecd70ca..12d39a5 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -56,18 +56,28 @@ public:
     {
         ++commands;
         current = 0;
+        latestInserted = false;
+        evicted.clear();
         if (mode == Mode::browsing)
         {
             assert(!buffer.empty());
             if (buffer.size() > 1 && buffer[1] == item) // try to insert an element identical to last one
                 buffer.pop_front();
             else // the item was not identical
+            {
                 buffer[current] = item;
+                latestInserted = true;
+            }
         }
         else // Mode::inserting
         {
             if (buffer.empty() || buffer[0] != item) // insert an element not equal to last one
+            {
+                if (!buffer.empty() && buffer.size() == maxSize)
+                    evicted.push_back(buffer.back());
                 Insert(item);
+                latestInserted = !buffer.empty();
+            }
         }
         mode = Mode::inserting;
     }
@@ -154,10 +164,20 @@ public:
         return buffer[index];
     }
 
+    // Undo the insertion made by the last NewCommand (if it made one)
     void ForgetLatest()
     {
-        if (!buffer.empty())
-            buffer.pop_front();
+        if (!latestInserted)
+            return;
+        latestInserted = false;
+        assert(!buffer.empty());
+        buffer.pop_front();
+        if (!evicted.empty())
+        {
+            buffer.push_back(evicted.front());
+            evicted.clear();
+            --idOfOldest;
+        }
     }
 
 private:
@@ -196,6 +216,8 @@ private:
     enum class Mode { inserting, browsing };
     Mode mode = Mode::inserting;
     std::size_t idOfOldest = 0; // the id of the oldest element kept in the history
+    bool latestInserted = false; // true if the last NewCommand inserted its item
+    std::vector<std::string> evicted; // the element (if any) dropped by the last NewCommand
 };
 
 } // namespace detail
-- 
2.43.0


From 165019e6121cfdc8418d9ba950a171a911094c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 11/43] fix: commands loaded from the history storage are not
 stored again

---
 include/cli/detail/history.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index 12d39a5..03a65f0 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -54,19 +54,23 @@ public:
     // Otherwise, the item is added to the front of the container
     void NewCommand(const std::string& item)
     {
-        ++commands;
         current = 0;
+        previousCommands = commands;
         latestInserted = false;
         evicted.clear();
         if (mode == Mode::browsing)
         {
             assert(!buffer.empty());
             if (buffer.size() > 1 && buffer[1] == item) // try to insert an element identical to last one
+            {
                 buffer.pop_front();
+                commands = std::max<std::size_t>(commands, 1); // the latest command belongs to this session
+            }
             else // the item was not identical
             {
                 buffer[current] = item;
                 latestInserted = true;
+                ++commands;
             }
         }
         else // Mode::inserting
@@ -77,7 +81,10 @@ public:
                     evicted.push_back(buffer.back());
                 Insert(item);
                 latestInserted = !buffer.empty();
+                ++commands;
             }
+            else
+                commands = std::max<std::size_t>(commands, 1); // the latest command belongs to this session
         }
         mode = Mode::inserting;
     }
@@ -167,6 +174,7 @@ public:
     // Undo the insertion made by the last NewCommand (if it made one)
     void ForgetLatest()
     {
+        commands = previousCommands;
         if (!latestInserted)
             return;
         latestInserted = false;
@@ -212,7 +220,8 @@ private:
     const std::size_t maxSize;
     std::deque<std::string> buffer; // buffer[0] is the newest element
     std::size_t current = 0;
-    std::size_t commands = 0; // number of commands issued
+    std::size_t commands = 0; // number of commands inserted by NewCommand
+    std::size_t previousCommands = 0; // the value of commands before the last NewCommand
     enum class Mode { inserting, browsing };
     Mode mode = Mode::inserting;
     std::size_t idOfOldest = 0; // the id of the oldest element kept in the history
-- 
2.43.0


From 087807a160c67fa5423f1a1c707a456f99251929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 12/43] fix: a session exits only once

---
 include/cli/cli.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index dde7ac9..6ce36c1 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -338,13 +338,14 @@ namespace cli
 
         void Exit()
         {
+            if (exit) return; // the session is already ended
+            exit = true; // prevent the prompt to be shown
+
             exitAction(out);
             cli.ExitAction(out);
 
             auto cmds = history.GetCommands();
             cli.StoreCommands(cmds);
-
-            exit = true; // prevent the prompt to be shown
         }
 
         void EnterAction(const std::function<void(std::ostream&)>& action)
-- 
2.43.0


From 576a217d6fbf64134a57c940d4ace7ac753cea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 13/43] fix: a history entry that refers to itself cannot be
 executed forever

---
 include/cli/cli.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 6ce36c1..866f31d 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -364,6 +364,14 @@ namespace cli
         {
             history.ForgetLatest();
             const auto cmd = history.At(index);
+            if (std::find(expanding.begin(), expanding.end(), index) != expanding.end())
+                throw std::runtime_error("Circular reference in history");
+            expanding.push_back(index);
+            struct Guard
+            {
+                std::vector<unsigned>& v;
+                ~Guard() { v.pop_back(); }
+            } guard{expanding};
             Feed(cmd);
         }
 
@@ -393,6 +401,7 @@ namespace cli
         std::function< void(std::ostream&)> enterAction = []( std::ostream& ) noexcept {};
         std::function< void(std::ostream&)> exitAction = []( std::ostream& ) noexcept {};
         detail::History history;
+        std::vector<unsigned> expanding; // the ids of the history entries being executed
         bool exit{ false }; // to prevent the prompt after exit command
     };
 
-- 
2.43.0


From 1b8539e3976820a5f89c5793b2a56827ca9f10a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 14/43] fix: a blank line entered while browsing the history
 does not alter its entries

---
 include/cli/cli.h            |  6 +++++-
 include/cli/detail/history.h | 10 ++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 866f31d..d01ab1d 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -975,7 +975,11 @@ namespace cli
     {
         std::vector<std::string> strs;
         detail::split(strs, cmd);
-        if (strs.empty()) return; // just hit enter
+        if (strs.empty()) // just hit enter
+        {
+            history.BlankCommand();
+            return;
+        }
 
         history.NewCommand(cmd); // add anyway to history
 
diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index 03a65f0..7c4d7fb 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -89,6 +89,16 @@ public:
         mode = Mode::inserting;
     }
 
+    // A blank line has been entered: go back to the current state "inserting"
+    // discarding the line that was being edited
+    void BlankCommand()
+    {
+        if (mode == Mode::browsing)
+            buffer.pop_front();
+        current = 0;
+        mode = Mode::inserting;
+    }
+
     // Return the previous item of the history, updating the current item and
     // changing the current state to "browsing"
     // If we're already browsing the history (eg with arrow keys) the edit line is inserted
-- 
2.43.0


From ff798139241706bc1a35ed719b4f408c4baff3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 15/43] fix: disconnecting a telnet session whose client is
 gone does not throw

---
 include/cli/detail/server.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/server.h b/include/cli/detail/server.h
index 8013057..64a5209 100644
--- a/include/cli/detail/server.h
+++ b/include/cli/detail/server.h
@@ -54,8 +54,10 @@ protected:
 
     virtual void Disconnect()
     {
-        socket.shutdown(asiolib::ip::tcp::socket::shutdown_both);
-        socket.close();
+        // the client could have already closed the connection: errors are ignored
+        asiolibec::error_code ec;
+        socket.shutdown(asiolib::ip::tcp::socket::shutdown_both, ec);
+        socket.close(ec);
     }
 
     virtual void Read()
-- 
2.43.0


From 610ae8238404d4df14a36cdc18e7b4d5f612e02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 16/43] fix: a telnet session can exit when the server has no
 exit action

---
 include/cli/detail/genericasioremotecli.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index f8f7760..220297c 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -457,7 +457,7 @@ public:
         CliSession(_cli, TelnetSession::OutStream(), historySize),
         poll(*this, *this)
     {
-        ExitAction([this, _exitAction](std::ostream& _out){ _exitAction(_out), Disconnect(); } );
+        ExitAction([this, _exitAction](std::ostream& _out){ if (_exitAction) _exitAction(_out); Disconnect(); } );
     }
 protected:
 
-- 
2.43.0


From 13bf71489c436ab84bbdfab635ee894ea3900356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 17/43] fix: the enter action of the telnet server is run

---
 include/cli/detail/genericasioremotecli.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 220297c..cbe0431 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -575,7 +575,9 @@ public:
     }
     std::shared_ptr<Session> CreateSession(asiolib::ip::tcp::socket _socket) override
     {
-        return std::make_shared<CliTelnetSession>(scheduler, std::move(_socket), cli, exitAction, historySize);
+        auto session = std::make_shared<CliTelnetSession>(scheduler, std::move(_socket), cli, exitAction, historySize);
+        session->EnterAction(enterAction);
+        return session;
     }
 private:
     Scheduler& scheduler;
-- 
2.43.0


From b3a8097e540b37b84a44b3c41043ad5c454f478b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 18/43] fix: telnet commands are sent as they are, data bytes
 255 are escaped

---
 include/cli/detail/genericasioremotecli.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index cbe0431..c8e297e 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -60,6 +60,7 @@ protected:
         for (char c: _data)
         {
             if (c == '\n') result += '\r';
+            if (c == static_cast<char>(IAC)) result += c; // a data byte 255 must be doubled
             result += c;
         }
         return result;
@@ -79,13 +80,13 @@ protected:
         // https://www.ibm.com/support/knowledgecenter/SSLTBW_1.13.0/com.ibm.zos.r13.hald001/telcmds.htm
 
         static const std::string iacDoLineMode{ "\x0FF\x0FD\x022", 3 };
-        this -> OutStream() << iacDoLineMode << std::flush;
+        Send(iacDoLineMode);
 
         static const std::string iacSbLineMode0IacSe{ "\x0FF\x0FA\x022\x001\x000\x0FF\x0F0", 7 };
-        this -> OutStream() << iacSbLineMode0IacSe << std::flush;
+        Send(iacSbLineMode0IacSe);
 
         static const std::string iacWillEcho{ "\x0FF\x0FB\x001", 3 };
-        this -> OutStream() << iacWillEcho << std::flush;
+        Send(iacWillEcho);
 
 /*
         constexpr char IAC = '\x0FF'; // 255
@@ -405,7 +406,7 @@ private:
         std::string answer("\x0FF\x000\x000", 3);
         answer[1] = action;
         answer[2] = op;
-        this -> OutStream() << answer << std::flush;
+        Send(answer);
     }
 protected:
     virtual void Output(char c)
-- 
2.43.0


From 5c25a5c63ea63c06700a01b91f97016e0f402104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 19/43] fix: two sessions on the same stream are unregistered
 separately from the broadcast stream

---
 include/cli/cli.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index d01ab1d..7eaeba2 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -101,7 +101,10 @@ namespace cli
         }
         void UnRegister(std::ostream& o)
         {
-            ostreams.erase(std::remove(ostreams.begin(), ostreams.end(), &o), ostreams.end());
+            // another session could be using the same stream: remove only one occurrence
+            const auto i = std::find(ostreams.begin(), ostreams.end(), &o);
+            if (i != ostreams.end())
+                ostreams.erase(i);
         }
 
     private:
-- 
2.43.0


From 14c6d8f2dc1a8ad5a1719c3d4a43e31f3ac7830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 20/43] fix: keys still pending when an input device is
 destroyed are dropped

---
 include/cli/detail/inputdevice.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/inputdevice.h b/include/cli/detail/inputdevice.h
index 62a369f..d71fc7a 100644
--- a/include/cli/detail/inputdevice.h
+++ b/include/cli/detail/inputdevice.h
@@ -31,6 +31,7 @@
 #define CLI_DETAIL_INPUTDEVICE_H_
 
 #include <functional>
+#include <memory>
 #include <string>
 #include "../scheduler.h"
 
@@ -58,13 +59,16 @@ protected:
 
     void Notify(std::pair<KeyType,char> k)
     {
-        scheduler.Post([this,k](){ if (handler) handler(k); });
+        // the device could be destroyed before the scheduler runs the task
+        const std::weak_ptr<bool> device = alive;
+        scheduler.Post([this,k,device](){ if (!device.expired() && handler) handler(k); });
     }
 
 private:
 
     Scheduler& scheduler;
     Handler handler;
+    std::shared_ptr<bool> alive = std::make_shared<bool>(true); // expires with this object
 };
 
 } // namespace detail
-- 
2.43.0


From b9441485773f991b15bf258240f55fc36d0014de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:55 +0000
Subject: [PATCH 21/43] fix: a telnet server can be destroyed while it is
 accepting connections

---
 include/cli/detail/server.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/server.h b/include/cli/detail/server.h
index 64a5209..ee3ccf1 100644
--- a/include/cli/detail/server.h
+++ b/include/cli/detail/server.h
@@ -142,13 +142,17 @@ public:
 private:
     void Accept()
     {
-        acceptor.async_accept([this](asiolibec::error_code ec, asiolib::ip::tcp::socket socket)
+        // the server could be destroyed before the handler is called
+        const std::weak_ptr<bool> server = alive;
+        acceptor.async_accept([this, server](asiolibec::error_code ec, asiolib::ip::tcp::socket socket)
             {
+                if (server.expired()) return;
                 if (!ec) CreateSession(std::move(socket))->Start();
                 Accept();
             });
     }
     asiolib::ip::tcp::acceptor acceptor;
+    std::shared_ptr<bool> alive = std::make_shared<bool>(true); // expires with this object
 };
 
 
-- 
2.43.0


From cc4819a27380133d7af659ff261ccc3de92583e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:56 +0000
Subject: [PATCH 22/43] fix: a file session executes a last line without
 newline, always ends, and accepts an exit action

---
 include/cli/cli.h            |  5 +++++
 include/cli/clifilesession.h | 19 ++++---------------
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 7eaeba2..9daa1fd 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -390,6 +390,11 @@ namespace cli
 
         std::vector<std::string> GetCompletions(std::string currentLine) const;
 
+    protected:
+
+        // true if the session has been ended
+        bool Exited() const { return exit; }
+
     private:
 
         Cli& cli;
diff --git a/include/cli/clifilesession.h b/include/cli/clifilesession.h
index 68177e5..0addc4d 100644
--- a/include/cli/clifilesession.h
+++ b/include/cli/clifilesession.h
@@ -44,38 +44,27 @@ public:
     /// @throw std::invalid_argument if @c _in or @c out are invalid streams
     explicit CliFileSession(Cli& _cli, std::istream& _in=std::cin, std::ostream& _out=std::cout) :
         CliSession(_cli, _out, 1),
-        exit(false),
         in(_in)
     {
         if (!_in.good()) throw std::invalid_argument("istream invalid");
         if (!_out.good()) throw std::invalid_argument("ostream invalid");
-        ExitAction(
-            [this](std::ostream&) noexcept
-            {
-                exit = true;
-            }
-        );
     }
     void Start()
     {
         Enter();
 
-        while(!exit)
+        while(!Exited())
         {
             Prompt();
             std::string line;
-            if (!in.good())
-                Exit();
-            std::getline(in, line);
-            if (in.eof())
-                Exit();
-            else
+            if (std::getline(in, line))
                 Feed(line);
+            else
+                Exit();
         }
     }
 
 private:
-    bool exit;
     std::istream& in;
 };
 
-- 
2.43.0


From 3f633e109b16c8842244087b1c5840b94f425a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:56 +0000
Subject: [PATCH 23/43] fix: an async session runs the enter actions

---
 include/cli/detail/genericcliasyncsession.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cli/detail/genericcliasyncsession.h b/include/cli/detail/genericcliasyncsession.h
index 2712276..aea4d4c 100644
--- a/include/cli/detail/genericcliasyncsession.h
+++ b/include/cli/detail/genericcliasyncsession.h
@@ -47,6 +47,7 @@ public:
         CliSession(_cli, std::cout, 1),
         input(_scheduler.AsioContext(), ::dup(STDIN_FILENO))
     {
+        Enter();
         Read();
     }
     ~GenericCliAsyncSession() noexcept override
-- 
2.43.0


From 5a3f3547bab589c566772b613b3aad63e2f956fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:56 +0000
Subject: [PATCH 24/43] fix: an async session ends with the exit command, and
 exits when the input ends

---
 include/cli/detail/genericcliasyncsession.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/genericcliasyncsession.h b/include/cli/detail/genericcliasyncsession.h
index aea4d4c..555fccc 100644
--- a/include/cli/detail/genericcliasyncsession.h
+++ b/include/cli/detail/genericcliasyncsession.h
@@ -82,10 +82,14 @@ private:
             inputBuffer.consume( length );
 
             Feed( s );
-            Read();
+            if (Exited())
+                input.close();
+            else
+                Read();
         }
         else
         {
+            Exit();
             input.close();
         }
     }
-- 
2.43.0


From e19740d4e85249ca4178d2c8d587e8abdbe5f0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:56 +0000
Subject: [PATCH 25/43] fix: an async session can be destroyed while it is
 waiting for input

---
 include/cli/detail/genericcliasyncsession.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/cli/detail/genericcliasyncsession.h b/include/cli/detail/genericcliasyncsession.h
index 555fccc..0da9e80 100644
--- a/include/cli/detail/genericcliasyncsession.h
+++ b/include/cli/detail/genericcliasyncsession.h
@@ -30,6 +30,7 @@
 #ifndef CLI_DETAIL_GENERICCLIASYNCSESSION_H_
 #define CLI_DETAIL_GENERICCLIASYNCSESSION_H_
 
+#include <memory>
 #include <string>
 #include "../cli.h" // CliSession
 #include "genericasioscheduler.h"
@@ -63,11 +64,15 @@ private:
         // Read a line of input entered by the user.
         asiolib::async_read_until(
             input,
-            inputBuffer,
+            *inputBuffer,
             '\n',
-            std::bind( &GenericCliAsyncSession::NewLine, this,
-                       std::placeholders::_1,
-                       std::placeholders::_2 )
+            // the session could be destroyed before the handler is called,
+            // while the buffer must outlive the asynchronous operation
+            [this, buffer = inputBuffer, session = std::weak_ptr<bool>(alive)]
+            ( const asiolibec::error_code& error, std::size_t length )
+            {
+                if (!session.expired()) NewLine(error, length);
+            }
         );
     }
 
@@ -75,11 +80,11 @@ private:
     {
         if ( !error || error == asiolib::error::not_found )
         {
-            auto bufs = inputBuffer.data();
+            auto bufs = inputBuffer->data();
             auto size = static_cast<long>(length);
             if ( !error ) --size; // remove \n
             std::string s(asiolib::buffers_begin( bufs ), asiolib::buffers_begin( bufs ) + size);
-            inputBuffer.consume( length );
+            inputBuffer->consume( length );
 
             Feed( s );
             if (Exited())
@@ -94,8 +99,9 @@ private:
         }
     }
 
-    asiolib::streambuf inputBuffer;
+    std::shared_ptr<asiolib::streambuf> inputBuffer = std::make_shared<asiolib::streambuf>();
     asiolib::posix::stream_descriptor input;
+    std::shared_ptr<bool> alive = std::make_shared<bool>(true); // expires with this object
 };
 
 } // namespace detail
-- 
2.43.0


From 246675b32711a7d7f7d74e986fc5a550341c1765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 26/43] fix: the output of the global exit action reaches the
 telnet client

---
 include/cli/cli.h                         | 5 +++++
 include/cli/detail/genericasioremotecli.h | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 9daa1fd..2d515d7 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -349,6 +349,8 @@ namespace cli
 
             auto cmds = history.GetCommands();
             cli.StoreCommands(cmds);
+
+            OnExit();
         }
 
         void EnterAction(const std::function<void(std::ostream&)>& action)
@@ -395,6 +397,9 @@ namespace cli
         // true if the session has been ended
         bool Exited() const { return exit; }
 
+        // called when the session has been ended, after the exit actions
+        virtual void OnExit() {}
+
     private:
 
         Cli& cli;
diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index c8e297e..db5b0c5 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -458,10 +458,15 @@ public:
         CliSession(_cli, TelnetSession::OutStream(), historySize),
         poll(*this, *this)
     {
-        ExitAction([this, _exitAction](std::ostream& _out){ if (_exitAction) _exitAction(_out); Disconnect(); } );
+        ExitAction([_exitAction](std::ostream& _out){ if (_exitAction) _exitAction(_out); } );
     }
 protected:
 
+    void OnExit() override
+    {
+        Disconnect();
+    }
+
     void OnConnect() override
     {
         TelnetSession::OnConnect();
-- 
2.43.0


From b5291c83007be8b6a1828355582ddb5c4e3ac178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 27/43] fix: no style sequence is written on a terminal when
 colors are off

---
 include/cli/colorprofile.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cli/colorprofile.h b/include/cli/colorprofile.h
index 518ce57..3b6a026 100644
--- a/include/cli/colorprofile.h
+++ b/include/cli/colorprofile.h
@@ -53,7 +53,7 @@ inline std::ostream& operator<<(std::ostream& os, BeforePrompt)
 
 inline std::ostream& operator<<(std::ostream& os, AfterPrompt)
 {
-    os << detail::rang::style::reset;
+    if ( Color() ) { os << detail::rang::style::reset; }
     return os;
 }
 
@@ -65,7 +65,7 @@ inline std::ostream& operator<<(std::ostream& os, BeforeInput)
 
 inline std::ostream& operator<<(std::ostream& os, AfterInput)
 {
-    os << detail::rang::style::reset;
+    if ( Color() ) { os << detail::rang::style::reset; }
     return os;
 }
 
-- 
2.43.0


From 16fca914dac1eb2c9cd1c0cc0a409aba8f75fcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 28/43] fix: an async session can be destroyed while a partial
 line is pending

---
 include/cli/detail/genericcliasyncsession.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/cli/detail/genericcliasyncsession.h b/include/cli/detail/genericcliasyncsession.h
index 0da9e80..da80443 100644
--- a/include/cli/detail/genericcliasyncsession.h
+++ b/include/cli/detail/genericcliasyncsession.h
@@ -46,29 +46,31 @@ class GenericCliAsyncSession : public CliSession
 public:
     GenericCliAsyncSession(GenericAsioScheduler<ASIOLIB>& _scheduler, Cli& _cli) :
         CliSession(_cli, std::cout, 1),
-        input(_scheduler.AsioContext(), ::dup(STDIN_FILENO))
+        input(std::make_shared<Descriptor>(_scheduler.AsioContext(), ::dup(STDIN_FILENO)))
     {
         Enter();
         Read();
     }
     ~GenericCliAsyncSession() noexcept override
     {
-        try { input.close(); } catch (const std::exception&) { /* do nothing */ }
+        try { input->close(); } catch (const std::exception&) { /* do nothing */ }
     }
 
 private:
 
+    using Descriptor = asiolib::posix::stream_descriptor;
+
     void Read()
     {
         Prompt();
         // Read a line of input entered by the user.
         asiolib::async_read_until(
-            input,
+            *input,
             *inputBuffer,
             '\n',
             // the session could be destroyed before the handler is called,
-            // while the buffer must outlive the asynchronous operation
-            [this, buffer = inputBuffer, session = std::weak_ptr<bool>(alive)]
+            // while the descriptor and the buffer must outlive the asynchronous operation
+            [this, descriptor = input, buffer = inputBuffer, session = std::weak_ptr<bool>(alive)]
             ( const asiolibec::error_code& error, std::size_t length )
             {
                 if (!session.expired()) NewLine(error, length);
@@ -88,19 +90,19 @@ private:
 
             Feed( s );
             if (Exited())
-                input.close();
+                input->close();
             else
                 Read();
         }
         else
         {
             Exit();
-            input.close();
+            input->close();
         }
     }
 
     std::shared_ptr<asiolib::streambuf> inputBuffer = std::make_shared<asiolib::streambuf>();
-    asiolib::posix::stream_descriptor input;
+    std::shared_ptr<Descriptor> input;
     std::shared_ptr<bool> alive = std::make_shared<bool>(true); // expires with this object
 };
 
-- 
2.43.0


From 815295463c28233fa109aeca539860846c4e3e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 29/43] fix: a signal does not discard the output of a telnet
 session

---
 include/cli/detail/server.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/server.h b/include/cli/detail/server.h
index ee3ccf1..0a2f284 100644
--- a/include/cli/detail/server.h
+++ b/include/cli/detail/server.h
@@ -81,7 +81,10 @@ protected:
     virtual void Send(const std::string& msg)
     {
         asiolibec::error_code ec;
-        asiolib::write(socket, asiolib::buffer(msg), ec);
+        std::size_t sent = 0;
+        do // a signal must not discard the rest of the message
+            sent += asiolib::write(socket, asiolib::buffer(msg.data() + sent, msg.size() - sent), ec);
+        while (ec == asiolib::error::interrupted);
         if ((ec == asiolib::error::eof) || (ec == asiolib::error::connection_reset))
             OnDisconnect();
         else if (ec)
-- 
2.43.0


From 97906dd66d6cbbe9b3120f4a4670d16288b42e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 30/43] fix: a signal does not disturb the keyboard of a local
 session

---
 include/cli/detail/linuxkeyboard.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 17b40e1..4bdc289 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -34,6 +34,7 @@
 #include <memory>
 #include <stdexcept>
 
+#include <cerrno>
 #include <cstdio>
 #include <termios.h>
 #include <unistd.h>
@@ -65,11 +66,18 @@ public:
     void WaitKbHit()
     {
         fd_set rfds;
-        FD_ZERO(&rfds);
-        FD_SET(STDIN_FILENO, &rfds);
-        FD_SET(readPipe, &rfds);
+        int result = 0;
+        do // select could be interrupted by a signal
+        {
+            FD_ZERO(&rfds);
+            FD_SET(STDIN_FILENO, &rfds);
+            FD_SET(readPipe, &rfds);
+            result = select(readPipe + 1, &rfds, nullptr, nullptr, nullptr);
+        }
+        while (result == 0 || (result < 0 && errno == EINTR));
 
-        while (select(readPipe + 1, &rfds, nullptr, nullptr, nullptr) == 0);
+        if (result < 0)
+            throw std::runtime_error("InputSource error");
 
         if (FD_ISSET(readPipe, &rfds)) // stop called
         {
@@ -162,8 +170,7 @@ public:
     char GetChar()
     {
         char buffer = 0;
-        auto unused = read(0, &buffer, 1);
-        static_cast<void>(unused); // silence unused warn
+        while (read(STDIN_FILENO, &buffer, 1) < 0 && errno == EINTR) {} // interrupted by a signal
         return buffer;
     }
 
-- 
2.43.0


From dc17dc5c77a62d0cda3d7743e50b2b3867226d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 31/43] fix: a local session closes the descriptors it opens

---
 include/cli/detail/linuxkeyboard.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 4bdc289..b6f2ca1 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -56,12 +56,20 @@ public:
     InputSource()
     {
         int pipes[2];
-        if (pipe(pipes) == 0)
-        {
-            shutdownPipe = pipes[1]; // we store the write end
-            readPipe = pipes[0]; // ... and the read end
-        }
+        if (pipe(pipes) != 0)
+            throw std::runtime_error("InputSource cannot create a pipe");
+        shutdownPipe = pipes[1]; // we store the write end
+        readPipe = pipes[0]; // ... and the read end
     }
+    ~InputSource()
+    {
+        close(readPipe);
+        close(shutdownPipe);
+    }
+
+    // disable value semantics
+    InputSource(const InputSource&) = delete;
+    InputSource& operator = (const InputSource&) = delete;
 
     void WaitKbHit()
     {
@@ -81,7 +89,6 @@ public:
 
         if (FD_ISSET(readPipe, &rfds)) // stop called
         {
-            close(readPipe);
             throw std::runtime_error("InputSource stop");
         }
 
@@ -97,9 +104,7 @@ public:
     void Stop()
     {
         auto unused = write(shutdownPipe, " ", 1);
-        unused = close(shutdownPipe);
         static_cast<void>(unused); // silence unused warn
-        shutdownPipe = -1;
     }
 
 private:
-- 
2.43.0


From eb0d9c5d1f4de5a820fe3cd8d950e555945fcdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 32/43] fix: a local session can be destroyed while disabled or
 in the middle of an escape sequence

---
 include/cli/detail/linuxkeyboard.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index b6f2ca1..53e916b 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -120,14 +120,20 @@ public:
     explicit LinuxKeyboard(Scheduler& _scheduler) :
         InputDevice(_scheduler),
         enabled(false),
+        stopped(false),
         servant( [this]() noexcept { Read(); } )
     {
         ActivateInputImpl();
     }
     ~LinuxKeyboard() override
     {
-        ToStandardMode();
+        {
+            ToStandardMode();
+            std::lock_guard<std::mutex> lock(mtx);
+            stopped = true;
+        }
         is.Stop();
+        cv.notify_one(); // the servant could be waiting for the input to be enabled
         servant.join();
     }
     void ActivateInput() override
@@ -160,7 +166,7 @@ public:
             {
                 {
                     std::unique_lock<std::mutex> lock(mtx);
-                    cv.wait(lock, [this]{ return enabled; }); // release mtx, suspend thread execution until enabled becomes true
+                    cv.wait(lock, [this]{ return enabled || stopped; }); // release mtx, suspend thread execution until enabled or stopped becomes true
                 }
                 auto k = Get();
                 Notify(k);
@@ -174,6 +180,8 @@ public:
 
     char GetChar()
     {
+        is.WaitKbHit(); // also in the middle of an escape sequence
+
         char buffer = 0;
         while (read(STDIN_FILENO, &buffer, 1) < 0 && errno == EINTR) {} // interrupted by a signal
         return buffer;
@@ -181,8 +189,6 @@ public:
 
     std::pair<KeyType,char> Get()
     {
-        is.WaitKbHit();
-
         auto ch = GetChar();
         switch(ch)
         {
@@ -243,6 +249,7 @@ public:
     }
 
     bool enabled;
+    bool stopped;
     termios oldt;
     termios newt;
     InputSource is;
-- 
2.43.0


From 9866313fe84071e4e065a9a3362be6bad5a7503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 33/43] fix: the end of the terminal input is a single eof key

---
 include/cli/detail/linuxkeyboard.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 53e916b..503b04e 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -149,6 +149,8 @@ public:
     
     private:
 
+    struct EndOfInput {};
+
     // we need a private non virtual method to call from the constructor
     void ActivateInputImpl()
     {
@@ -172,6 +174,10 @@ public:
                 Notify(k);
             }
         }
+        catch(const EndOfInput&)
+        {
+            Notify(std::make_pair(KeyType::eof,' '));
+        }
         catch(const std::exception&)
         {
             // nothing to do: just exit
@@ -183,7 +189,12 @@ public:
         is.WaitKbHit(); // also in the middle of an escape sequence
 
         char buffer = 0;
-        while (read(STDIN_FILENO, &buffer, 1) < 0 && errno == EINTR) {} // interrupted by a signal
+        ssize_t length = 0;
+        do
+            length = read(STDIN_FILENO, &buffer, 1);
+        while (length < 0 && errno == EINTR); // interrupted by a signal
+        if (length <= 0)
+            throw EndOfInput();
         return buffer;
     }
 
-- 
2.43.0


From b9cddf33160761b8f2af33b7d379928aecb4272e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 34/43] fix: what is typed while a command runs is not taken by
 the local session

---
 include/cli/detail/linuxkeyboard.h | 63 +++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 503b04e..52e00fb 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -101,6 +101,16 @@ public:
         assert(false);
     }
 
+    // Returns true if there is something to read (without waiting)
+    bool KbHit() const
+    {
+        fd_set rfds;
+        FD_ZERO(&rfds);
+        FD_SET(STDIN_FILENO, &rfds);
+        timeval noWait{};
+        return select(STDIN_FILENO + 1, &rfds, nullptr, nullptr, &noWait) > 0;
+    }
+
     void Stop()
     {
         auto unused = write(shutdownPipe, " ", 1);
@@ -127,8 +137,8 @@ public:
     }
     ~LinuxKeyboard() override
     {
+        DeactivateInputImpl();
         {
-            ToStandardMode();
             std::lock_guard<std::mutex> lock(mtx);
             stopped = true;
         }
@@ -142,9 +152,7 @@ public:
     }
     void DeactivateInput() override
     {
-        ToStandardMode();
-        std::lock_guard<std::mutex> lock(mtx);
-        enabled = false;
+        DeactivateInputImpl();
     }
     
     private:
@@ -154,22 +162,27 @@ public:
     // we need a private non virtual method to call from the constructor
     void ActivateInputImpl()
     {
-        ToManualMode();
         std::lock_guard<std::mutex> lock(mtx);
+        if (enabled) return; // the terminal is already in manual mode
+        ToManualMode();
         enabled = true;
         cv.notify_one();
     }
 
+    void DeactivateInputImpl()
+    {
+        std::lock_guard<std::mutex> lock(mtx);
+        if (!enabled) return; // the terminal is already in standard mode
+        ToStandardMode();
+        enabled = false;
+    }
+
     void Read() noexcept
     {
         try
         {
             while (true)
             {
-                {
-                    std::unique_lock<std::mutex> lock(mtx);
-                    cv.wait(lock, [this]{ return enabled || stopped; }); // release mtx, suspend thread execution until enabled or stopped becomes true
-                }
                 auto k = Get();
                 Notify(k);
             }
@@ -184,18 +197,30 @@ public:
         }
     }
 
+    // Returns the next char typed while the input is enabled
     char GetChar()
     {
-        is.WaitKbHit(); // also in the middle of an escape sequence
-
-        char buffer = 0;
-        ssize_t length = 0;
-        do
-            length = read(STDIN_FILENO, &buffer, 1);
-        while (length < 0 && errno == EINTR); // interrupted by a signal
-        if (length <= 0)
-            throw EndOfInput();
-        return buffer;
+        while (true)
+        {
+            {
+                std::unique_lock<std::mutex> lock(mtx);
+                cv.wait(lock, [this]{ return enabled || stopped; }); // release mtx, suspend thread execution until enabled or stopped becomes true
+            }
+
+            is.WaitKbHit(); // also in the middle of an escape sequence
+
+            // the input could have been disabled in the meanwhile: what is typed is for the command
+            std::lock_guard<std::mutex> lock(mtx);
+            if (!enabled || !is.KbHit())
+                continue;
+
+            char buffer = 0;
+            const auto length = read(STDIN_FILENO, &buffer, 1);
+            if (length > 0)
+                return buffer;
+            if (length == 0 || (errno != EINTR && errno != EAGAIN))
+                throw EndOfInput();
+        }
     }
 
     std::pair<KeyType,char> Get()
-- 
2.43.0


From fb3f1ffc1f2b1fe063ddcbeea21c8157f5de5650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 35/43] fix: the keyboard reader does not spin while it is
 being stopped

---
 include/cli/detail/linuxkeyboard.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 52e00fb..2932013 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -138,11 +138,11 @@ public:
     ~LinuxKeyboard() override
     {
         DeactivateInputImpl();
+        is.Stop();
         {
             std::lock_guard<std::mutex> lock(mtx);
             stopped = true;
         }
-        is.Stop();
         cv.notify_one(); // the servant could be waiting for the input to be enabled
         servant.join();
     }
-- 
2.43.0


From 874035b32f2928505c9a0bc036ffa974bf40920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 36/43] fix: an asio scheduler can be stopped by several
 threads at the same time

---
 include/cli/detail/genericasioscheduler.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioscheduler.h b/include/cli/detail/genericasioscheduler.h
index 7fb2979..6ec1515 100644
--- a/include/cli/detail/genericasioscheduler.h
+++ b/include/cli/detail/genericasioscheduler.h
@@ -31,6 +31,7 @@
 #define CLI_DETAIL_GENERICASIOSCHEDULER_H_
 
 #include "../scheduler.h"
+#include <atomic>
 #include <memory> // unique_ptr
 
 namespace cli
@@ -70,7 +71,7 @@ public:
 
     void Stop()
     {
-        if (work)
+        if (work && !workReset.exchange(true)) // the work guard is not thread safe
             ASIOLIB::Reset(*work);
         context->stop();
     }
@@ -104,6 +105,7 @@ private:
     ContextType* context;
     ExecutorType executor;
     std::unique_ptr<WorkGuard> work;
+    std::atomic<bool> workReset{false};
 };
 
 
-- 
2.43.0


From 5d786f2d9e533c7dd0f018d2d47aa12b9dfc6ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 37/43] fix: broadcast characters are not formatted with each
 session's stream flags

---
 include/cli/cli.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 2d515d7..a987e62 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -90,8 +90,9 @@ namespace cli
         }
         int overflow(int c) override
         {
+            // as xsputn: the format flags and the state of each stream do not matter here
             for (auto os: ostreams)
-                *os << static_cast<char>(c);
+                os->rdbuf()->sputc(static_cast<char>(c));
             return c;
         }            
 
-- 
2.43.0


From 32054ed60181384210b14320500506a14c69c4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:20 +0000
Subject: [PATCH 38/43] fix: a session on a stream without buffer, or whose
 buffer throws, broke the broadcast stream for all sessions

---
 include/cli/cli.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index a987e62..c873a31 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -84,15 +84,13 @@ namespace cli
         // std::streambuf overrides
         std::streamsize xsputn(const char* s, std::streamsize n) override
         {
-            for (auto os: ostreams)
-                os->rdbuf()->sputn(s, n);
+            ForEachBuffer([=](std::streambuf& buf){ buf.sputn(s, n); });
             return n;
         }
         int overflow(int c) override
         {
             // as xsputn: the format flags and the state of each stream do not matter here
-            for (auto os: ostreams)
-                os->rdbuf()->sputc(static_cast<char>(c));
+            ForEachBuffer([=](std::streambuf& buf){ buf.sputc(static_cast<char>(c)); });
             return c;
         }            
 
@@ -110,6 +108,17 @@ namespace cli
 
     private:
 
+        template <typename F>
+        void ForEachBuffer(F f)
+        {
+            for (auto os: ostreams)
+            {
+                if (os->rdbuf() == nullptr) continue; // everything written to this stream is discarded
+                // a stream that cannot be written must not affect the other ones
+                try { f(*os->rdbuf()); } catch (...) { /* do nothing */ }
+            }
+        }
+
         std::vector<std::ostream*> ostreams;
     };
     
-- 
2.43.0


From 09892a79b54b23af902e0a4243460e7d66d5bc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:20 +0000
Subject: [PATCH 39/43] fix: flushing the broadcast stream did not flush the
 streams of the sessions

---
 include/cli/cli.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index c873a31..ec56ae1 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -93,6 +93,11 @@ namespace cli
             ForEachBuffer([=](std::streambuf& buf){ buf.sputc(static_cast<char>(c)); });
             return c;
         }            
+        int sync() override
+        {
+            ForEachBuffer([](std::streambuf& buf){ buf.pubsync(); });
+            return 0;
+        }
 
         void Register(std::ostream& o)
         {
-- 
2.43.0


From 48b37204efcc70fe81492995068eb0d91eab8688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:20 +0000
Subject: [PATCH 40/43] fix: an empty exit action of a session was called

---
 include/cli/cli.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index ec56ae1..0be52dd 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -359,7 +359,8 @@ namespace cli
             if (exit) return; // the session is already ended
             exit = true; // prevent the prompt to be shown
 
-            exitAction(out);
+            if (exitAction)
+                exitAction(out);
             cli.ExitAction(out);
 
             auto cmds = history.GetCommands();
-- 
2.43.0


From 4ac36b1203d6b5b42ff548378c089399f61a2d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:14 +0000
Subject: [PATCH 41/43] fix: history ids do not depend on the format state of
 the session's stream

---
 include/cli/detail/history.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index 7c4d7fb..ccf157a 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -144,7 +144,7 @@ public:
         for (std::size_t i = 0; i < size; ++i)
         {
             const auto j = size-1-i;
-            out << IndexToId(j) << '\t' << buffer[j] << '\n';
+            out << std::to_string(IndexToId(j)) << '\t' << buffer[j] << '\n'; // not affected by the format flags of out
         }
         out << '\n' << std::flush;
     }
-- 
2.43.0


From 410195c8959143bfa750fca9ad08df46ae92bfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:14 +0000
Subject: [PATCH 42/43] fix: style sequences do not depend on the format state
 of the stream

---
 include/cli/detail/rang.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/rang.h b/include/cli/detail/rang.h
index 79b5ae6..46e1892 100644
--- a/include/cli/detail/rang.h
+++ b/include/cli/detail/rang.h
@@ -28,6 +28,7 @@
 #include <ios>
 #include <iostream>
 #include <iterator>
+#include <string>
 #include <type_traits>
 
 namespace cli {
@@ -245,13 +246,13 @@ namespace rang_implementation {
             SetConsoleTextAttribute(h, current_state());
             return os;
         }
-        return os << "\033[" << static_cast<int>(value) << "m";
+        return os << "\033[" << std::to_string(static_cast<int>(value)) << "m";
     }
 #else
     template <typename T>
     inline enableStd<T> setColor(std::ostream &os, T const value)
     {
-        return os << "\033[" << static_cast<int>(value) << "m";
+        return os << "\033[" << std::to_string(static_cast<int>(value)) << "m";
     }
 #endif
 
-- 
2.43.0


From c96c04f617768e90d899ce62f652424a8dda10cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:01 +0000
Subject: [PATCH 43/43] fix: a pipe descriptor beyond FD_SETSIZE overran the
 set passed to select

---
 include/cli/detail/linuxkeyboard.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 2932013..5a7d8cf 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -58,6 +58,12 @@ public:
         int pipes[2];
         if (pipe(pipes) != 0)
             throw std::runtime_error("InputSource cannot create a pipe");
+        if (pipes[0] >= FD_SETSIZE) // select() can't watch it
+        {
+            close(pipes[0]);
+            close(pipes[1]);
+            throw std::runtime_error("InputSource has too many open descriptors");
+        }
         shutdownPipe = pipes[1]; // we store the write end
         readPipe = pipes[0]; // ... and the read end
     }
-- 
2.43.0

