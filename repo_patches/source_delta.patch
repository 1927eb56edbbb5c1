From 467f65ab5018b711e84fb16bae2b0734897e804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 01/28] fix: recalling a command from an empty history reported
 as error instead of reading out of bounds

---
 include/cli/detail/history.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index e8eb401..80bf700 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -172,7 +172,7 @@ private:
 
     std::size_t IdToIndex(std::size_t id) const
     {
-        if (id < idOfOldest || id > idOfOldest+buffer.size()-1)
+        if (buffer.empty() || id < idOfOldest || id > idOfOldest+buffer.size()-1)
             throw std::out_of_range("Index not found in history");
         return idOfOldest + buffer.size() - 1 - id;
     }
-- 
2.43.0


From fd8bf419f3f7187639ca40973730da4cdc3605c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 02/28] fix: a std::bad_cast thrown by a command handler is an
 exception of the handler, not a wrong command

---
 include/cli/cli.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 437e838..677e8d7 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -781,13 +781,15 @@ namespace cli
             if (cmdLine.size() != paramSize+1) return false;
             if (Name() == cmdLine[0])
             {
+                bool called = false;
                 try
                 {
-                    auto g = [&](auto ... pars){ func( session.OutStream(), pars... ); };
+                    auto g = [&](auto ... pars){ called = true; func( session.OutStream(), pars... ); };
                     Select<Args...>::Exec(g, std::next(cmdLine.begin()), cmdLine.end());
                 }
                 catch (std::bad_cast&)
                 {
+                    if (called) throw; // not a parameter conversion error: it comes from the handler
                     return false;
                 }
                 return true;
-- 
2.43.0


From 16d03f8462445c88520c6f6b89f2448679c6bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 03/28] fix: keep a command alive while its handler runs, even
 if the handler removes it

---
 include/cli/cli.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 677e8d7..62c25ea 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -510,9 +510,12 @@ namespace cli
         {
             if (!IsEnabled())
                 return false;
-            for (auto& cmd: *cmds)
+            for (const auto& c: *cmds)
+            {
+                const auto cmd = c; // keeps the command alive if its handler removes it
                 if (cmd->Exec(cmdLine, session))
                     return true;
+            }
             assert(!cmdLine.empty());
             return (parent && parent->ExecParent(cmdLine, session));
         }
@@ -669,8 +672,11 @@ namespace cli
                 {
                     // check also for subcommands
                     std::vector<std::string > subCmdLine(cmdLine.begin()+1, cmdLine.end());
-                    for (auto& cmd: *cmds)
+                    for (const auto& c: *cmds)
+                    {
+                        const auto cmd = c; // keeps the command alive if its handler removes it
                         if (cmd->Exec( subCmdLine, session )) return true;
+                    }
                     return (parent && parent->ExecParent(subCmdLine, session));
                 }
             }
-- 
2.43.0


From 340b4547e5a59a312f1584423ebde81af5a2c151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 04/28] fix: sessions positioned in a removed menu go back to
 the root menu instead of using freed memory

---
 include/cli/cli.h | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 62c25ea..883fd9a 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -321,7 +321,7 @@ namespace cli
 
         void Prompt();
 
-        void Current(Menu* menu) { current = menu; }
+        void Current(Menu* menu);
 
         std::ostream& OutStream() { return out; }
 
@@ -379,9 +379,13 @@ namespace cli
 
     private:
 
+        // the current menu, or the root menu if the current one has been removed in the meanwhile
+        Menu* Current() const { return currentAlive.expired() ? cli.RootMenu() : current; }
+
         Cli& cli;
         std::shared_ptr<cli::OutStream> coutPtr;
-        Menu* current;
+        Menu* current{ nullptr };
+        std::weak_ptr<void> currentAlive; // expires when the current menu is destroyed
         std::unique_ptr<Menu> globalScopeMenu;
         std::ostream& out;
         std::function< void(std::ostream&)> enterAction = []( std::ostream& ) noexcept {};
@@ -581,6 +585,7 @@ namespace cli
         }
 
     private:
+        friend class CliSession;
 
         /**
          * Retrieves completion suggestions for the user input recursively, including the parent command.
@@ -887,11 +892,11 @@ namespace cli
     inline CliSession::CliSession(Cli& _cli, std::ostream& _out, std::size_t historySize) :
             cli(_cli),
             coutPtr(Cli::CoutPtr()),
-            current(cli.RootMenu()),
             globalScopeMenu(std::make_unique< Menu >()),
             out(_out),
             history(historySize)
         {
+            Current(cli.RootMenu());
             history.LoadCommands(cli.GetCommands());
 
             coutPtr->Register(out);
@@ -917,6 +922,12 @@ namespace cli
             );
         }
 
+    inline void CliSession::Current(Menu* menu)
+    {
+        current = menu;
+        currentAlive = menu->cmds;
+    }
+
     inline void CliSession::Feed(const std::string& cmd)
     {
         std::vector<std::string> strs;
@@ -931,7 +942,7 @@ namespace cli
             bool found = globalScopeMenu->ScanCmds(strs, *this);
 
             // root menu recursive cmds check
-            if (!found) found = current->ScanCmds(strs, *this);
+            if (!found) found = Current()->ScanCmds(strs, *this);
 
             if (!found) // wrong command handler if not found
                 cli.WrongCommandHandler(out, cmd);
@@ -952,7 +963,7 @@ namespace cli
     {
         if (exit) return;
         out << beforePrompt
-            << current->Prompt()
+            << Current()->Prompt()
             << afterPrompt
             << "> "
             << std::flush;
@@ -962,7 +973,7 @@ namespace cli
     {
         out << "Commands available:\n";
         globalScopeMenu->MainHelp(out);
-        current -> MainHelp( out );
+        Current()->MainHelp( out );
     }
 
     inline std::vector<std::string> CliSession::GetCompletions(std::string currentLine) const
@@ -970,7 +981,7 @@ namespace cli
         // trim_left(currentLine);
         currentLine.erase(currentLine.begin(), std::find_if(currentLine.begin(), currentLine.end(), [](int ch) { return !std::isspace(ch); }));
         auto v1 = globalScopeMenu->GetCompletions(currentLine);
-        auto v3 = current->GetCompletions(currentLine);
+        auto v3 = Current()->GetCompletions(currentLine);
         v1.insert(v1.end(), std::make_move_iterator(v3.begin()), std::make_move_iterator(v3.end()));
 
         // removes duplicates (std::unique requires a sorted container)
-- 
2.43.0


From b01d590bf2bca5df3d9ceab1483bff963b23fd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 05/28] fix: a history entry that recalls itself is reported as
 error instead of recursing without end

---
 include/cli/cli.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 883fd9a..d9784a4 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -36,6 +36,7 @@
 #include <functional>
 #include <algorithm>
 #include <cctype> // std::isspace
+#include <stdexcept>
 #include <type_traits>
 #include "colorprofile.h"
 #include "detail/history.h"
@@ -362,6 +363,14 @@ namespace cli
         {
             history.ForgetLatest();
             const auto cmd = history.At(index);
+            if (std::find(recalling.begin(), recalling.end(), index) != recalling.end())
+                throw std::runtime_error("The history entry recalls itself");
+            struct Recall
+            {
+                Recall(std::vector<unsigned>& r, unsigned i) : ids(r) { ids.push_back(i); }
+                ~Recall() { ids.pop_back(); }
+                std::vector<unsigned>& ids;
+            } recall(recalling, index);
             Feed(cmd);
         }
 
@@ -391,6 +400,7 @@ namespace cli
         std::function< void(std::ostream&)> enterAction = []( std::ostream& ) noexcept {};
         std::function< void(std::ostream&)> exitAction = []( std::ostream& ) noexcept {};
         detail::History history;
+        std::vector<unsigned> recalling; // the history entries being executed
         bool exit{ false }; // to prevent the prompt after exit command
     };
 
-- 
2.43.0


From 64c1daea65b5ff8cf12e8669241ed3f17c3cd3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 06/28] fix: do not store again loaded commands when a session
 repeats or recalls commands

---
 include/cli/detail/history.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index 80bf700..7a39895 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -54,7 +54,6 @@ public:
     // Otherwise, the item is added to the front of the container
     void NewCommand(const std::string& item)
     {
-        ++commands;
         current = 0;
         if (mode == Mode::browsing)
         {
@@ -62,12 +61,18 @@ public:
             if (buffer.size() > 1 && buffer[1] == item) // try to insert an element identical to last one
                 buffer.pop_front();
             else // the item was not identical
+            {
                 buffer[current] = item;
+                ++commands;
+            }
         }
         else // Mode::inserting
         {
             if (buffer.empty() || buffer[0] != item) // insert an element not equal to last one
+            {
                 Insert(item);
+                ++commands;
+            }
         }
         mode = Mode::inserting;
     }
@@ -157,6 +162,8 @@ public:
     {
         assert(!buffer.empty());
         buffer.pop_front();
+        if (commands > 0)
+            --commands;
     }
 
 private:
@@ -190,7 +197,7 @@ private:
     const std::size_t maxSize;
     std::deque<std::string> buffer; // buffer[0] is the newest element
     std::size_t current = 0;
-    std::size_t commands = 0; // number of commands issued
+    std::size_t commands = 0; // number of commands added to the history (loaded ones excluded)
     enum class Mode { inserting, browsing };
     Mode mode = Mode::inserting;
     std::size_t idOfOldest = 0; // the id of the oldest element kept in the history
-- 
2.43.0


From 4ef8d98cf23466c8842e87a980f8350d98eb781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 07/28] fix: exit command of a telnet session without exit
 action

---
 include/cli/detail/genericasioremotecli.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index f8f7760..220297c 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -457,7 +457,7 @@ public:
         CliSession(_cli, TelnetSession::OutStream(), historySize),
         poll(*this, *this)
     {
-        ExitAction([this, _exitAction](std::ostream& _out){ _exitAction(_out), Disconnect(); } );
+        ExitAction([this, _exitAction](std::ostream& _out){ if (_exitAction) _exitAction(_out); Disconnect(); } );
     }
 protected:
 
-- 
2.43.0


From 5564bb228781fe754fb33908384796463cf8b4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 08/28] fix: disconnecting a session whose peer is gone must
 not throw out of the scheduler

---
 include/cli/detail/server.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/server.h b/include/cli/detail/server.h
index 8013057..4626409 100644
--- a/include/cli/detail/server.h
+++ b/include/cli/detail/server.h
@@ -54,8 +54,9 @@ protected:
 
     virtual void Disconnect()
     {
-        socket.shutdown(asiolib::ip::tcp::socket::shutdown_both);
-        socket.close();
+        asiolibec::error_code ec; // the peer may have closed the connection already
+        socket.shutdown(asiolib::ip::tcp::socket::shutdown_both, ec);
+        socket.close(ec);
     }
 
     virtual void Read()
-- 
2.43.0


From 434ab599859d5936232d6533dde3bbaab39c209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 09/28] fix: keys still queued in the scheduler must not reach
 a destroyed session

---
 include/cli/detail/inputdevice.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/cli/detail/inputdevice.h b/include/cli/detail/inputdevice.h
index 62a369f..fbb4f88 100644
--- a/include/cli/detail/inputdevice.h
+++ b/include/cli/detail/inputdevice.h
@@ -31,6 +31,7 @@
 #define CLI_DETAIL_INPUTDEVICE_H_
 
 #include <functional>
+#include <memory>
 #include <string>
 #include "../scheduler.h"
 
@@ -52,19 +53,20 @@ public:
     virtual void DeactivateInput() {}
 
     template <typename H>
-    void Register(H&& h) { handler = std::forward<H>(h); }
+    void Register(H&& h) { *handler = std::forward<H>(h); }
 
 protected:
 
     void Notify(std::pair<KeyType,char> k)
     {
-        scheduler.Post([this,k](){ if (handler) handler(k); });
+        // the device can be destroyed before the scheduler runs the task
+        scheduler.Post([h = std::weak_ptr<Handler>(handler), k](){ const auto p = h.lock(); if (p && *p) (*p)(k); });
     }
 
 private:
 
     Scheduler& scheduler;
-    Handler handler;
+    std::shared_ptr<Handler> handler = std::make_shared<Handler>();
 };
 
 } // namespace detail
-- 
2.43.0


From ad632f069d0cc47aacf7a8e42bc91dd93e805e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 10/28] fix: telnet exit delivers the output of the global exit
 action and executes nothing received after it

---
 include/cli/detail/genericasioremotecli.h | 10 +++++++++-
 include/cli/detail/inputdevice.h          |  5 +++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 220297c..7bc098f 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -457,7 +457,15 @@ public:
         CliSession(_cli, TelnetSession::OutStream(), historySize),
         poll(*this, *this)
     {
-        ExitAction([this, _exitAction](std::ostream& _out){ if (_exitAction) _exitAction(_out); Disconnect(); } );
+        ExitAction([this, _exitAction](std::ostream& _out)
+            {
+                if (_exitAction) _exitAction(_out);
+                Unregister(); // nothing received after the exit must be executed
+                // the global exit action can still write on this session: close the connection later
+                auto self = shared_from_this();
+                Post([this, self](){ Disconnect(); });
+            }
+        );
     }
 protected:
 
diff --git a/include/cli/detail/inputdevice.h b/include/cli/detail/inputdevice.h
index fbb4f88..e768376 100644
--- a/include/cli/detail/inputdevice.h
+++ b/include/cli/detail/inputdevice.h
@@ -57,6 +57,11 @@ public:
 
 protected:
 
+    // the keys received from now on and those still queued in the scheduler are discarded
+    void Unregister() { handler.reset(); }
+
+    void Post(const std::function<void()>& f) { scheduler.Post(f); }
+
     void Notify(std::pair<KeyType,char> k)
     {
         // the device can be destroyed before the scheduler runs the task
-- 
2.43.0


From 8fcab05a0a975ae44703efcb30023e95f81b9756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 11/28] fix: the enter action of a telnet server is called

---
 include/cli/detail/genericasioremotecli.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 7bc098f..93697ad 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -583,7 +583,9 @@ public:
     }
     std::shared_ptr<Session> CreateSession(asiolib::ip::tcp::socket _socket) override
     {
-        return std::make_shared<CliTelnetSession>(scheduler, std::move(_socket), cli, exitAction, historySize);
+        auto session = std::make_shared<CliTelnetSession>(scheduler, std::move(_socket), cli, exitAction, historySize);
+        session->EnterAction(enterAction);
+        return session;
     }
 private:
     Scheduler& scheduler;
-- 
2.43.0


From 836e968b3113b3229b9ebd3161fa40a24d9e3c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 12/28] fix: a pending accept must not use a destroyed server

---
 include/cli/detail/server.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/server.h b/include/cli/detail/server.h
index 4626409..f4fb7f6 100644
--- a/include/cli/detail/server.h
+++ b/include/cli/detail/server.h
@@ -141,13 +141,15 @@ public:
 private:
     void Accept()
     {
-        acceptor.async_accept([this](asiolibec::error_code ec, asiolib::ip::tcp::socket socket)
+        acceptor.async_accept([this, token = std::weak_ptr<void>(alive)](asiolibec::error_code ec, asiolib::ip::tcp::socket socket)
             {
+                if (token.expired()) return; // the server has been destroyed
                 if (!ec) CreateSession(std::move(socket))->Start();
                 Accept();
             });
     }
     asiolib::ip::tcp::acceptor acceptor;
+    std::shared_ptr<void> alive = std::make_shared<char>();
 };
 
 
-- 
2.43.0


From 5ee5236fc66111c93c6ab07848679dfd3728d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 13/28] fix: a pending read must not use a destroyed async
 session

---
 include/cli/detail/genericcliasyncsession.h | 33 +++++++++++++--------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/include/cli/detail/genericcliasyncsession.h b/include/cli/detail/genericcliasyncsession.h
index 2712276..8ab9b81 100644
--- a/include/cli/detail/genericcliasyncsession.h
+++ b/include/cli/detail/genericcliasyncsession.h
@@ -30,6 +30,7 @@
 #ifndef CLI_DETAIL_GENERICCLIASYNCSESSION_H_
 #define CLI_DETAIL_GENERICCLIASYNCSESSION_H_
 
+#include <memory>
 #include <string>
 #include "../cli.h" // CliSession
 #include "genericasioscheduler.h"
@@ -45,13 +46,13 @@ class GenericCliAsyncSession : public CliSession
 public:
     GenericCliAsyncSession(GenericAsioScheduler<ASIOLIB>& _scheduler, Cli& _cli) :
         CliSession(_cli, std::cout, 1),
-        input(_scheduler.AsioContext(), ::dup(STDIN_FILENO))
+        input(std::make_shared<Input>(_scheduler.AsioContext()))
     {
         Read();
     }
     ~GenericCliAsyncSession() noexcept override
     {
-        try { input.close(); } catch (const std::exception&) { /* do nothing */ }
+        try { input->descriptor.close(); } catch (const std::exception&) { /* do nothing */ }
     }
 
 private:
@@ -61,12 +62,14 @@ private:
         Prompt();
         // Read a line of input entered by the user.
         asiolib::async_read_until(
-            input,
-            inputBuffer,
+            input->descriptor,
+            input->buffer,
             '\n',
-            std::bind( &GenericCliAsyncSession::NewLine, this,
-                       std::placeholders::_1,
-                       std::placeholders::_2 )
+            [this, in = input](const asiolibec::error_code& error, std::size_t length)
+            {
+                // if the descriptor is closed the session may have been destroyed
+                if (in->descriptor.is_open()) NewLine(error, length);
+            }
         );
     }
 
@@ -74,23 +77,29 @@ private:
     {
         if ( !error || error == asiolib::error::not_found )
         {
-            auto bufs = inputBuffer.data();
+            auto bufs = input->buffer.data();
             auto size = static_cast<long>(length);
             if ( !error ) --size; // remove \n
             std::string s(asiolib::buffers_begin( bufs ), asiolib::buffers_begin( bufs ) + size);
-            inputBuffer.consume( length );
+            input->buffer.consume( length );
 
             Feed( s );
             Read();
         }
         else
         {
-            input.close();
+            input->descriptor.close();
         }
     }
 
-    asiolib::streambuf inputBuffer;
-    asiolib::posix::stream_descriptor input;
+    // shared with the pending read, that can outlive the session
+    struct Input
+    {
+        explicit Input(typename ASIOLIB::ContextType& ctx) : descriptor(ctx, ::dup(STDIN_FILENO)) {}
+        asiolib::streambuf buffer;
+        asiolib::posix::stream_descriptor descriptor;
+    };
+    std::shared_ptr<Input> input;
 };
 
 } // namespace detail
-- 
2.43.0


From 322a85c22c2af0bf096352bb8c3f0444e12df3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 14/28] fix: async sessions call the enter action

---
 include/cli/detail/genericcliasyncsession.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cli/detail/genericcliasyncsession.h b/include/cli/detail/genericcliasyncsession.h
index 8ab9b81..a0602bf 100644
--- a/include/cli/detail/genericcliasyncsession.h
+++ b/include/cli/detail/genericcliasyncsession.h
@@ -48,6 +48,7 @@ public:
         CliSession(_cli, std::cout, 1),
         input(std::make_shared<Input>(_scheduler.AsioContext()))
     {
+        Enter();
         Read();
     }
     ~GenericCliAsyncSession() noexcept override
-- 
2.43.0


From ef5382af3524b656903d46adc7b04a181c119873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 15/28] fix: file sessions end once on read errors and with an
 exit action, without executing truncated lines

---
 include/cli/cli.h            |  4 ++++
 include/cli/clifilesession.h | 18 ++++--------------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index d9784a4..7e41b8b 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -386,6 +386,10 @@ namespace cli
 
         std::vector<std::string> GetCompletions(std::string currentLine) const;
 
+    protected:
+
+        bool Exited() const { return exit; }
+
     private:
 
         // the current menu, or the root menu if the current one has been removed in the meanwhile
diff --git a/include/cli/clifilesession.h b/include/cli/clifilesession.h
index 68177e5..6e4334a 100644
--- a/include/cli/clifilesession.h
+++ b/include/cli/clifilesession.h
@@ -44,38 +44,28 @@ public:
     /// @throw std::invalid_argument if @c _in or @c out are invalid streams
     explicit CliFileSession(Cli& _cli, std::istream& _in=std::cin, std::ostream& _out=std::cout) :
         CliSession(_cli, _out, 1),
-        exit(false),
         in(_in)
     {
         if (!_in.good()) throw std::invalid_argument("istream invalid");
         if (!_out.good()) throw std::invalid_argument("ostream invalid");
-        ExitAction(
-            [this](std::ostream&) noexcept
-            {
-                exit = true;
-            }
-        );
     }
     void Start()
     {
         Enter();
 
-        while(!exit)
+        while(!Exited())
         {
             Prompt();
             std::string line;
-            if (!in.good())
-                Exit();
             std::getline(in, line);
-            if (in.eof())
-                Exit();
-            else
+            if (in.good()) // a complete line
                 Feed(line);
+            else
+                Exit();
         }
     }
 
 private:
-    bool exit;
     std::istream& in;
 };
 
-- 
2.43.0


From 474bdb996c9bd6c6c3ba53e43c517009e9922805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 16/28] fix: a failure creating the pipe of the keyboard is
 reported instead of using uninitialized descriptors

---
 include/cli/detail/linuxkeyboard.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 17b40e1..8e728dd 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -55,11 +55,10 @@ public:
     InputSource()
     {
         int pipes[2];
-        if (pipe(pipes) == 0)
-        {
-            shutdownPipe = pipes[1]; // we store the write end
-            readPipe = pipes[0]; // ... and the read end
-        }
+        if (pipe(pipes) != 0)
+            throw std::runtime_error("InputSource pipe");
+        shutdownPipe = pipes[1]; // we store the write end
+        readPipe = pipes[0]; // ... and the read end
     }
 
     void WaitKbHit()
-- 
2.43.0


From cbfaf0f9751b9fff57c1dd64f1ddcfc8744ab359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 17/28] fix: a signal interrupting the wait for a key must not
 stop the keyboard

---
 include/cli/detail/linuxkeyboard.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 8e728dd..efa8a4b 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -34,6 +34,7 @@
 #include <memory>
 #include <stdexcept>
 
+#include <cerrno>
 #include <cstdio>
 #include <termios.h>
 #include <unistd.h>
@@ -64,11 +65,15 @@ public:
     void WaitKbHit()
     {
         fd_set rfds;
-        FD_ZERO(&rfds);
-        FD_SET(STDIN_FILENO, &rfds);
-        FD_SET(readPipe, &rfds);
-
-        while (select(readPipe + 1, &rfds, nullptr, nullptr, nullptr) == 0);
+        int result;
+        do
+        {
+            FD_ZERO(&rfds);
+            FD_SET(STDIN_FILENO, &rfds);
+            FD_SET(readPipe, &rfds);
+            result = select(readPipe + 1, &rfds, nullptr, nullptr, nullptr);
+        }
+        while (result == 0 || (result < 0 && errno == EINTR));
 
         if (FD_ISSET(readPipe, &rfds)) // stop called
         {
-- 
2.43.0


From 21d2864e588dd1061f841994a24c67bdc7c635c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 18/28] fix: end of file on stdin is one eof key and a partial
 escape sequence does not block the destruction of the keyboard

---
 include/cli/detail/linuxkeyboard.h | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index efa8a4b..a15d1fc 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -62,6 +62,15 @@ public:
         readPipe = pipes[0]; // ... and the read end
     }
 
+    ~InputSource()
+    {
+        if (shutdownPipe != -1) close(shutdownPipe);
+        close(readPipe);
+    }
+    // disable value semantics
+    InputSource(const InputSource&) = delete;
+    InputSource& operator = (const InputSource&) = delete;
+
     void WaitKbHit()
     {
         fd_set rfds;
@@ -77,7 +86,6 @@ public:
 
         if (FD_ISSET(readPipe, &rfds)) // stop called
         {
-            close(readPipe);
             throw std::runtime_error("InputSource stop");
         }
 
@@ -147,13 +155,14 @@ public:
     {
         try
         {
-            while (true)
+            while (!eof)
             {
                 {
                     std::unique_lock<std::mutex> lock(mtx);
                     cv.wait(lock, [this]{ return enabled; }); // release mtx, suspend thread execution until enabled becomes true
                 }
                 auto k = Get();
+                if (eof) k = std::make_pair(KeyType::eof,' ');
                 Notify(k);
             }
         }
@@ -166,15 +175,23 @@ public:
     char GetChar()
     {
         char buffer = 0;
-        auto unused = read(0, &buffer, 1);
-        static_cast<void>(unused); // silence unused warn
+        ssize_t result;
+        do
+        {
+            is.WaitKbHit();
+            result = read(STDIN_FILENO, &buffer, 1);
+        }
+        while (result < 0 && (errno == EINTR || errno == EAGAIN));
+        if (result <= 0) // end of file, hang-up
+        {
+            eof = true;
+            return static_cast<char>(EOF);
+        }
         return buffer;
     }
 
     std::pair<KeyType,char> Get()
     {
-        is.WaitKbHit();
-
         auto ch = GetChar();
         switch(ch)
         {
@@ -235,6 +252,7 @@ public:
     }
 
     bool enabled;
+    bool eof = false; // used by the servant thread only
     termios oldt;
     termios newt;
     InputSource is;
-- 
2.43.0


From 8ec8679828b22382788c191d61cd0b9d2b59444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 19/28] fix: an exception leaving a command must not leave the
 keyboard inactive and undestroyable

---
 include/cli/detail/commandprocessor.h | 9 +++++++--
 include/cli/detail/linuxkeyboard.h    | 6 ++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/commandprocessor.h b/include/cli/detail/commandprocessor.h
index ea8f6a0..90102bc 100644
--- a/include/cli/detail/commandprocessor.h
+++ b/include/cli/detail/commandprocessor.h
@@ -103,10 +103,15 @@ private:
             }
             case Symbol::command:
             {
-                kb.DeactivateInput();
+                // the input must be active again also when an exception leaves the session
+                struct InputPause
+                {
+                    explicit InputPause(InputDevice& d) : device(d) { device.DeactivateInput(); }
+                    ~InputPause() { device.ActivateInput(); }
+                    InputDevice& device;
+                } pause(kb);
                 session.Feed(s.second);
                 session.Prompt();
-                kb.ActivateInput();
                 break;
             }
             case Symbol::down:
diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index a15d1fc..f042250 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -127,6 +127,12 @@ public:
     {
         ToStandardMode();
         is.Stop();
+        {
+            // wake up the servant if the input is not active
+            std::lock_guard<std::mutex> lock(mtx);
+            enabled = true;
+            cv.notify_one();
+        }
         servant.join();
     }
     void ActivateInput() override
-- 
2.43.0


From 19532e0051c3a07e2b3b7eae466f1b4218497ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 20/28] fix: a disabled menu offers no completions

---
 include/cli/cli.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 7e41b8b..fccb90a 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -564,6 +564,7 @@ namespace cli
         // - the recursive completions of parent menu
         std::vector<std::string> GetCompletions(const std::string& currentLine) const
         {
+            if (!IsEnabled()) return {};
             auto result = cli::GetCompletions(cmds, currentLine);
             if (parent != nullptr)
             {
@@ -590,6 +591,7 @@ namespace cli
          */
         std::vector<std::string> GetCompletionRecursive(const std::string& line) const override
         {
+            if (!IsEnabled()) return {};
             if (line.rfind(Name(), 0) == 0) // line starts_with Name()
             {
                 return GetCompletionRecursiveHelper(line, Name());
@@ -615,6 +617,7 @@ namespace cli
          */
         std::vector<std::string> GetCompletionWithParent(const std::string& line) const
         {
+            if (!IsEnabled()) return {};
             if (line.rfind(Name(), 0) == 0) // line starts_with Name()
             {
                 return GetCompletionRecursiveHelper(line, Name());
-- 
2.43.0


From b6a2a246e38b994ba17c1eb4459ba05b95ccdb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:09 +0000
Subject: [PATCH 21/28] fix: telnet negotiation replies are not encoded as text
 (option 10 was answered as option 13)

---
 include/cli/detail/genericasioremotecli.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 93697ad..b5b0709 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -405,7 +405,7 @@ private:
         std::string answer("\x0FF\x000\x000", 3);
         answer[1] = action;
         answer[2] = op;
-        this -> OutStream() << answer << std::flush;
+        Send(answer); // not text: must not be encoded
     }
 protected:
     virtual void Output(char c)
-- 
2.43.0


From 93462823fb1c2dc3846dfeb323aaa2c4bc6e25ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:32 +0000
Subject: [PATCH 22/28] fix: a signal while a slow client is waited for does
 not cut the output

---
 include/cli/detail/server.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/server.h b/include/cli/detail/server.h
index f4fb7f6..d6c6d5d 100644
--- a/include/cli/detail/server.h
+++ b/include/cli/detail/server.h
@@ -80,7 +80,10 @@ protected:
     virtual void Send(const std::string& msg)
     {
         asiolibec::error_code ec;
-        asiolib::write(socket, asiolib::buffer(msg), ec);
+        std::size_t sent = 0;
+        do // a signal can interrupt the wait for a slow client
+            sent += asiolib::write(socket, asiolib::buffer(msg) + sent, ec);
+        while (ec == asiolib::error::interrupted);
         if ((ec == asiolib::error::eof) || (ec == asiolib::error::connection_reset))
             OnDisconnect();
         else if (ec)
-- 
2.43.0


From 21fba481fb510acdfacd146625f177d351795c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:04 +0000
Subject: [PATCH 23/28] fix: the commands received just before the client
 closes the connection are executed

---
 include/cli/detail/genericasioremotecli.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index b5b0709..b3e1320 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -476,6 +476,9 @@ protected:
         Prompt();
     }
 
+    void OnDisconnect() override { KeepAlive(); }
+    void OnError() override { KeepAlive(); }
+
     void Output(char c) override // NB: C++ does not specify wether char is signed or unsigned
     {
         switch(step)
@@ -550,6 +553,13 @@ protected:
 
 private:
 
+    // the keys received before the end of the connection are still queued in the scheduler
+    void KeepAlive()
+    {
+        auto self = shared_from_this();
+        Post([self](){});
+    }
+
     enum class Step { _1, _2, _3, _4, wait_0 };
     Step step = Step::_1;
     CommandProcessor<TelnetScreen> poll;
-- 
2.43.0


From 4b11a81ab332c3af641cea249e0dc7cf62ece0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:20 +0000
Subject: [PATCH 24/28] fix: saving the history does not lose the stored
 commands when it fails or is interrupted

---
 include/cli/filehistorystorage.h | 44 +++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/include/cli/filehistorystorage.h b/include/cli/filehistorystorage.h
index 1a59f95..b6d96fa 100644
--- a/include/cli/filehistorystorage.h
+++ b/include/cli/filehistorystorage.h
@@ -31,8 +31,12 @@
 #define CLI_FILEHISTORYSTORAGE_H_
 
 #include "historystorage.h"
+#include <cerrno>
+#include <cstdio>
 #include <fstream>
+#include <string>
 #include <utility>
+#include <vector>
 
 namespace cli
 {
@@ -48,27 +52,28 @@ public:
     void Store(const std::vector<std::string>& cmds) override
     {
         using dt = std::vector<std::string>::difference_type;
-        auto commands = Commands();
+        std::vector<std::string> commands;
+        if (!Load(commands)) // the stored commands would be lost
+            return;
         commands.insert(commands.end(), cmds.begin(), cmds.end());
         if (commands.size() > maxSize)
             commands.erase(
                 commands.begin(), 
                 commands.begin() + static_cast<dt>(commands.size() - maxSize)
             );
-        std::ofstream f(fileName, std::ios_base::out);
+        // the old file is replaced only when the new one is complete
+        const std::string newFileName = fileName + ".new";
+        std::ofstream f(newFileName, std::ios_base::out);
             for (const auto& line: commands)
                 f << line << '\n';
+        f.close();
+        if (!f || !Replace(newFileName))
+            std::remove(newFileName.c_str());
     }
     std::vector<std::string> Commands() const override
     {
         std::vector<std::string> commands;
-        std::ifstream in(fileName);
-        if (in)
-        {
-            std::string line;
-            while (std::getline(in, line))
-                commands.push_back(line);
-        }
+        Load(commands);
         return commands;
     }
     void Clear() override
@@ -77,6 +82,27 @@ public:
     }
 
 private:
+    // returns false if the file exists but can't be read
+    bool Load(std::vector<std::string>& commands) const
+    {
+        errno = 0;
+        std::ifstream in(fileName);
+        if (!in)
+            return errno == 0 || errno == ENOENT;
+        std::string line;
+        while (std::getline(in, line))
+            commands.push_back(line);
+        return !in.bad();
+    }
+
+    bool Replace(const std::string& newFileName) const
+    {
+#if defined(_WIN32)
+        std::remove(fileName.c_str()); // rename does not overwrite
+#endif
+        return std::rename(newFileName.c_str(), fileName.c_str()) == 0;
+    }
+
     const std::size_t maxSize;
     const std::string fileName;
 };
-- 
2.43.0


From df4834bd9ff215875b976e6709b0d70b57ac9662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:49 +0000
Subject: [PATCH 25/28] fix: converting a negative number does not overflow

---
 include/cli/detail/fromstring.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/cli/detail/fromstring.h b/include/cli/detail/fromstring.h
index 606b3e2..397366d 100644
--- a/include/cli/detail/fromstring.h
+++ b/include/cli/detail/fromstring.h
@@ -131,10 +131,11 @@ inline T signed_from_string(std::string s)
     {
         s = s.substr(1);
         const U val = unsigned_digits_from_string<U>(s);
-        auto min = std::numeric_limits<T>::min(); // this to avoid overflow warnings. Please NOTE: const auto produces warning!
-        if ( val > static_cast<U>( - min ) )
+        if (val == 0)
+            return 0;
+        if (val - 1 > static_cast<U>( std::numeric_limits<T>::max() ))
             throw bad_conversion();
-        return (- static_cast<T>(val));
+        return static_cast<T>(- static_cast<T>(val - 1) - 1); // the opposite of the lowest value can't be represented
     }
     else if (s[0] == '+')
     {
-- 
2.43.0


From e38d38e525c98946132fbf56f338754b8b37e7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:55 +0000
Subject: [PATCH 26/28] fix: shared output does not crash on a session whose
 stream has no buffer

---
 include/cli/cli.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index fccb90a..3c8f9d1 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -85,7 +85,8 @@ namespace cli
         std::streamsize xsputn(const char* s, std::streamsize n) override
         {
             for (auto os: ostreams)
-                os->rdbuf()->sputn(s, n);
+                if (os->rdbuf()) // a session can write on a stream without buffer
+                    os->rdbuf()->sputn(s, n);
             return n;
         }
         int overflow(int c) override
-- 
2.43.0


From 06f3d7bc3e6e459fe9e412b486f4fda88a9ad811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:42 +0000
Subject: [PATCH 27/28] fix: a server survives an enter action that throws or
 destroys it

---
 include/cli/detail/server.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/server.h b/include/cli/detail/server.h
index d6c6d5d..c824d08 100644
--- a/include/cli/detail/server.h
+++ b/include/cli/detail/server.h
@@ -147,8 +147,10 @@ private:
         acceptor.async_accept([this, token = std::weak_ptr<void>(alive)](asiolibec::error_code ec, asiolib::ip::tcp::socket socket)
             {
                 if (token.expired()) return; // the server has been destroyed
-                if (!ec) CreateSession(std::move(socket))->Start();
+                std::shared_ptr<Session> session;
+                if (!ec) session = CreateSession(std::move(socket));
                 Accept();
+                if (session) session->Start(); // it runs the enter actions, that can throw or destroy the server
             });
     }
     asiolib::ip::tcp::acceptor acceptor;
-- 
2.43.0


From 37fa32719bd8a419cebde914ea45f59adde67ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:06 +0000
Subject: [PATCH 28/28] fix: the end of a session does not take the shared
 output from others on its stream

---
 include/cli/cli.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 3c8f9d1..14cc271 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -102,7 +102,10 @@ namespace cli
         }
         void UnRegister(std::ostream& o)
         {
-            ostreams.erase(std::remove(ostreams.begin(), ostreams.end(), &o), ostreams.end());
+            // just one: other sessions can use the same stream
+            const auto i = std::find(ostreams.begin(), ostreams.end(), &o);
+            if (i != ostreams.end())
+                ostreams.erase(i);
         }
 
     private:
-- 
2.43.0

